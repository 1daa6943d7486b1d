"""C15: loading a file gives its exact text and language, or a clean error."""
from sim import env  # noqa: F401
from sim import core, docsim, fs, gen, musicsession as ms, texts

import codecs
import os
import pathlib
import re

import parce
import parce.transform
import quickly

NAMES = {
    "lilypond": ["a.ly", "b.ily", "c.lyi", "C# major.ly", "what?.ly", "a;b.ly", "a:b.ly", "\u00fc \u4e2d.ly", "100%25.ly", ".ly.ly",
                 "v2.txt", "noext"],
    "html": ["a.html", "b.htm"],
    "latex": ["a.tex", "b.lytex", "c.sty"],
    "scheme": ["a.scm", "b-b.scm"],
}
ROOTS = {"lilypond": ("quickly.lang.lilypond", "LilyPond.root"), "html": ("quickly.lang.html", "Html.root"),
         "latex": ("quickly.lang.latex", "Latex.root"), "scheme": ("quickly.lang.scheme", "Scheme.root")}
ENCODINGS = ["utf-8", "utf-8", "utf-8", "utf-8", "latin-1", "utf-16-le", "utf-16-be", "koi8-r", "shift_jis", "ascii", "cp1252"]
PLAIN = ["utf-8", "latin-1", "koi8-r"]
BOMS = {"utf-8": codecs.BOM_UTF8, "utf-16-le": codecs.BOM_UTF16_LE, "utf-16-be": codecs.BOM_UTF16_BE}
EXTRA = ["\u00e9", "\u4e2d\u6587", "\u2028", "\x85", "\x0c", "\x0b", "\U0001d11e", "\u0416", "\u00a0", "\t", "\ufeff", "\x1a", "\x00"]


def make_bytes(spec):
    text = spec["text"].replace("\n", spec["newline"])
    enc = spec["encoding"]
    try:
        data = text.encode(enc)
    except UnicodeEncodeError:
        enc = "utf-8"
        data = text.encode(enc)
    if spec["bom"] and enc in BOMS:
        data = BOMS[enc] + data
    if spec.get("cut"):
        data = data[:-1]
    if spec.get("bad"):
        i = min(len(data), 100 + spec["bad"] % (len(data) + 1))
        data = data[:i] + b"\xff\xfe\xc3"[:spec["bad"] % 3 + 1] + data[i:]
    return data


def norm(encoding):
    try:
        return encoding and codecs.lookup(encoding).name
    except LookupError:
        return encoding


def lines_translated(text, newline):
    if newline is None:
        return text.replace("\r\n", "\n").replace("\r", "\n")
    return text


def stated_encoding(lang, head):
    """The encoding that is mentioned in the text (only the ways generated)."""
    m = re.search(r'\bencoding: ([\w-]+)', head)
    if lang == "html":
        m = re.search(r'<meta charset="([\w-]+)">', head)
    return m.group(1) if m else None


def expected(data, lang, encoding, errors, newline):
    """What loading should give: ("text", text, encoding) or ("error",)."""
    bom = None
    for e, b in BOMS.items():
        if data.startswith(b):
            bom, data = e, data[len(b):]
            break
    head = data[:5000].decode(bom or "latin-1", "ignore")
    stated = stated_encoding(lang, head)
    try:
        if stated:
            codecs.lookup(stated)
    except LookupError:
        stated = None
    enc = bom or stated or encoding or "utf-8"
    try:
        codecs.lookup(enc)
        text = data.decode(enc, errors or "strict")
    except (UnicodeError, LookupError):
        return ("error",)
    return "text", lines_translated(text, newline), encoding or stated or bom


class C15(core.Check):
    id = "C15"
    rule = ("The case writes files with all kinds of names, encodings, byte order marks, encoding declarations and line "
            "endings on a simulated file system, and loads them (with all kinds of arguments, from several working "
            "directories) while open, read and close calls fail, are short or race with changes by other processes. The text, "
            "language, model, name and encoding are compared with what the bytes in the file mean; failures have to be "
            "clean errors, and everything loaded keeps working after them.")
    assumptions = ["a file is read from one version of its contents (as it was when it was opened)",
                   "UTF-32 files with a byte order mark are not used (parce takes them for UTF-16)"]
    real = ["quickly.load, quickly.find and the language registry", "quickly/lang/*.py", "parce document loading and decoding",
            "reading in background threads"]
    stubs = ["file system below /s/, working directory", "thread scheduling", "other processes"]
    states_measure = "distinct hashes of (language, encoding, arguments, outcome)"
    quick_runs = 3000
    thorough_runs = 100000

    def spec(self, rng, lang, name):
        text = gen.render(texts.wellformed(rng, lang))[:rng.choice([0, 1, 50, 400, 2000, 2000])] if rng.random() < .9 else ""
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randrange(len(text) + 1)
            text = text[:i] + rng.choice(EXTRA) + text[i:]
        if lang == "html":
            text = "<html>" + text
        if lang == "lilypond" and not name.endswith("ly"):
            text = '\\version "2.24.0"\n' + text.replace("\x00", "")
        enc = rng.choice(ENCODINGS)
        if rng.random() < .2:
            stated = rng.choice([enc, enc, "latin-1", "no-such-encoding", "utf-8"])
            text = {"html": '<html><meta charset="%s">\n', "scheme": "; encoding: %s\n"}.get(lang, "%% encoding: %s\n") % stated + text
        if rng.random() < .1:
            text += "\n% x x\n" * rng.choice([2000, 14000]) + "c\n" if lang == "lilypond" else "a b\n" * 2000
        if lang == "lilypond" and not name.endswith("ly"):
            # keep the language recognizable (parce never gets ready reading some binary text as comma separated values)
            return {"text": text, "encoding": rng.choice(PLAIN), "bom": False, "newline": rng.choice(["\n", "\r\n"]),
                    "cut": False, "bad": 0}
        return {"text": text, "encoding": enc, "bom": rng.random() < .3, "newline": rng.choice(["\n", "\n", "\r\n", "\r"]),
                "cut": rng.random() < .04, "bad": rng.randrange(1, 3000) if rng.random() < .06 else 0}

    def generate(self, rng):
        files = {}
        for _ in range(rng.randint(1, 3)):
            lang = rng.choice(["lilypond", "lilypond", "html", "latex", "scheme"])
            name = rng.choice(NAMES[lang])
            files[rng.choice(["/s/p/", "/s/p/sub/", "/s/C# x/"]) + name] = [lang, self.spec(rng, lang, name)]
        case = {"files": files, "short": rng.choice([0, 0, 0, 1, 3, 1000]), "ops": [], "schedule": ms.schedule(rng, 20)}
        paths = sorted(files)
        for _ in range(rng.randint(1, 7)):
            k = rng.random()
            p = rng.choice(paths)
            lang = files[p][0]
            if k < .7:
                args = {}
                if rng.random() < .3:
                    args["encoding"] = rng.choice(ENCODINGS + ["no-such-encoding"])
                    if not os.path.splitext(p)[1] or p.endswith("txt"):
                        args["encoding"] = rng.choice(PLAIN)
                if rng.random() < .25:
                    args["errors"] = rng.choice(["strict", "replace", "ignore", "surrogateescape", None])
                if rng.random() < .25:
                    args["newline"] = rng.choice(["", None, "\n"])
                if rng.random() < .25:
                    args["lexicon"] = rng.choice(["lang", "object", "none", "true", "other"])
                fault = change = None
                f = rng.random()
                if f < .25:
                    fault = [rng.choice(["open", "read", "read", "close"]), rng.randint(1, 3), rng.choice(fs.ERRORS + ("ENOMEM!",))]
                elif f < .4:
                    change = [rng.randrange(5), self.change(rng, p, lang)]
                case["ops"].append(["load", p, args, rng.choice(["abs", "abs", "rel", "dot", "path"]), fault, change])
            elif k < .85:
                case["ops"].append(self.change(rng, p, lang))
            elif k < .9:
                case["ops"].append(["cd", rng.choice(["/s/p", "/s/p/sub", "/s", "/s/gone"])])
            elif k < .95:
                case["ops"].append(["edit", rng.randrange(100), rng.randrange(1000), texts.snippet(rng, lang)[:20]])
            else:
                case["ops"].append(["settle"])
        return case

    def change(self, rng, p, lang):
        if rng.random() < .75:
            return ["write", p, lang, self.spec(rng, lang, p)]
        return [rng.choice(["remove", "remove", "mkdir"]), p]

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for p in case["files"]:
            yield dict(case, files={q: v for q, v in case["files"].items() if q != p})
            lang, spec = case["files"][p]
            for new in self.simpler(spec):
                yield dict(case, files=dict(case["files"], **{p: [lang, new]}))
        if case["short"]:
            yield dict(case, short=0)
        for i, op in enumerate(case["ops"]):
            if op[0] == "load":
                for j, x in ((2, {}), (3, "abs"), (4, None), (5, None)):
                    if op[j] != x:
                        new = list(op)
                        new[j] = x
                        yield dict(case, ops=case["ops"][:i] + [new] + case["ops"][i + 1:])

    def simpler(self, spec):
        n = len(spec["text"])
        for a, b in ((n // 2, n), (0, n // 2), (n // 4, n // 2), (n // 2, n * 3 // 4), (n - 1, n), (0, 1)):
            if b > a:
                yield dict(spec, text=spec["text"][:a] + spec["text"][b:])
        for k, v in (("encoding", "utf-8"), ("bom", False), ("newline", "\n"), ("cut", False), ("bad", 0)):
            if spec[k] != v:
                yield dict(spec, **{k: v})

    def execute(self, case, run):
        Session(case, run).execute()


class Session:
    def __init__(self, case, run):
        self.case, self.run = case, run
        self.fs = fs.SimFS(run.log)
        self.fs.cwd = "/s/p"
        self.files = {}         # path -> (lang, bytes)
        self.docs = []          # (doc, lang or None, text)

    def fail(self, kind, detail):
        raise core.Violation(kind, detail, self.step)

    def apply(self, op):
        p = op[1]
        if op[0] == "write":
            data = make_bytes(op[3])
            self.fs.write(p, data)
            self.files[p] = op[2], data
        elif op[0] == "remove":
            self.fs.remove(p)
            self.files.pop(p, None)
        else:
            self.fs.mkdir(p)
            self.files.pop(p, None)

    def execute(self):
        case = self.case
        for p, (lang, spec) in case["files"].items():
            self.apply(["write", p, lang, spec])
        self.fs.short = case["short"]
        with docsim.World(self.run, case["schedule"]) as w, self.fs:
            self.w = w
            for self.step, op in enumerate(case["ops"]):
                if op[0] == "load":
                    self.load(op)
                elif op[0] == "cd":
                    self.fs.cwd = op[1]
                elif op[0] == "settle":
                    w.settle()
                elif op[0] == "edit":
                    if self.docs:
                        doc, lang, text = self.docs[op[1] % len(self.docs)]
                        if lang and "\r" not in text:
                            w.settle()
                            pos = op[2] * len(text) // 1000
                            doc[pos:pos] = op[3]
                            self.docs = [d if d[0] is not doc else (doc, lang, text[:pos] + op[3] + text[pos:])
                                         for d in self.docs]
                else:
                    self.apply(op)
                    self.run.count("fault:file_" + op[0])
            for doc, lang, text in self.docs:
                self.check(doc, lang, text, "at the end")
            w.settle()
            if self.fs.shorts:
                self.run.count("fault:short_read", self.fs.shorts)
        self.run.time += int(self.fs.now - 1700000000) + self.fs.calls

    def load(self, op):
        _, path, args, style, fault, change = op
        name = path
        if style == "rel":
            name = os.path.relpath(path, self.fs.cwd)
        elif style == "dot":
            name = os.path.dirname(path) + "/./sub/../" + os.path.basename(path)
        elif style == "path":
            name = pathlib.Path(path)
        gone = style == "rel" and self.fs.cwd == "/s/gone"
        kwargs = {k: v for k, v in args.items() if k != "lexicon"}
        lexicon = args.get("lexicon")
        state = self.files.get(path)
        states = [state]
        lang = next(k for k, names in NAMES.items() if os.path.basename(path) in names)
        if lexicon:
            kwargs["lexicon"] = {"lang": lang.capitalize() if lang != "html" else "HTML", "object": quickly.find(lang),
                                 "none": None, "true": True, "other": "scheme"}[lexicon]
        self.fs.clear_faults()
        counts = {}
        done = [False]
        start = self.fs.calls

        def hook(stage, p):
            counts[stage] = counts.get(stage, 0) + 1
            self.fs.faults.clear()
            if fault and stage == fault[0] and counts[stage] == fault[1]:
                self.fs.set_fault(stage, p, fault[2])
            if change and not done[0] and self.fs.calls - start > change[0]:
                done[0] = True
                self.run.count("fault:change_during_load")
                self.apply(change[1])
                states.append(self.files.get(path))
        self.fs.hook = hook
        handles = self.fs.handles
        threads = len(self.w.tasks)
        doc = error = None
        try:
            doc = quickly.load(name, **kwargs)
        except (OSError, ValueError, LookupError, MemoryError) as e:
            error = e
        except Exception as e:
            where = core.in_quickly(e.__traceback__)
            if not where:
                raise
            error = e
        finally:
            self.fs.hook = None
            fired = list(self.fs.fired)
            self.fs.clear_faults()
        for stage, p, n in fired:
            self.run.count("fault:%s_%s" % (stage, n))
        what = "load(%r, %s)%s" % (str(name), kwargs, " with failing " + str(fired) if fired else "")
        self.run.state(lang, args.get("encoding"), sorted(args), bool(error), bool(fired))
        if error is not None:
            kind = type(error)
            error.__traceback__ = None
            if self.fs.handles != handles:
                self.fail("left-open", "%s failed and left a file open" % what)
            if len(self.w.tasks) != threads:
                self.fail("left-running", "%s failed but started reading" % what)
            memory = any(n == "ENOMEM!" for s, p, n in fired)
            reading = any(s in ("open", "read") for s, p, n in fired)
            if reading and kind is not MemoryError if memory else reading and not issubclass(kind, OSError):
                self.fail("other-error", "%s: %s" % (what, kind.__name__))
            if not fired and not gone and not any(s is None or expected(
                    s[1], *self.reading(args, s, lang))[0] == "error" for s in states):
                self.fail("load-failed", "%s: %s: %s" % (what, kind.__name__, error))
            if not fired and all(s is None for s in states) and not issubclass(kind, OSError):
                self.fail("other-error", "%s: %s" % (what, kind.__name__))
            self.run.count("load_failed")
            return
        if any(s in ("open", "read") for s, p, n in fired):
            self.fail("error-swallowed", "%s gave a document" % what)
        self.run.nontrivial = True
        self.run.count("loaded")
        if self.fs.handles != handles:
            self.fail("left-open", "%s left a file open" % what)
        if gone and not str(doc.url).startswith("/s/"):
            self.fail("load", "%s gave a document" % what)
        text = doc.text()
        for s in sorted(filter(None, states), key=lambda s: norm(expected(s[1], *self.reading(args, s, lang))[-1]) != norm(doc.encoding)):
            e = expected(s[1], *self.reading(args, s, lang))
            if e[0] == "text" and e[1] == text:
                break
        else:
            self.fail("text", "%s has text %r, expected %s" % (what, text[:200], [
                s and str(expected(s[1], *self.reading(args, s, lang)))[:250] for s in states]))
        if norm(doc.encoding) != norm(e[2]):
            self.fail("encoding", "%s has encoding %r, expected %r" % (what, doc.encoding, e[2]))
        if doc.url != path:
            self.fail("url", "%s has url %r, expected %r" % (what, doc.url, path))
        if doc.modified or doc.can_undo():
            self.fail("modified", "%s is modified or can undo" % what)
        root = doc.root_lexicon()
        want = {"none": None, "other": "scheme"}.get(lexicon, lang) if lexicon else lang
        if lexicon in (None, "true") and not s[1].startswith({"html": b"<html>", "lilypond": b'\\version "2.24.0"'}.get(lang, b"")) and (
                lang == "html" or not path.endswith("ly")):
            # the language can only be found by looking at the text
            names = [k for k, v in ROOTS.items() if root is not None and v == (root.language.__module__, repr(root))]
            if not names:
                return
            want = names[0]
        elif want is None:
            if root is not None:
                self.fail("language", "%s has language %r" % (what, root))
        elif root is None or (root.language.__module__, repr(root)) != ROOTS[want]:
            self.fail("language", "%s has language %r, expected %s" % (what, root, want))
        self.docs.append((doc, want, text))
        if self.step % 2:
            self.check(doc, want, text, what)

    def reading(self, args, state, lang):
        """language for the encoding, encoding, errors, newline."""
        lang = {"none": None, "other": "scheme"}.get(args.get("lexicon"), lang)
        return lang, args.get("encoding"), args.get("errors"), args.get("newline")

    def check(self, doc, lang, text, what):
        if doc.text() != text:
            self.fail("text", "%s: text changed to %r" % (what, doc.text()[:300]))
        model = doc.get_transform(True)
        self.w.check_threads()
        if lang is None:
            if model is not None:
                self.fail("model", "%s has a model without a language" % what)
            return
        fresh = docsim.fresh(lang, text)
        if model is None and not text:
            return      # parce starts reading at the first text
        if (model is None) != (fresh is None):
            self.fail("model", "%s has model %r" % (what, model))
        diff = docsim.first_diff(docsim.dump(model), docsim.dump(fresh))
        if diff and not self.upstream(doc, lang, text):
            self.fail("model", "%s: %s" % (what, diff))

    def upstream(self, doc, lang, text):
        """parce's incremental tree can differ after an edit."""
        return docsim.contexts(doc.get_root(True)) != docsim.contexts(parce.root(quickly.find(lang), text))


CHECK = C15()
