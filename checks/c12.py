"""C12: musical lengths and positions equal those of the music as LilyPond plays it."""
from sim import env  # noqa: F401
from sim import core, docsim, fs, gen, musicsession as ms, texts
from sim.ref import reader
from checks import c11

from fractions import Fraction as F

import parce
import quickly.time
from quickly.dom import lily
from quickly.dom.scope import Scope

DIRS = ["/s/p/", "/s/p/sub/", "/s/inc/"]
NAMES = ["a.ly", "b.ly", "c.ily", "d.ly"]
VARS = ["music", "voiceA", "motif", "partTwo"]
MUSIC = reader.DURABLE | {"seq", "sim", "tuplet", "shift", "grace", "aftergrace", "ref", "relative", "fixed", "absolute",
                          "transpose", "wrap", "wrap2", "repeat"}


class Lily(gen.Lily):
    """Music with references and functions around them."""
    def item(self):
        r = self.r
        if r.random() < .12:
            ref = "\\" + r.choice(VARS)
            if self.depth >= 4:
                return ref
            seq2 = self.seq(2)
            return r.choice([
                ref, ref, ["\\tuplet", "3/2", ref], ["\\times", "2/3", ref], ["\\grace", ref],
                ["\\shiftDurations", "#" + r.choice(["1", "-1", "0"]), "#" + r.choice("012"), ref],
                ["\\scaleDurations", r.choice(["3/4", "3/4", "#3/4", "#'(3 . 4)"]), ref], ["\\relative", ref], ["\\repeat", "volta", "2", ref],
                ["\\afterGrace", "c2", ref], ["\\afterGrace", "3/4", "c2", ["{", "d16", "e", "}"]],
                ["\\afterGrace", ref, "c8"], ["\\skip", ref], ["\\skip", seq2],
                ["<<", ref, ref, ">>"], ["<<", ref, "\\\\", seq2, ">>"], ["\\unfoldRepeats", ref],
                ["\\transpose", "c", "d", ref], ["\\simultaneous", seq2], ["\\sequential", seq2],
                ["\\partcombine", seq2, list(seq2)], ["\\partcombine", "c2", "e4"], ["\\partcombine", ref, ref],
                ["{", "}"], ["<<", ">>"], "R1*3", "s1*0", "<>4", "c4*0"])
        return super().item()


def random_lily(rng):
    g = Lily(rng, refs=.08, shift=.06, aftergrace=.04, lyrics=.08, drums=.08, unpitched=.08, relative=.2, fixed=.1,
             transpose=.08, absolute=.05, tuplets=.12, grace=.06, sim=.1, nested=.1, repeat=.06, size=rng.choice([3, 6, 10]),
             alternate=.04, durations=rng.choice([.2, .4, .8]), dots=.3, scaling=.15)
    g.vars = VARS
    return g


def render(items):
    out = []
    for k, *v in items:
        if k == "def":
            out.append("%s = %s" % (v[0], gen.render(v[1])))
        elif k == "inc":
            out.append('\\include "%s"' % v[0])
        else:
            out.append(gen.render(v[0]))
    return "".join(s.strip() + "\n" for s in out)


_readers = {}


def read(items):
    """The syntax nodes of the items, one each, by an independent reader."""
    text = render(items)
    r = _readers.get(text)
    if r is None:
        if len(_readers) > 300:
            _readers.clear()
        r = _readers[text] = reader.Reader(text, VARS)
        if len(r.root.children) != len(items):
            raise reader.Unsupported("items")
        r.parents = {}
        for n in r.root.walk():
            for c in n.children:
                r.parents[id(c)] = n
        r.skip = {id(m) for n in r.root.walk() if n.type == "aftergrace" for m in n.children[1].walk()}
        r.music = [n for n in r.root.walk() if n.type in MUSIC]
    return r


def random_items(rng, n, names, root=False):
    while True:
        items = []
        for i in range(n):
            k = rng.random()
            if k < .3:
                items.append(["inc", rng.choice(names)])
            elif k < .75:
                items.append(["def", rng.choice(VARS), random_lily(rng).expr()])
            elif k < .8:
                items.append(["def", rng.choice(VARS), "\\" + rng.choice(VARS)])
            else:
                e = random_lily(rng).expr()
                items.append(["mus", ["\\score", "{", e, "}"] if rng.random() < .2 else e])
        if root:
            items.append(["mus", random_lily(rng).expr()])
        try:
            read(items)
            if fine(items):
                return items
        except reader.Unsupported:
            pass


def fine(items):
    """Whether all the lengths can be computed (shifts can get too short)."""
    for n in read(items).music:
        reader.length(n, lambda n, scale, shift: F(0))
    return True


class Reference(c11.Reference):
    """Lengths in music that is defined in several files."""

    def lookup(self, name, levels, versions, wait, choose):
        """Return the levels at the definition, or None."""
        levels = list(levels)
        while levels:
            path, items, i = levels[-1]
            r = self.backward(levels[:-1], path, items, i, name, versions, wait, choose)
            if r:
                return r
            levels.pop()
        return None

    def backward(self, above, path, items, end, name, versions, wait, choose):
        chain = [x[0] for x in above] + [path]
        for i in range(end - 1, -1, -1):
            item = items[i]
            if item[0] == "inc":
                r = self.resolve(item[1], chain, versions, choose)
                if r and (wait or choose(2)):
                    r = self.backward(above + [(path, items, i)], r[0], r[1], len(r[1]), name, versions, wait, choose)
                    if r:
                        return r
            elif item[0] == "def" and item[1] == name:
                return above + [(path, items, i)]
        return None

    def resolver(self, levels, versions, wait, choose):
        def resolve(n, scale, shift):
            self.budget -= 1
            if self.budget < 0:
                raise c11.TooMany
            at = self.lookup(n.name, levels, versions, wait, choose)
            if not at:
                return F(0)
            path, items, i = at[-1]
            value = read(items).root.children[i].value
            return reader.length(value, self.resolver(at, versions, wait, choose), scale, shift)
        return resolve


def around(r, n):
    """(scale, shift, outermost) for a node: what the music around it does."""
    scale, shift, top = F(1), (0, 0), n
    p = r.parents.get(id(n))
    while p is not None and p.type in MUSIC:
        if p.type == "tuplet":
            scale *= p.scale
        elif p.type == "shift":
            shift = shift[0] + p.log, shift[1] + p.dots
        elif p.type == "grace":
            scale *= 0
        top = p
        p = r.parents.get(id(p))
    return scale, shift, top


class C12(core.Check):
    id = "C12"
    rule = ("The case writes music with variables in a main document and files including each other on a simulated file "
            "system, and asks lengths, positions, durations between nodes and of cursors, in any order, through several "
            "calculators, waiting or not, while files are changed and reading them fails. The answers are compared with an "
            "independent reader of the texts that follows the definitions through the files.")
    assumptions = ["\\repeat counts its music once as written, \\alternative isn't used", "the default duration is that of "
                   "the preceding music in the same file", "a changed file gets another modification time"]
    real = ["quickly/time.py", "quickly/duration.py", "quickly/dom/lily.py (time_length, duration_getter, Lookup)",
            "quickly/dom/scope.py", "quickly/lang/lilypond.py", "parce reading documents in background threads"]
    stubs = ["file system below /s/", "thread scheduling", "other processes"]
    states_measure = "distinct hashes of (query, outcome)"
    quick_runs = 10000
    thorough_runs = 300000

    def generate(self, rng):
        paths = sorted({rng.choice(DIRS) + rng.choice(NAMES) for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))})
        root = "/s/p/" + rng.choice(["main.ly", "a.ly"])
        ipath = ["/s/inc"] if rng.random() < .7 else []
        names = [c11.random_name(rng, paths + [root], ["/s/p"] + ipath) for _ in range(rng.randint(1, 4))] \
            if rng.random() < .3 or not paths else [p if rng.random() < .3 else p.replace("/s/p/", "").replace(
                "/s/inc/", "" if ipath else "../inc/") for p in paths]
        names = [n for n in names if '"' not in n] or ["nothere.ly"]
        case = {"files": {p: random_items(rng, rng.randint(0, 4), names) for p in paths}, "root": root,
                "items": random_items(rng, rng.randint(0, 4), names, True), "include_path": ipath,
                "short": rng.choice([0, 0, 0, 5]), "schedule": ms.schedule(rng, 20), "ops": []}
        for _ in range(rng.randint(3, 16)):
            k = rng.random()
            if k < .8 or (k < .9 and not paths):
                q = rng.choice(["length", "length", "position", "position", "end", "duration", "cursor", "selection"])
                fault = None
                if paths and rng.random() < .12:
                    fault = [rng.choice(["stat", "open", "read", "open"]), rng.randrange(100), rng.choice(fs.ERRORS)]
                case["ops"].append(["ask", q, rng.randrange(3), rng.randrange(1000), rng.randrange(1000),
                                    [rng.randrange(100) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                                    rng.random() < .75, fault])
            elif k < .9:
                p = rng.choice(paths)
                case["ops"].append(["remove", p] if rng.random() < .3 else
                                   ["write", p, random_items(rng, rng.randint(0, 4), names)])
            elif k < .95:
                case["ops"].append(["root", random_items(rng, rng.randint(0, 3), names, True)])
            elif k < .97:
                text = texts.broken(rng, "lilypond") if rng.random() < .7 else gen.render(texts.wellformed(rng, "lilypond"))
                case["ops"].append(["any", text, [rng.randrange(100000) for _ in range(10)]])
            else:
                case["ops"].append([rng.choice(["settle", "scope", "step"])])
        return case

    def lists(self):
        return ("ops", "items", "schedule", "include_path")

    def simplify(self, case):
        def items_variants(items):
            for i, item in enumerate(items):
                for parts in gen.shrink(item[-1]) if item[0] != "inc" else ():
                    new = items[:i] + [item[:-1] + [parts]] + items[i + 1:]
                    try:
                        read(new)
                        if fine(new):
                            yield new
                    except Exception:
                        pass
        for p, items in case["files"].items():
            yield dict(case, files={q: v for q, v in case["files"].items() if q != p})
            for i in range(len(items)):
                yield dict(case, files=dict(case["files"], **{p: items[:i] + items[i + 1:]}))
            for v in items_variants(items):
                yield dict(case, files=dict(case["files"], **{p: v}))
        for v in items_variants(case["items"]):
            yield dict(case, items=v)
        for i, op in enumerate(case["ops"]):
            if op[0] in ("root", "write"):
                for i2 in range(len(op[-1])):
                    new = op[:-1] + [op[-1][:i2] + op[-1][i2 + 1:]]
                    yield dict(case, ops=case["ops"][:i] + [new] + case["ops"][i + 1:])
                for v in items_variants(op[-1]):
                    yield dict(case, ops=case["ops"][:i] + [op[:-1] + [v]] + case["ops"][i + 1:])
            if op[0] == "ask":
                for j, x in ((5, []), (6, True), (7, None), (2, 0)):
                    if op[j] != x:
                        new = list(op)
                        new[j] = x
                        yield dict(case, ops=case["ops"][:i] + [new] + case["ops"][i + 1:])

    def execute(self, case, run):
        Session(case, run).execute()


class Session:
    def __init__(self, case, run):
        self.case, self.run = case, run
        self.fs = fs.SimFS(run.log)
        self.files = {}
        self.ref = Reference(case)

    def fail(self, kind, detail):
        raise core.Violation(kind, detail, self.step)

    def apply(self, op):
        if op[0] == "write":
            if any(f.startswith(op[1] + "/") or op[1].startswith(f + "/") for f in self.files):
                return
            self.fs.write(op[1], render(op[2]).encode("utf-8"))
            self.files[op[1]] = op[2]
        else:
            self.fs.remove(op[1])
            self.files.pop(op[1], None)

    def versions(self, path):
        if any(c11.posixpath.normpath(p) == path for stage, p, n in self.fs.fired if stage in ("open", "read")):
            return [None]
        return [self.files.get(path)]

    def execute(self):
        case = self.case
        for p, items in case["files"].items():
            self.apply(["write", p, items])
        self.fs.short = case["short"]
        self.items = case["items"]
        try:
            read(self.items)
            for items in case["files"].values():
                read(items)
        except reader.Unsupported:
            return          # while minimising
        with docsim.World(self.run, case["schedule"]) as w, self.fs:
            self.w = w
            self.root = w.open("lilypond", render(self.items))
            self.root.url = case["root"]
            self.new_scope()
            for self.step, op in enumerate(case["ops"]):
                if op[0] == "ask":
                    self.ask(op)
                elif op[0] in ("write", "remove"):
                    self.apply(op)
                    self.run.count("fault:file_" + op[0])
                elif op[0] == "root":
                    self.items = op[1]
                    self.root.set_text(render(op[1]))
                    self.times = {}
                elif op[0] == "any":
                    self.any(op[1], op[2])
                elif op[0] == "scope":
                    self.new_scope()
                elif op[0] == "settle":
                    w.settle()
                elif op[0] == "step":
                    w.sched.point("step")
            w.settle()
            if self.fs.shorts:
                self.run.count("fault:short_read", self.fs.shorts)
        self.run.time += int(self.fs.now - 1700000000) + self.fs.calls

    def new_scope(self):
        self.scope = Scope(self.root)
        self.scope.include_path[:] = self.ref.include_path = self.case["include_path"]
        self.times = {}

    def any(self, text, numbers):
        """Ask about any nodes in any text; that never fails, and the answers
        do not depend on the questions before."""
        doc = self.w.open("lilypond", text)
        doc.url = "/s/p/any.ly"
        self.fs.clear_faults()
        nodes = list(self.w.model(doc).descendants())
        if not nodes:
            return
        scope = Scope(doc)
        shared = quickly.time.Time(scope, True)
        for a, b in zip(numbers, numbers[1:]):
            x, y = nodes[a % len(nodes)], nodes[b % len(nodes)]
            music = [n for n in nodes if isinstance(n, (lily.Music, lily.Reference))]

            def answers(time):
                def noted(result):
                    return result and (result.node and result.node.pos, result.time)
                yield noted(time.position(x))
                yield noted(time.position(y, True))
                yield noted(time.duration(x, y))
                if music:
                    yield time.length(music[a % len(music)])
                start, end = min(x.pos or 0, y.pos or 0), max(x.pos or 0, y.pos or 0)
                yield noted(time.cursor_position(parce.Cursor(doc, start)))
                yield noted(time.cursor_duration(parce.Cursor(doc, start, end)))
            try:
                got = list(answers(shared))
                want = list(answers(quickly.time.Time(scope, True)))
            except core.Violation:
                raise
            except Exception as e:
                if not core.in_quickly(e.__traceback__):
                    raise
                self.fail("computation-failed", "%s; text %r" % (core.describe_exc(e), text))
            if got != want:
                self.fail("depends-on-history", "got %s, expected %s, for %r and %r in %r" % (got, want, x, y, text))
            self.run.count("asked_any")

    def ask(self, op):
        self.fs.clear_faults()
        paths = sorted(self.files)
        if op[7] and paths:
            self.fs.set_fault(op[7][0], paths[op[7][1] % len(paths)] if op[7][1] < 70 else "*", op[7][2])
        try:
            self._ask(*op[1:7])
        except c11.TooMany:
            self.run.count("too_many_outcomes")
        except core.Violation:
            raise
        except Exception as e:
            where = core.in_quickly(e.__traceback__)
            if not where or core.innermost(e.__traceback__) == "harness" and not isinstance(e, OSError):
                raise
            self.fail("computation-failed", "%s; text %r" % (core.describe_exc(e), render(self.items)))
        finally:
            for stage, path, name in self.fs.fired:
                self.run.count("fault:%s_%s" % (stage, name))
            self.fs.clear_faults()

    def _ask(self, query, calc, a, b, walk, wait):
        # the document to ask about
        scope, doc, items, levels, docs = self.scope, self.root, self.items, [], []
        dom = self.w.model(doc)
        for n in walk:
            places = [i for i, item in enumerate(items) if item[0] == "inc"]
            if not places:
                break
            i = places[n % len(places)]
            node = [x for x in dom if isinstance(x, lily.Include)][n % len(places)]
            new = scope.include_scope(node.filename, node)
            found = self.ref.resolve(items[i][1], [x[0] for x in levels] + [doc.url], self.versions, lambda n: 0)
            if (new and new.document().url) != (found and found[0]):
                self.fail("include", "\\include %r found %r, expected %r" % (
                    items[i][1], new and new.document().url, found and found[0]))
            if not new:
                break
            levels.append((doc.url, items, i))
            docs.append(doc)
            scope, doc, items = new, new.document(), found[1]
            dom = self.w.model(doc)
        r = read(items)
        if not r.music:
            return
        text = r.text
        if doc.text() != text:
            self.fail("text", "document has %r, expected %r" % (doc.text(), text))
        nodes = {}
        for n in dom.descendants():
            if isinstance(n, (lily.Music, lily.Reference)) and n.pos is not None:
                nodes.setdefault(n.pos, n)
        # the calculator
        key = calc, wait, tuple(x[2] for x in levels), doc
        entry = self.times.get(key)
        docs.append(doc)
        if not entry or any(x is not y for x, y in zip(entry[1], docs)):
            # (a file that includes this one, and was read again, is another scope)
            entry = self.times[key] = quickly.time.Time(scope, wait), docs
        time = entry[0]
        x = self.pick(r, nodes, a, query in ("cursor", "selection"))
        y = self.pick(r, nodes, b, query == "selection")
        if x is None or y is None:
            return
        if y.pos < x.pos and query == "selection":
            x, y = y, x
        got = self.query(time, query, nodes, x, y, doc, text)
        self.w.check_threads()

        def expect(choose, really=wait):
            self.ref.budget = 3000
            return self.expected(query, r, x, y, levels + [(doc.url, items, None)], really, choose)
        expected = c11.Chooser().outcomes(expect)
        self.check(query, got, expected, wait, text, x, y, doc)
        if wait and not self.fs.faults:
            # everything has been read now
            t = quickly.time.Time(scope, False)
            self.check(query, self.query(t, query, nodes, x, y, doc, text), expected, False, text, x, y, doc)
        self.run.nontrivial = True
        self.run.state(query, got)
        self.run.count("asked_" + query)

    def check(self, query, got, expected, wait, text, x, y, doc):
        if got not in expected:
            self.fail(query, "%s of %r%s in %s %r is %s, expected %s%s" % (
                query, text[x.pos:x.end], "" if query not in ("duration", "selection") else " to %r" % text[y.pos:y.end],
                doc.url, text, got, " or ".join(map(str, expected)), "" if wait else " (not waiting)"))

    def pick(self, r, nodes, n, durable):
        music = [m for m in r.music if m.pos in nodes and id(m) not in r.skip and (not durable or m.type in reader.DURABLE and m.type != "lyric")]
        return music[n % len(music)] if music else None

    def query(self, time, query, nodes, x, y, doc, text):
        if query == "length":
            return time.length(nodes[x.pos])
        if query == "position" or query == "end":
            result = time.position(nodes[x.pos], query == "end")
        elif query == "duration":
            result = time.duration(nodes[x.pos], nodes[y.pos])
        elif query == "cursor":
            pos = x.pos
            while pos and text[pos - 1] in " \n" and (x.pos + pos) % 3:
                pos -= 1
            result = time.cursor_position(parce.Cursor(doc, pos, pos))
        else:
            result = time.cursor_duration(parce.Cursor(doc, x.pos, y.end))
        return result and (result.node.pos, result.time)

    def expected(self, query, r, x, y, levels, wait, choose):
        def top(n):
            while n not in r.root.children:
                n = r.parents[id(n)]
            return r.root.children.index(n)

        def resolver(n):
            path, items, _ = levels[-1]
            return self.ref.resolver(levels[:-1] + [(path, items, top(n))], self.versions, wait, choose)

        def length(n):
            scale, shift, _ = around(r, n)
            return reader.length(n, resolver(n), scale, shift)

        def position(n):
            t = F(0)
            p = r.parents.get(id(n))
            while p is not None and p.type in MUSIC:
                if p.type == "seq":
                    for c in p.children:
                        if c is n:
                            break
                        t += length(c)
                n, p = p, r.parents.get(id(p))
            return n.pos, t
        if query == "length":
            return length(x)
        if query == "position" or query == "cursor":
            return position(x)
        if query == "end":
            pos, t = position(x)
            return pos, t + length(x)
        if query == "selection":
            # music that is selected entirely
            while True:
                p = r.parents.get(id(y))
                if p is None or p.type not in MUSIC or p.end != y.end or p.pos <= x.pos:
                    break
                y = p
        p1, t1 = position(x)
        p2, t2 = position(y)
        if p1 != p2:
            return None
        t = t2 + length(y) - t1
        if query == "selection" and t < 0:
            return None
        return p1, t


CHECK = C12()
