"""C11: include files are found in the documented order, fresh, and without hanging."""
from sim import env  # noqa: F401
from sim import core, docsim, fs, musicsession as ms

import posixpath
import re

import quickly
from quickly.dom import lily
from quickly.dom.scope import Scope

DIRS = ["/s/p/", "/s/p/sub/", "/s/inc/", "/s/C# x/", "/s/p/\u00fc v/", "/s/q/"]
NAMES = ["a.ly", "b.ly", "c.ily", "d.ly", "e.ly", "d#1.ly", "e?.ly", "f%20.ly", "g h.ly", "h;1.ly", "i:1.ly", "\u00e9.ly"]
VARS = ["va", "vb", "vc", "musicOne", "x-y"]
BLOCKS = ["layout", "header", "paper", "midi"]


# -- writing the files

def value(item):
    kind, _, v = item
    if kind == "def":
        return '"t%d"' % v
    if kind == "defm":
        return "{ c4*%d }" % v
    if kind == "defn":
        return str(v)
    if kind == "alias":
        return "\\" + v
    raise ValueError(kind)


def render(items, depth=0):
    out = []
    for item in items:
        k = item[0]
        if k in ("def", "defm", "defn", "alias"):
            out.append("%s = %s" % (item[1], value(item)))
        elif k == "inc":
            out.append('\\include "%s"' % item[1].replace("\\", "\\\\").replace('"', '\\"'))
        elif k == "ref":
            out.append(("{ \\%s }" if item[2] else "\\%s") % item[1] if not depth else "\\" + item[1])
        elif k == "block":
            out.append("\\%s {\n%s}" % (item[1], render(item[2], depth + 1)))
        else:
            out.append(item[1])
    return "".join(s + "\n" for s in out)


def data(items):
    return render(items).encode("utf-8").replace(b"@BAD@", b"\xff\xfe\xfa")


def is_bad(items):
    return "@BAD@" in render(items)


def refs(items):
    """Positions of the references, in text order."""
    out = []
    for i, item in enumerate(items):
        if item[0] == "ref":
            out.append((i,))
        elif item[0] == "alias":
            out.append((i,))
        elif item[0] == "block":
            out.extend((i,) + p for p in refs(item[2]))
    return out


def incs(items):
    out = []
    for i, item in enumerate(items):
        if item[0] == "inc":
            out.append((i,))
        elif item[0] == "block":
            out.extend((i,) + p for p in incs(item[2]))
    return out


def at(items, pos):
    for i in pos[:-1]:
        items = items[i][2]
    return items[pos[-1]]


def all_names(case):
    """All file names and names of includes."""
    def rec(v):
        if isinstance(v, list):
            if v[:1] == ["inc"]:
                out.append(v[1])
            elif v[:1] in (["write"], ["remove"], ["mkdir"]):
                out.append(v[1])
            for x in v:
                rec(x)
        elif isinstance(v, dict):
            for x in v.values():
                rec(x)
    out = [case["root"]] + list(case["files"])
    rec([case["files"], case["items"], case["ops"]])
    return out


def written(node):
    """The text of a value, without comments."""
    text = re.sub(r"%\{.*?%\}|%[^\n]*", "", node.write(), flags=re.S)
    return re.sub(r"\s+", " ", text).strip()


# -- the reference: what a lookup finds

class TooMany(Exception):
    pass


class Chooser:
    """Enumerates the results of a function that makes choices."""
    LIMIT = 400

    def __init__(self):
        self.prefix = []

    def choose(self, n):
        if n == 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def outcomes(self, func):
        out = []
        for _ in range(self.LIMIT):
            self.taken = []
            r = func(self.choose)
            if r not in out:
                out.append(r)
            while self.taken and self.taken[-1][0] + 1 >= self.taken[-1][1]:
                self.taken.pop()
            if not self.taken:
                return out
            c, n = self.taken.pop()
            self.prefix = [x for x, _ in self.taken] + [c + 1]
        raise TooMany


class Reference:
    def __init__(self, case):
        self.relative = True
        self.include_path = []

    def candidates(self, name, chain):
        if "://" in name:
            return []
        paths = []
        bases = []
        if self.relative:
            bases.append(chain[-1])
        bases.append(chain[0])
        bases = [posixpath.dirname(p) for p in bases if p is not None]
        bases.extend(self.include_path)
        for b in bases:
            p = posixpath.normpath(posixpath.join(b, name))
            if p not in chain and p not in paths:
                paths.append(p)
        return paths

    def resolve(self, name, chain, versions, choose):
        """Return (path, items) or None. ``versions(path)`` lists what a file
        can be at this moment (None: not readable)."""
        for p in self.candidates(name, chain):
            v = versions(p)
            items = v[choose(len(v))]
            if items is not None:
                return p, items
        return None

    def lookup(self, name, levels, versions, wait, choose):
        """levels: list of (path, items, position) from the root to the file
        the reference is in. Return (value text, paths) or None."""
        levels = list(levels)
        while levels:
            path, items, pos = levels[-1]
            chain = [x[0] for x in levels]
            for k in range(len(pos), 0, -1):
                block = items
                for i in pos[:k - 1]:
                    block = block[i][2]
                r = self.backward(block[:pos[k - 1]], name, chain, versions, wait, choose)
                if r:
                    return r
            levels.pop()
        return None

    def backward(self, items, name, chain, versions, wait, choose):
        for item in reversed(items):
            if item[0] == "inc":
                r = self.resolve(item[1], chain, versions, choose)
                if r and lilypond_file(r[0], choose) and (wait or choose(2)):
                    r = self.backward(r[1], name, chain + [r[0]], versions, wait, choose)
                    if r:
                        return r
            elif item[0] in ("def", "defm", "defn", "alias") and item[1] == name:
                return value(item), tuple(chain)
        return None


def lilypond_file(path, choose):
    return path.endswith((".ly", ".ily"))


# -- generating

def random_items(rng, n, names, depth=0):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .3:
            name = rng.choice(VARS)
            kind = rng.choice(["def", "def", "defm", "defn"] if not depth else ["def", "defn"])
            out.append([kind, name, rng.randint(2, 999)])
        elif k < .38:
            out.append(["alias", rng.choice(VARS), rng.choice(VARS)])
        elif k < .7:
            out.append(["inc", rng.choice(names)])
        elif k < .85 and not depth:
            out.append(["ref", rng.choice(VARS), rng.random() < .7])
        elif k < .93 and depth < 1:
            out.append(["block", rng.choice(BLOCKS), random_items(rng, rng.randint(0, 4), names, depth + 1)])
        elif k < .97:
            out.append(["text", rng.choice(['% \\include "a.ly"', '%{ va = "no" %}', '#(define x 1)', ""] + ([] if depth else [
                '\\version "2.24.0"', '\\markup { "va" }', '\\language "english"']))])
        elif k < .985:
            out.append(["text", "% @BAD@"])
        elif not depth:
            out.append(["text", rng.choice(['\\include ##f', '\\include \\foo'])])
    return out


def random_path(rng):
    return rng.choice(DIRS) + rng.choice(NAMES[:5] if rng.random() < .75 else NAMES)


def random_name(rng, paths, dirs):
    k = rng.random()
    if k < .85:
        p = rng.choice(paths)
        base = rng.choice(dirs) if k < .6 else rng.choice(DIRS)
        if k < .2:
            return posixpath.basename(p)
        if k < .75:
            return posixpath.relpath(p, base)
        return p
    if k < .88:
        return "./" + posixpath.basename(rng.choice(paths))
    if k < .9:
        return "sub/../" + posixpath.basename(rng.choice(paths))
    if k < .93:
        return "sub//" + posixpath.basename(rng.choice(paths))
    return rng.choice(["nothere.ly", "", ".", "..", "http://host/a.ly", "sub", "../../../../a.ly", "\u00e9.ly", "//[x/a.ly",
                       "a" * 300 + ".ly", "sub/a.ly/b.ly", "~/a.ly"])


class C11(core.Check):
    id = "C11"
    rule = ("The case writes a tree of files on a simulated file system and performs lookups from references in the main "
            "document and in documents reached through its includes, while files are changed, created and removed between "
            "and during the lookups, and stat, open and read calls fail or are short. Every result is compared with an "
            "independent reference on the written structure: the file chosen, its contents, the definition found and the "
            "chain of files it was found through. Every case with cycles has to end.")
    assumptions = ["a file that is changed gets another modification time, which is what the file cache is documented to "
                   "depend on", "'..' in names is resolved textually; no symbolic links"]
    real = ["quickly/dom/scope.py", "quickly/dom/lily.py Lookup, Reference, Include", "quickly/__init__.py load",
            "quickly/lang/*.py and parce reading the files in background threads", "parce file cache and document loading"]
    stubs = ["file system below /s/ (stat, open, read, close, modification times)", "thread scheduling", "other processes"]
    states_measure = "distinct hashes of (step kind, fault, result, file chain)"
    quick_runs = 20000
    thorough_runs = 600000

    def generate(self, rng):
        paths = sorted({random_path(rng) for _ in range(rng.randint(2, 7))})
        root = rng.choice(DIRS[:5]) + rng.choice(NAMES[:3])
        if rng.random() < .05:
            root = rng.choice(DIRS) + rng.choice(NAMES)
        allp = paths + [root]
        ipath = rng.sample(DIRS, rng.randint(0, 3)) if rng.random() < .6 else []
        names = [random_name(rng, allp, [posixpath.dirname(root)] * 2 + ipath) for _ in range(rng.randint(2, 6))]
        files = {p: random_items(rng, rng.randint(0, 6), names) for p in paths}
        if rng.random() < .3:
            files[root] = random_items(rng, 3, names)
        case = {"files": files, "root": root, "items": self.root_items(rng, names),
                "url": rng.choice(["plain"] * 6 + ["file"] + (["none"] if ipath else [])),
                "include_path": [p.rstrip("/") if rng.random() < .3 else p for p in ipath],
                "relative": rng.random() < .85,
                "short": rng.choice([0, 0, 0, 1, 7]),
                "schedule": ms.schedule(rng, 20), "ops": []}
        ops = case["ops"]
        for _ in range(rng.randint(2, 10)):
            k = rng.random()
            if k < .6:
                fault = change = None
                f = rng.random()
                if f < .2:
                    fault = [rng.choice(["stat", "open", "read", "open", "read"]), rng.randrange(100),
                             rng.choice(fs.ERRORS)]
                elif f < .35:
                    change = [rng.randrange(12), self.change(rng, allp, names)]
                elif f < .4:
                    fault = ["close", rng.randrange(100), "EIO"]
                ops.append(["lookup", [rng.randrange(100) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))],
                            rng.randrange(100), rng.random() < .75, fault, change])
            elif k < .85:
                ops.append(self.change(rng, allp, names))
            elif k < .9:
                ops.append(["root", self.root_items(rng, names)])
            elif k < .94:
                ops.append(["scope", rng.random() < .5])
            elif k < .97:
                ops.append(["settle"])
            else:
                ops.append(["relative", rng.random() < .5])
        return case

    def root_items(self, rng, names):
        items = random_items(rng, rng.randint(1, 6), names)
        items.append(["inc", rng.choice(names)])
        items.append(["ref", rng.choice(VARS), True])
        return [i for i in items if not is_bad([i])]

    def change(self, rng, paths, names):
        k = rng.random()
        p = rng.choice(paths) if rng.random() < .85 else random_path(rng)
        if k < .65:
            op = ["write", p, random_items(rng, rng.randint(0, 5), names)]
            if rng.random() < .15:
                op.append(rng.choice([.001, 1, 3600, 10000000]))
            return op
        if k < .93:
            return ["remove", p]
        return ["mkdir", p]

    def lists(self):
        return ("ops", "items", "include_path", "schedule")

    def simplify(self, case):
        for p in case["files"]:
            c = dict(case, files={q: v for q, v in case["files"].items() if q != p})
            yield c
            for i in range(len(case["files"][p])):
                f = dict(case["files"])
                f[p] = f[p][:i] + f[p][i + 1:]
                yield dict(case, files=f)
        for i, op in enumerate(case["ops"]):
            if op[0] == "lookup":
                for new in (["lookup", op[1][:-1], op[2], op[3], op[4], op[5]] if op[1] else None,
                            ["lookup", op[1], op[2], True, op[4], op[5]] if not op[3] else None,
                            ["lookup", op[1], op[2], op[3], None, None] if op[4] or op[5] else None,
                            ["lookup", op[1], 0, op[3], op[4], op[5]] if op[2] else None):
                    if new:
                        yield dict(case, ops=case["ops"][:i] + [new] + case["ops"][i + 1:])
        if case["short"]:
            yield dict(case, short=0)
        if case["url"] != "plain":
            yield dict(case, url="plain")

    def execute(self, case, run):
        Session(case, run).execute()


class Session:
    def __init__(self, case, run):
        self.case, self.run = case, run
        self.fs = fs.SimFS(run.log)
        self.files = {}             # path -> items, or None for a directory
        self.ref = Reference(case)
        self.before = None

    def fail(self, kind, detail):
        raise core.Violation(kind, detail, self.step)

    # the files

    def apply(self, op):
        self.run.count("fault:file_" + op[0])
        if op[0] == "write":
            # a directory in the way
            if any(f.startswith(op[1] + "/") for f in self.files) or any(
                    op[1].startswith(f + "/") for f in self.files):
                return
            mtime = None
            if len(op) > 3:
                # another clock, or a file put back from a backup
                old = self.fs.files.get(op[1])
                mtime = (old.mtime if old else self.fs.now) - op[3]
                self.run.count("fault:mtime_jumps_back")
            self.fs.write(op[1], data(op[2]), mtime)
            self.files[op[1]] = op[2]
        elif op[0] == "remove":
            self.fs.remove(op[1])
            self.files.pop(op[1], None)
        elif op[0] == "mkdir":
            self.fs.mkdir(op[1])
            self.files[op[1]] = None

    def readable(self, items):
        return items if items is not None and not is_bad(items) else None

    def versions(self, path):
        """What the file can be for the current operation."""
        now = self.readable(self.files.get(path))
        if path in self.failed:
            now = None
        out = [now]
        if any(stage == "close" and posixpath.normpath(p) == path for stage, p, n in self.fs.fired):
            out.append(None)
        if self.before is not None:
            old = self.readable(self.before.get(path))
            if old not in out:
                out.append(old)
        return out

    @property
    def failed(self):
        return {posixpath.normpath(p) for stage, p, n in self.fs.fired if stage in ("open", "read")}

    # the session

    def execute(self):
        case = self.case
        for p, items in case["files"].items():
            self.apply(["write", p, items])
        self.run.counts.clear()
        self.fs.short = case["short"]
        with docsim.World(self.run, case["schedule"]) as w, self.fs:
            self.w = w
            self.items = case["items"]
            self.root = w.open("lilypond", render(self.items))
            self.rootpath = case["root"]
            url = case["root"]
            # names of which the meaning depends on whether they are urls are
            # not mixed with urls
            if case["url"] == "file" and not any(re.search("[#?;%:]", n) for n in all_names(case)):
                url = "file://" + url
            elif case["url"] == "none":
                url = self.rootpath = None
            self.root.url = url
            self.new_scope(case["relative"])
            self.step = -1
            for self.step, op in enumerate(case["ops"]):
                if op[0] == "lookup":
                    self.lookup(op)
                elif op[0] in ("write", "remove", "mkdir"):
                    self.apply(op)
                elif op[0] == "root":
                    self.items = op[1]
                    self.root.set_text(render(self.items))
                elif op[0] == "scope":
                    self.new_scope(self.ref.relative, op[1])
                elif op[0] == "relative":
                    self.scope.relative_include = self.ref.relative = op[1]
                elif op[0] == "settle":
                    w.settle()
            w.settle()
            if self.fs.handles:
                self.fail("file-left-open", "%d files left open" % self.fs.handles)
            if self.fs.shorts:
                self.run.count("fault:short_read", self.fs.shorts)
        self.run.time += int(self.fs.now - 1700000000) + self.fs.calls

    def new_scope(self, relative, share=False):
        self.scope = Scope(self.root, factory=self.scope.factory if share else None)
        self.scope.relative_include = self.ref.relative = relative
        self.scope.include_path[:] = self.case["include_path"]
        self.ref.include_path = self.case["include_path"]

    def lookup(self, op):
        _, walk, index, wait, fault, change = op
        self.fs.clear_faults()
        self.before = None
        changed = False
        paths = sorted(self.files)
        if fault and paths:
            path = paths[fault[1] % len(paths)]
            self.fs.set_fault(fault[0], path if fault[1] < 70 else "*", fault[2])
        if change:
            start = self.fs.calls
            state = dict(self.files)

            def hook(stage, path):
                nonlocal changed
                if not changed and self.fs.calls - start > change[0]:
                    changed = True
                    self.before = state
                    self.apply(change[1])
                    self.run.count("fault:change_during_lookup")
            self.fs.hook = hook
        try:
            self._lookup(walk, index, wait)
        except TooMany:
            self.run.count("too_many_outcomes")
        except core.Violation:
            raise
        except Exception as e:
            if core.innermost(e.__traceback__) == "harness" and not isinstance(e, OSError):
                raise
            where = core.in_quickly(e.__traceback__)
            if not where:
                raise
            self.fail("lookup-failed", "%s; root %r" % (core.describe_exc(e), self.rootpath))
        finally:
            self.fs.hook = None
            for stage, path, name in self.fs.fired:
                self.run.count("fault:%s_%s" % (stage, name))
            self.fs.clear_faults()
            self.before = None

    def path(self, doc):
        if doc is self.root:
            return self.rootpath
        return doc.url

    def dom(self, doc):
        m = doc.get_transform(True)
        self.w.check_threads()
        return m

    def _lookup(self, walk, index, wait):
        scope, doc = self.scope, self.root
        dom = self.dom(doc)
        items = self.items
        levels = []                 # (path, items, position of the include)
        for n in walk:
            places = incs(items)
            if not places:
                break
            n %= len(places)
            nodes = [x for x in dom // lily.Include if isinstance(x.filename, str)]
            if len(nodes) != len(places):
                self.fail("includes", "%d \\include nodes, %d in %r" % (len(nodes), len(places), doc.text()))
            node = nodes[n]
            pos = places[n]
            name = at(items, pos)[1]
            chain = [x[0] for x in levels] + [self.path(doc)]
            new = scope.include_scope(node.filename, node)
            expected = Chooser().outcomes(lambda c: self.ref.resolve(name, chain, self.versions, c))
            found = None
            if new:
                d = new.document()
                found = d.url
            self.run.state("include", len(levels), found, bool(self.fs.fired))
            for e in expected:
                if e is None and new is None:
                    break
                if e and new and found == e[0] and d.text() == render(e[1]):
                    break
            else:
                self.fail("include-resolved", "\\include %r in %r found %r%s, expected %s" % (
                    name, chain, found, " with text %r" % d.text() if new else "",
                    " or ".join("%r%s" % (e[0], " with text %r" % render(e[1]) if e[0] == found else "") if e else "nothing"
                        for e in expected)))
            if not new:
                self.run.count("include_not_found")
                return
            self.run.nontrivial = True
            if not lilypond_file(e[0], None):
                return
            levels.append((chain[-1], items, pos))
            scope, doc, items = new, d, e[1]
            dom = self.dom(doc)
        places = refs(items)
        if not places:
            return
        i = index % len(places)
        nodes = [x for x in dom // lily.IdentifierRef if x.get_name() in VARS]
        if len(nodes) != len(places):
            self.fail("references", "%d reference nodes, %d in %r" % (len(nodes), len(places), doc.text()))
        node, pos = nodes[i], places[i]
        levels.append((self.path(doc), items, pos))
        if wait:
            self.judge(node, scope, levels, True)
            if self.before is None and not self.fs.fired and not self.fs.faults:
                # now everything has been read
                self.fs.hook = None
                self.judge(node, scope, levels, True, False)
        else:
            self.judge(node, scope, levels, False)

    def judge(self, node, scope, levels, wait, really=None):
        item = at(levels[-1][1], levels[-1][2])
        name = item[1] if item[0] == "ref" else item[2]
        result = node.get_value_with_scope(scope, wait if really is None else really)
        self.w.check_threads()
        expected = Chooser().outcomes(lambda c: self.ref.lookup(name, levels, self.versions, wait, c))
        got = None
        if result:
            v, s = result
            chain = [s] + list(s.ancestors())
            got = written(v), tuple(self.path(x.document()) for x in reversed(chain))
        self.run.state("lookup", wait, got, bool(self.fs.fired), self.before is not None)
        if got not in expected:
            self.fail("lookup", "\\%s in %r%s: found %r, expected %s" % (
                name, [x[0] for x in levels], "" if wait else " (not waiting)", got, " or ".join(map(repr, expected))))
        self.run.nontrivial = True
        if got:
            self.run.count("lookup_found")
        else:
            self.run.count("lookup_nothing")
        # without a scope: this document only
        if wait and really is None:
            r = node.get_value_with_scope(None)
            if r:
                r = written(r[0])
            path, items, pos = levels[-1]
            e = Reference.lookup(NoIncludes(), name, [levels[-1]], None, True, None)
            if r != (e and e[0]):
                self.fail("lookup-without-scope", "\\%s in %r: found %r, expected %r" % (name, path, r, e))


class NoIncludes(Reference):
    def __init__(self):
        pass

    def resolve(self, *args):
        return None


CHECK = C11()
