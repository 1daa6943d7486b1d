"""C21: every construct is read as the right kind of node, whatever surrounds it."""
from sim import env  # noqa: F401
from sim import core, docsim, session, texts
from sim.ref import vocab

import copy

SEPS = [" ", "\n", "  ", "\n\n", " \n  "]
ROOT = {"lilypond": "top", "scheme": "scheme", "html": "html", "latex": "latex"}
TIGHT = ("html", "latex")       # white space is text
BY_CAT = {}
for _name, _box in sorted(vocab.BOXES.items()):
    BY_CAT.setdefault(_box[0], []).append(_name)
WORDS = vocab.WORDS
NO_TEXT = {"html": ("text", "two words"), "latex": ("Text", "two words")}


def is_text(x):
    return x[0] == "leaf" and x[2] in NO_TEXT.get(x[1], ())


def category(x):
    return x[1] if x[0] == "leaf" else vocab.BOXES[x[1]][0]


def tidy(cat, items):
    """Without pieces of text that would become one."""
    out = []
    for x in items:
        if cat in TIGHT and is_text(x) and out and is_text(out[-1]):
            continue
        out.append(x)
    return out


def render(cat, items):
    out = []
    for x in tidy(cat, items):
        if x[0] == "leaf":
            t = x[2]
        else:
            _, inner, before, after, _ = vocab.BOXES[x[1]]
            t = before + ("" if inner in TIGHT else " ") + render(inner, x[2]) + after
        out.append(t)
        if cat not in TIGHT:
            s = SEPS[x[3] % len(SEPS)]
            if t.lstrip().startswith(("%", ";")) and not t.startswith("%{"):
                s = "\n" + s
            out.append(s)
    return "".join(out)


def expected(cat, items):
    out = []
    for x in tidy(cat, items):
        if x[0] == "leaf":
            out.append(vocab.SNIPPETS[x[1]][x[2]])
        else:
            _, inner, _, _, t = vocab.BOXES[x[1]]
            out.append(vocab.fill(t, expected(inner, x[2])))
    return " ".join(out)


def lists_of(cat, items):
    """All lists of items, with their category."""
    out = [(cat, items)]
    for x in items:
        if x[0] == "box":
            out.extend(lists_of(vocab.BOXES[x[1]][1], x[2]))
    return out


def random_item(r, cat, depth=0):
    sep = r.choice([0, 0, 0, 1, 1, 2, 3, 4])
    boxes = BY_CAT.get(cat)
    if boxes and depth < 4 and r.random() < (.45 if depth < 2 else .25):
        name = r.choice(boxes)
        inner = vocab.BOXES[name][1]
        return ["box", name, [random_item(r, inner, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))], sep]
    return ["leaf", cat, r.choice(WORDS[cat]), sep]


class Reading(session.Session):
    """A session in which the text is always that of a list of items."""

    def __init__(self, world, run, lang, items):
        self.cat = ROOT[lang]
        self.items = items
        self.older = []
        super().__init__(world, run, lang, render(self.cat, items))

    def change(self, items, how):
        self.older.append(self.items)
        self.items = items
        new = render(self.cat, items)
        if how == "edit":
            self.set_text(new)
        elif how == "all":
            self.replace(0, len(self.doc.text()), new)
        elif how == "multi":
            self.transaction(new)
        else:
            self.type_text(new)

    def difference(self, new):
        old = self.doc.text()
        i = 0
        while i < min(len(old), len(new)) and old[i] == new[i]:
            i += 1
        z = 0
        while z < min(len(old), len(new)) - i and old[-1 - z] == new[-1 - z]:
            z += 1
        return i, len(old) - z, new[i:len(new) - z]

    def type_text(self, new):
        i, e, s = self.difference(new)
        if e > i:
            self.replace(i, e, "")
        for k, c in enumerate(s):
            self.replace(i + k, i + k, c)
            self.w.sched.point("typing")
        self.run.count("characters_typed", len(s))

    def transaction(self, new):
        """The new part is written in two pieces in one transaction."""
        i, e, s = self.difference(new)
        mid = (i + e) // 2
        half = len(s) // 2
        if not i < mid < e or not half:
            return self.replace(i, e, s)
        with self.doc:
            self.doc[i:mid] = s[:half]
            self.doc[mid:e] = s[half:]
        self.history.append((self.lang, self.doc.text()))

    # operations; they use numbers to choose a place

    def copy(self):
        return copy.deepcopy(self.items)

    def place(self, items, n):
        l = lists_of(self.cat, items)
        return l[n % len(l)]

    def do_ins(self, n, k, new, how):
        items = self.copy()
        cat, where = self.place(items, n)
        if category(new) != cat:
            l = [(c, w) for c, w in lists_of(self.cat, items) if c == category(new)]
            if not l:
                self.run.count("ops_without_place")
                return
            cat, where = l[n % len(l)]
        where.insert(k % (len(where) + 1), new)
        self.change(items, how)

    def do_del(self, n, k, how):
        items = self.copy()
        cat, where = self.place(items, n)
        if where:
            del where[k % len(where)]
            self.change(items, how)

    def do_rep(self, n, k, name, how):
        """Replace an item with another of the category."""
        items = self.copy()
        cat, where = self.place(items, n)
        if where:
            words = WORDS[cat]
            where[k % len(where)] = ["leaf", cat, words[name % len(words)], where[k % len(where)][3]]
            self.change(items, how)

    def do_wrap(self, n, k, name, how):
        items = self.copy()
        cat, where = self.place(items, n)
        boxes = [b for b in BY_CAT.get(cat, ()) if vocab.BOXES[b][1] == cat]
        if where and boxes:
            k %= len(where)
            where[k:] = [["box", boxes[name % len(boxes)], where[k:], 0]]
            self.change(items, how)

    def do_unwrap(self, n, how):
        items = self.copy()
        for cat, where in lists_of(self.cat, items):
            for i, x in enumerate(where):
                if x[0] == "box" and vocab.BOXES[x[1]][1] == cat:
                    n -= 1
                    if n < 0:
                        where[i:i + 1] = x[2]
                        self.change(items, how)
                        return

    def do_move(self, n, k, n2, k2, how):
        items = self.copy()
        cat, where = self.place(items, n)
        if not where:
            return
        x = where.pop(k % len(where))
        l = [w for c, w in lists_of(self.cat, items) if c == cat]
        w = l[n2 % len(l)]
        w.insert(k2 % (len(w) + 1), x)
        self.change(items, how)

    def do_back(self, n, how):
        if self.older:
            self.change(self.older[-1 - n % len(self.older)], how)

    def do_space(self, n, k, s, how):
        items = self.copy()
        cat, where = self.place(items, n)
        if where:
            where[k % len(where)][3] = s
            self.change(items, how)

    def do_garbage(self, at, s, how, look):
        """Something is typed that does not belong there, and removed again."""
        i = self.where(at)
        if how == "type":
            for k, c in enumerate(s):
                self.replace(i + k, i + k, c)
                self.w.sched.point("typing")
        else:
            self.replace(i, i, s)
        self.run.count("fault:garbage_typed")
        if look:
            m = self.w.model(self.doc)
            if self.tree_ok():
                self.tokens(m, False)
        if how == "type":
            for k in range(len(s)):
                self.replace(i + len(s) - 1 - k, i + len(s) - k, "")
                self.w.sched.point("typing")
        else:
            self.replace(i, i + len(s), "")

    def tree_ok(self):
        return docsim.contexts(self.doc.get_root(True)) == docsim.contexts(docsim.parse(self.lang, self.doc.text()))

    def do_look(self):
        text = self.doc.text()
        m = self.w.model(self.doc)
        if not self.tree_ok():
            self.run.count("upstream_tree_divergence")
            m = docsim.fresh(self.lang, text)
            live = False
        else:
            live = True
        inner = expected(self.cat, self.items)
        expect = "Document(%s)" % inner if inner else "Document"
        if m is None:
            if text:
                self.fail("nothing-read", "there is no model")
            return
        got = vocab.tree(m)
        if got != expect:
            i = 0
            while i < min(len(got), len(expect)) and got[i] == expect[i]:
                i += 1
            self.fail("wrong-tree", "read is %s but it should be %s" % (got[max(0, i - 40):i + 120], expect[max(0, i - 40):i + 120]))
        self.run.state(got)
        self.run.count("trees_compared")
        if live:
            self.tokens(m, True)

    def tokens(self, m, every):
        """Each token belongs to one node, in the order of the text."""
        seen = {}
        todo = [(m, 0)]
        last = -1
        while todo:
            n, which = todo.pop()
            origin = getattr(n, "tail_origin" if which else "head_origin", ())
            for t in origin:
                if id(t) in seen:
                    self.fail("token-used-twice", "%r at %d belongs to %s and %s" % (
                        t.text, t.pos, type(seen[id(t)]).__name__, type(n).__name__))
                seen[id(t)] = n
                if every:
                    if t.pos < last:
                        self.fail("order-differs", "%r at %d of %s comes after position %d in the model" % (
                            t.text, t.pos, type(n).__name__, last))
                    last = t.pos
            if not which:
                todo.append((n, 1))
                todo.extend((c, 0) for c in reversed(list(n)))
        if every:
            for t in self.doc.get_root(True).tokens():
                if id(t) not in seen:
                    self.fail("text-not-in-model", "no node has %r at %d" % (t.text, t.pos))
            self.run.count("tokens_accounted", len(seen))


class C21(core.Check):
    id = "C21"
    rule = "the tree was compared in at least three states, of at least four constructs together"
    assumptions = [
        "The table of constructs holds what parce 0.33's grammar knows; commands it does not know (\\slashedGrace, "
        "\\slurDashPattern, \\partCombine) are read as references to a variable and left out.",
        "States in which parce's incremental token tree differs from a fresh one are judged on a fresh model.",
    ]
    real = ["quickly.lang.* (transforms)", "quickly.dom.* (node classes, argument signatures)",
            "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct trees compared"
    quick_runs = 10000
    thorough_runs = 300000

    def lists(self):
        return ("ops", "schedule", "items")

    def simplify(self, case):
        def smaller(items):
            for i, x in enumerate(items):
                if x[0] == "box":
                    for j in range(len(x[2])):
                        yield items[:i] + [[x[0], x[1], x[2][:j] + x[2][j + 1:], x[3]]] + items[i + 1:]
                    for y in smaller(x[2]):
                        yield items[:i] + [[x[0], x[1], y, x[3]]] + items[i + 1:]
        for y in smaller(case["items"]):
            yield dict(case, items=y)
        for i, op in enumerate(case["ops"]):
            if op[0] == "ins" and op[3][0] == "box":
                for y in smaller([op[3]]):
                    yield dict(case, ops=case["ops"][:i] + [op[:3] + [y[0]] + op[4:]] + case["ops"][i + 1:])

    def sample(self, case):
        return repr({"lang": case["lang"], "text": render(ROOT[case["lang"]], case["items"]), "ops": case["ops"],
                     "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond"] * 6 + ["scheme", "html", "latex"])
        cat = ROOT[lang]
        items = [random_item(rng, cat) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        cats = [cat] + [c for c, _ in lists_of(cat, items)]
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            how = rng.choice(["edit", "edit", "type", "multi", "all"])
            k = rng.random()
            n = rng.randrange(1000)
            if k < .35:
                ops.append(["ins", n, rng.randrange(1000), random_item(rng, rng.choice(cats), 1), how])
            elif k < .45:
                ops.append(["del", n, rng.randrange(1000), how])
            elif k < .55:
                ops.append(["rep", n, rng.randrange(1000), rng.randrange(100000), how])
            elif k < .63:
                ops.append(["wrap", n, rng.randrange(1000), rng.randrange(1000), how])
            elif k < .68:
                ops.append(["unwrap", rng.randrange(6), how])
            elif k < .76:
                ops.append(["move", n, rng.randrange(1000), rng.randrange(1000), rng.randrange(1000), how])
            elif k < .82:
                ops.append(["back", rng.randrange(4), how])
            elif k < .86:
                ops.append(["space", n, rng.randrange(1000), rng.randrange(5), how])
            else:
                ops.append(["garbage", n, texts.snippet(rng, lang)[:20], rng.choice(["type", "edit"]), rng.random() < .6])
            k = rng.random()
            if k < .5:
                ops.append(["look"])
            elif k < .65:
                ops.append(["peek"])
            elif k < .75:
                ops.append(["step", rng.randint(1, 6)])
            elif k < .8:
                ops.append(["hold"])
        return {"lang": lang, "items": items, "ops": ops, "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 60]))]}

    def execute(self, case, run):
        with docsim.World(run, case["schedule"], guard=False) as w:
            s = Reading(w, run, case["lang"], copy.deepcopy(case["items"]))
            s.do_look()
            for i, op in enumerate(case["ops"]):
                s.do(i, op)
            s.step = None
            s.w.settle()
            s.do_look()
            s.check_held()
            run.nontrivial = run.counts.get("trees_compared", 0) >= 3 and \
                sum(len(l) for _, l in lists_of(s.cat, s.items)) >= 4


CHECK = C21()
