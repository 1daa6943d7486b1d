"""C04: positions in the model follow the text; lookups are exact."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, session, texts

import random

from quickly.dom import lily

#: the text of these may be written in another way than it was read
VARIANTS = {"Text", "NaN", "Number", "String", "Hex", "Oct", "Bin", "MultilineComment", "DurationScaling", "Unknown", "Float",
            "SqString", "DqString", "Comment", "CData", "ProcessingInstruction", "Int", "Fraction", "Duration", "OpenTag"}


class Lookup(session.Session):
    """A session that verifies positions and lookups each time the model is settled."""

    def do_look(self, seed):
        m = self.w.model(self.doc)
        if m is None:
            return
        if docsim.contexts(self.doc.get_root(True)) != docsim.contexts(docsim.parse(self.lang, self.doc.text())):
            # parce's incremental token tree is not right (an upstream matter)
            self.run.count("upstream_tree_divergence")
            m = docsim.fresh(self.lang, self.doc.text())
        positions(self, m)
        r = random.Random(seed)
        lookups(self, m, r, "")
        # a tree in which nodes without position were added, and nodes removed
        c = m.copy_with_origin()
        if docsim.dump(c) != docsim.dump(m):
            self.fail("copy-with-origin", docsim.first_diff(docsim.dump(c), docsim.dump(m)))
        for _ in range(r.randint(1, 8)):
            nodes = list(c.descendants())
            if not nodes:
                break
            n = r.choice(nodes)
            k = r.random()
            if k < .35:
                new = r.choice([lily.Note("c"), lily.MusicList(lily.Note("d"), lily.Rest()), lily.Int(5)])
                n.insert(r.randint(0, len(n)), new)
            elif k < .5:
                n.append(lily.Symbol("x"))
            elif k < .8:
                n.parent.remove(n)
            elif k < .9 and len(n):
                # a node without position around some of the children
                i, j = sorted((r.randrange(len(n) + 1), r.randrange(len(n) + 1)))
                items = n[i:j]
                n[i:j] = []
                n.insert(i, lily.MusicList(*items))
            else:
                n.replace_with(lily.Note("g"))
        self.run.count("modified_trees")
        lookups(self, c, r, "after adding and removing nodes, ")


def ref_pos(n):
    """First origin position of the node or its descendants."""
    if getattr(n, "head_origin", ()):
        return n.head_origin[0].pos
    for d in preorder(n):
        if getattr(d, "head_origin", ()):
            return d.head_origin[0].pos
    return None


def ref_end(n):
    if getattr(n, "tail_origin", ()):
        return n.tail_origin[-1].end
    for c in reversed(list(n)):
        e = ref_end(c)
        if e is not None:
            return e
    if getattr(n, "head_origin", ()):
        return n.head_origin[-1].end
    return None


def preorder(n):
    out = []
    stack = [c for c in reversed(list(n))]
    while stack:
        c = stack.pop()
        out.append(c)
        stack.extend(reversed(list(c)))
    return out


def right_to_left(n):
    """Parent first, children from right to left."""
    out = []
    stack = list(n)
    while stack:
        c = stack.pop()
        out.append(c)
        stack.extend(list(c))
    return out


def positions(s, m):
    text = s.doc.text()
    todo = [m]
    count = 0
    while todo:
        n = todo.pop()
        count += 1
        p, e = n.pos, n.end
        name = type(n).__name__
        if (p, e) != (ref_pos(n), ref_end(n)):
            s.fail("wrong-position", "%s reports %s..%s, its origin is at %s..%s" % (name, p, e, ref_pos(n), ref_end(n)))
        if p is not None:
            if not 0 <= p <= e <= len(text):
                s.fail("wrong-position", "%s at %s..%s, text length %d" % (name, p, e, len(text)))
            last = p
            for c in n:
                if c.pos is None:
                    continue
                if c.pos < last or c.end > e:
                    s.fail("wrong-position", "%s at %s..%s in %s at %s..%s, after %s" % (
                        type(c).__name__, c.pos, c.end, name, p, e, last))
                last = c.end
        for which in ("head", "tail"):
            o = getattr(n, which + "_origin", ())
            if not o or name == "Unknown":
                continue
            for t in o:
                if text[t.pos:t.end] != t.text:
                    s.fail("stale-origin", "%s of %s: %r, but the text at %d is %r" % (which, name, t.text, t.pos, text[t.pos:t.end]))
            if getattr(n, which) is not None and name not in VARIANTS:
                a = text[o[0].pos:o[-1].end]
                b = n.write_head() if which == "head" else n.write_tail()
                if which == "tail" and a in ("}", ">>"):
                    continue        # closed by the wrong bracket
                if "".join(a.split()) != "".join(b.split()):
                    s.fail("wrong-text", "%s of %s at %d..%d is %r, but the text there is %r" % (
                        which, name, o[0].pos, o[-1].end, b, a))
        todo.extend(n)
    s.run.count("positions_checked", count)


def lookups(s, m, r, what):
    length = len(s.doc.text())
    every = [(n, ref_pos(n), ref_end(n)) for n in preorder(m)]
    every = [(n, p, e) for n, p, e in every if p is not None]
    if any(p == e for n, p, e in every):
        return
    back = [(n, ref_pos(n), ref_end(n)) for n in right_to_left(m)]
    back = [(n, p, e) for n, p, e in back if p is not None]
    places = {0, length, -1, length + 1}
    for n, p, e in r.sample(every, min(6, len(every))):
        places.update((p - 1, p, p + 1, e - 1, e, e + 1))
    for _ in range(3):
        places.add(r.randint(0, length))

    def eq(got, expect, name, *args):
        if got is not expect:
            s.fail("wrong-lookup", "%s%s%r gives %s, a plain scan gives %s" % (what, name, args, show(got), show(expect)))

    def chain(node, p, e):
        out = []
        while True:
            c = [x for x in node if touches(x, p)]
            if not c or (ref_end(c[-1]) < e):
                return out
            out.append(c[-1])
            node = c[-1]

    for p in sorted(places):
        eq(m.find_descendant_right(p), next((n for n, a, b in every if a >= p), None), "find_descendant_right", p)
        eq(m.find_descendant_left(p), next((n for n, a, b in back if b <= p), None), "find_descendant_left", p)
        e = r.choice([p, p, p + r.randint(0, 10)])
        expect = chain(m, p, e)
        got = list(m.find_descendants(p, e))
        if len(got) != len(expect) or any(x is not y for x, y in zip(got, expect)):
            s.fail("wrong-lookup", "%sfind_descendants%r gives %s, a plain scan gives %s" % (
                what, (p, e), [show(x) for x in got], [show(x) for x in expect]))
        eq(m.find_descendant(p, e), expect[-1] if expect else None, "find_descendant", p, e)
        nodes = [m] + [n for n, a, b in r.sample(every, min(2, len(every)))]
        for x in nodes:
            c = [y for y in x if touches(y, p)]
            eq(x.find_child(p), c[-1] if c else None, "find_child", p)
    s.run.count("lookups", len(places))
    s.run.state(sorted(places), [(a, b) for n, a, b in every])


def touches(n, p):
    a = ref_pos(n)
    return a is not None and a <= p <= ref_end(n)


def show(n):
    return None if n is None else "%s %r at %s..%s" % (type(n).__name__, n.head, n.pos, n.end)


class C04(core.Check):
    id = "C04"
    rule = "positions were verified after at least three edits, on a model of at least five nodes"
    assumptions = [
        "Lookups are not judged in models with nodes of zero length (these only occur in broken HTML and LaTeX).",
        "The kinds of node whose text may be written in several ways (numbers, strings, scaled durations) are only "
        "compared with their origin tokens.",
    ]
    real = ["quickly.dom.element (positions, lookups)", "quickly.lang.*", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (positions of all nodes, places looked up)"
    quick_runs = 6000
    thorough_runs = 300000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        if isinstance(case["doc"], list):
            for d in gen.shrink(case["doc"]):
                yield dict(case, doc=d)

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"],
                     "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond", "lilypond", "lilypond", "html", "latex", "scheme"])
        doc = texts.wellformed(rng, lang) if rng.random() < .8 else [texts.broken(rng, lang, rng.randint(1, 5))]
        ops = []
        for op in session.random_ops(rng, lang, rng.choice([2, 6, 12]), typing=.05, broken=False):
            ops.append(op)
            if rng.random() < .4:
                ops.append(["look", rng.randrange(10**6)])
        ops.append(["look", rng.randrange(10**6)])
        return {"lang": lang, "doc": doc, "ops": ops, "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 60]))]}

    def execute(self, case, run):
        text = gen.render(case["doc"])
        with docsim.World(run, case["schedule"], guard=False) as w:
            s = Lookup(w, run, case["lang"], text)
            for i, op in enumerate(case["ops"]):
                s.do(i, op)
            s.step = None
            s.w.settle()
            m = s.w.model(s.doc)
            run.nontrivial = len(s.history) > 3 and m is not None and sum(1 for _ in m.descendants()) >= 5


CHECK = C04()
