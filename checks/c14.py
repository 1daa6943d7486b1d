"""C14: tree walks, ranges and queries give exactly the nodes they describe.

The tree is kept a second time in plain lists. A range is, by its definition,
the nodes in document order from the start node up to and including the end
node; everything is derived from that.
"""
from sim import env  # noqa: F401
from sim import core

from quickly.node import Node, Range


class A(Node):
    def __init__(self, value=0, *children):
        super().__init__(*children)
        self.value = value

    def __repr__(self):
        return "<%s %s (%d)>" % (type(self).__name__, self.value, len(self))

    def body_equals(self, other):
        return self.value % 3 == other.value % 3

    def copy(self, with_children=True):
        return type(self)(self.value, *((n.copy() for n in self) if with_children else ()))


class B(A):
    pass


class C(B):
    pass


class D(A):
    pass


CLASSES = A, B, C, D


class Boom(Exception):
    pass


class Item:
    """A node in the model; dead ones keep their place."""
    __slots__ = ("node", "kids", "dead", "inside", "up")

    def __init__(self, node, up=None):
        self.node = node
        self.up = up
        self.dead = False
        self.inside = True      # False, or None when that is not defined exactly
        self.kids = [Item(n, self) for n in node]

    def alive(self):
        return [k for k in self.kids if not k.dead]

    def preorder(self):
        """All living descendants."""
        for k in self.kids:
            if not k.dead:
                yield k
                yield from k.preorder()

    def trail(self, top):
        out = []
        i = self
        while i is not top:
            out.append(i.up.alive().index(i))
            i = i.up
        return out[::-1]


def within(i, top):
    while i is not None:
        if i is top:
            return True
        i = i.up
    return False


class C14(core.Check):
    id = "C14"
    rule = "a range with both boundaries within a tree of at least eight nodes was walked, with nodes removed or inserted meanwhile"
    assumptions = [
        "As documented, the descendants of the start node are in a range and those of the end node are not, and nodes inserted "
        "outside of the boundaries stay outside. Whether nodes inserted exactly at a boundary or put in the place of the "
        "current node, and their children, are visited is not judged.",
        "Nodes are added to and removed from a tree that is walked only through the range, in the parent of the current node.",
    ]
    real = ["quickly.node.Node and Range"]
    stubs = ["predicates and loop bodies (raise at a chosen node)"]
    states_measure = "distinct (tree shape, range, operation)"
    quick_runs = 60000
    thorough_runs = 300000

    def sample(self, case):
        return repr(case)[:1500]

    def simplify(self, case):
        def smaller(s):
            for i in range(len(s)):
                yield s[:i] + s[i + 1:]
                for t in smaller(s[i]):
                    yield s[:i] + [t] + s[i + 1:]
        for t in smaller(case["tree"]):
            yield dict(case, tree=t)
        for i, op in enumerate(case["ops"]):
            if op[0] == "modify":
                for k in range(len(op[4])):
                    op2 = op[:4] + [op[4][:k] + op[4][k + 1:]] + op[5:]
                    yield dict(case, ops=case["ops"][:i] + [op2] + case["ops"][i + 1:])

    def generate(self, rng):
        def spec(depth):
            return [spec(depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))] if depth else []
        depth = rng.choice([2, 3, 4])
        tree = [spec(depth - 1) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        R = lambda: rng.randrange(10000)
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            k = rng.random()
            if k < .15:
                ops.append(["range", rng.randrange(6), R(), R()])
            elif k < .3:
                ops.append(["node", R(), R(), R(), [rng.random() < .2 for _ in range(6)]])
            elif k < .4:
                ops.append(["query", R(), R(), R(), R()])
            elif k < .7:
                ops.append(["walk", rng.randrange(17), R(), R(), [rng.random() < .2 for _ in range(6)],
                            rng.choice([None, None, None, rng.randrange(6)])])
            elif k < .75:
                ops.append(["member", R()])
            else:
                ops.append(["modify", rng.randrange(5), R(), R(),
                            [[rng.randrange(8), rng.randrange(9), R(), R()] for _ in range(rng.choice([1, 1, 2, 3]))], R()])
        return {"tree": tree, "kinds": [rng.randrange(4) for _ in range(8)], "ops": [["range", rng.randrange(6), R(), R()]] + ops}

    def execute(self, case, run):
        Session(case, run).go()


class Session:
    def __init__(self, case, run):
        self.case, self.run = case, run
        self.count = 0
        self.r = None

    def new(self, spec):
        kids = [self.new(s) for s in spec]
        self.count += 1
        return CLASSES[self.case["kinds"][self.count % 8]](self.count, *kids)

    def fail(self, kind, text):
        raise core.Violation(kind, "%s; tree %s, range %s" % (text, self.show(self.root), self.shown), self.step)

    def show(self, i):
        s = "%s%d" % (type(i.node).__name__, i.node.value)
        return s + ("(%s)" % " ".join(map(self.show, i.alive())) if i.alive() else "")

    def rebuild(self):
        """Make the model anew (after modifications, when every node is alive)."""
        self.root = Item(self.node)

    def go(self):
        self.step, self.shown = -1, None
        self.node = self.new(self.case["tree"])
        self.rebuild()
        for self.step, op in enumerate(self.case["ops"]):
            self.run.log(self.step, op[0])
            if op[0] != "range" and self.r is None and op[0] != "node":
                continue
            getattr(self, "op_" + op[0])(*op[1:])
            self.run.state(op[0], self.shown, self.shape(self.node))

    def shape(self, n):
        return [self.shape(c) for c in n]

    # -- the model -----------------------------------------------------------------

    def all(self):
        return [self.root, *self.root.preorder()]

    def define(self, top, start, end):
        """Set ``inside`` for all descendants of item top."""
        self.top, self.start, self.end = top, start, end
        order = list(top.preorder())
        self.order = order
        a = 0 if start is None else -1 if start is top else order.index(start)
        b = len(order) - 1 if end is None else -1 if end is top else order.index(end)
        for k, i in enumerate(order):
            i.inside = a <= k <= b
        self.empty = not any(i.inside for i in order)

    def hits(self, i):
        """Whether the node or any descendant is in the range."""
        return i.inside or any(j.inside for j in i.preorder())

    def walk(self, i, reverse=False, visible=None, skip=()):
        """The descendants of item i that intersect the range, parents first."""
        kids = i.alive()
        for k in reversed(kids) if reverse else kids:
            if visible(k) if visible else self.hits(k):
                yield k
                if not skip or not skip[k.node.value % len(skip)]:
                    yield from self.walk(k, reverse, visible, skip)

    def op_range(self, kind, a, b):
        items = self.all()
        n, m = items[a % len(items)], items[b % len(items)]
        if kind != 5 and items.index(n) > items.index(m) and b % 4:
            n, m = m, n
        top = self.root
        if kind == 0:
            r = Range.from_nodes(n.node, m.node, b % 2)
            if not b % 2:
                top = n
                while not within(m, top):
                    top = top.up
            start, end = n, m
        elif kind == 1:
            r = Range.from_nodes(n.node)
            start, end = n, None
        elif kind == 2:
            r = Range.from_nodes(None, m.node)
            start, end = None, m
        elif kind == 3:
            top = n
            r = Range(n.node)
            start = end = None
        elif kind == 4:
            r = n.node.range(m.node, True)
            start, end = n, m
        else:
            # the bounds as trails
            r = Range(top.node, n.trail(top) or None, m.trail(top))
            start, end = n, m
        if start is top:
            start = None
        self.r = r
        self.define(top, start, end)
        self.shown = "in %s from %s to %s" % (top.node, start and start.node, end and end.node)
        if r.ancestor() is not top.node:
            self.fail("wrong-range", "the ancestor is %r" % r.ancestor())
        if end is not None and r.end_node() is not end.node:
            self.fail("wrong-range", "the end node is %r" % r.end_node())
        if start is not None and r.start_node() is not start.node:
            self.fail("wrong-range", "the start node is %r" % r.start_node())
        if bool(r) == self.empty:
            self.fail("wrong-range", "bool() gives %s" % bool(r))
        self.compare("nodes()", r.nodes(), [i for i in self.order if i.inside])
        self.op_member(0)

    def compare(self, what, nodes, items, skip=()):
        got = []
        try:
            n = next(nodes)
            while True:
                got.append(n)
                if len(got) > 3 * len(items) + 20:
                    break
                n = nodes.send(False if skip and skip[n.value % len(skip)] else None) if hasattr(nodes, "send") else next(nodes)
        except StopIteration:
            pass
        if len(got) != len(items) or any(n is not i.node for n, i in zip(got, items)):
            self.fail("wrong-nodes", "%s gives %r, expected %r" % (what, got[:30], [i.node for i in items][:30]))
        self.run.count("walks")
        self.run.count("nodes_visited", len(got))

    def op_member(self, a):
        """Membership and intersection."""
        r = self.r
        tail = set()        # nodes that are in doubt: ancestors-or-self of an end node with children
        if self.end is not None and self.end is not self.top and self.end.alive():
            i = self.end
            while i is not self.top:
                tail.add(i)
                i = i.up
        for i in self.order:
            full = i.inside and all(j.inside for j in i.preorder())
            if i not in tail and (i.node in r) != full:
                self.fail("wrong-membership", "%s in range gives %s" % (i.node, i.node in r))
            if i is self.end and i.inside and i.node not in r:
                self.fail("wrong-membership", "the end node is not in the range")
            hits = self.hits(i)
            if (hits or not self.empty) and bool(r & i.node) != hits:
                self.fail("wrong-membership", "range & %s gives %s" % (i.node, r & i.node))
        for i in self.all():
            if not within(i, self.top) and (i.node in r or r & i.node):
                self.fail("wrong-membership", "%s is not below the ancestor" % i.node)
        n = A(0)
        if n in r or r & n or r.goto(n):
            self.fail("wrong-membership", "a strange node")
        if self.order:
            if all(i.inside for i in self.order) and not (self.end and self.end.alive()) and not r.is_full():
                self.fail("wrong-membership", "is_full gives False")
            if not all(self.hits(i) for i in self.order) and r.is_full():
                self.fail("wrong-membership", "is_full gives True")
        self.run.count("memberships", len(self.order))

    def op_node(self, a, b, kind, skip):
        """Walks from a node."""
        items = self.all()
        i = items[a % len(items)]
        n = i.node
        order = [*i.preorder()]
        upto = None
        up = []
        j = i.up
        while j is not None:
            up.append(j)
            j = j.up
        if up and b % 3 == 0:
            upto = up[b % len(up)]
            up = up[:up.index(upto) + 1]
        everything = lambda k: True
        fwd, bwd = [], []
        j = i
        for p in up:
            kids = p.alive()
            x = kids.index(j)
            for later in kids[x + 1:]:
                fwd.append(later)
                if not skip[later.node.value % len(skip)]:
                    fwd.extend(self.walk(later, False, everything, skip))
            for earlier in reversed(kids[:x]):
                bwd.append(earlier)
                if not skip[earlier.node.value % len(skip)]:
                    bwd.extend(self.walk(earlier, True, everything, skip))
            j = p
        u = upto and upto.node
        kind %= 5
        if kind == 0:
            self.compare("%r.descendants()" % n, n.descendants(), list(self.walk(i, False, everything, skip)), skip)
        elif kind == 1:
            self.compare("%r.descendants(reverse)" % n, n.descendants(True), list(self.walk(i, True, everything, skip)), skip)
        elif kind == 2:
            self.compare("%r.forward(%r)" % (n, u), n.forward(u), fwd, skip)
        elif kind == 3:
            self.compare("%r.backward(%r)" % (n, u), n.backward(u), bwd, skip)
        else:
            what = CLASSES[b % 4] if b % 3 == 0 else CLASSES[b % 4](b) if b % 3 == 1 else (C, D)
            ok = lambda k: isinstance(k.node, what) if not isinstance(what, Node) \
                else type(k.node) is type(what) and k.node.value % 3 == what.value % 3
            fwd = []
            bwd = []
            ups = []
            j = i
            while j.up is not None:
                kids = j.up.alive()
                x = kids.index(j)
                for later in kids[x + 1:]:
                    fwd += [later, *later.preorder()]
                for earlier in reversed(kids[:x]):
                    bwd += [earlier, *self.walk(earlier, True, everything)]
                j = j.up
                ups.append(j)
            for name, got, exp in (
                    ("/", n / what, i.alive()), ("//", n // what, order), ("<<", n << what, ups),
                    (">", n > what, fwd), ("<", n < what, bwd)):
                if name in "<>" and isinstance(what, type(n)) and type(what) is not type(n):
                    continue    # Python itself calls the swapped operator of the subclass
                self.compare("%r %s %r" % (n, name, what), got, [k for k in exp if ok(k)])
            self.compare("%r ^ %r" % (n, what), n ^ what, [k for k in i.alive() if not ok(k)])
            if not isinstance(what, Node):
                self.compare("%r.instances_of(%r)" % (n, what), n.instances_of(what), self.topmost(order, ok))

    def topmost(self, order, ok):
        """Of the items in order, those that are ok and not below one that is ok."""
        out = []
        for k in order:
            if ok(k) and not any(within(k, x) for x in out):
                out.append(k)
        return out

    def goto(self, a):
        """Go to a node that intersects the range (or to none)."""
        items = [self.top] + [i for i in self.order if self.hits(i)]
        i = items[a % len(items)]
        if not self.r.goto(i.node):
            self.fail("wrong-goto", "goto(%s) gives False" % i.node)
        if self.r.node is not i.node or self.r.trail() != i.trail(self.top) or self.r.depth() != max(0, len(i.trail(self.top)) - 1):
            self.fail("wrong-goto", "after goto(%s) the node is %s, trail %r" % (i.node, self.r.node, self.r.trail()))
        if i is not self.top and self.r.index != i.up.alive().index(i):
            self.fail("wrong-goto", "after goto(%s) the index is %s" % (i.node, self.r.index))
        return i

    def after(self, i, reverse=False, upto=None, skip=()):
        """The nodes in the range following (or preceding) item i and its descendants."""
        out = []
        while i is not self.top and i is not upto:
            kids = i.up.alive()
            x = kids.index(i)
            for k in reversed(kids[:x]) if reverse else kids[x + 1:]:
                if self.hits(k):
                    out.append(k)
                    if not skip or not skip[k.node.value % len(skip)]:
                        out.extend(self.walk(k, reverse, None, skip))
            i = i.up
        return out

    def op_query(self, a, b, kind, d):
        """Search operators on the range."""
        if self.empty:
            return
        what = CLASSES[b % 4] if b % 3 == 0 else CLASSES[b % 4](b) if b % 3 == 1 else (C, D)
        ok = lambda k: isinstance(k.node, what) if not isinstance(what, Node) \
            else type(k.node) is type(what) and k.node.value % 3 == what.value % 3
        i = self.goto(a)
        r = self.r
        kids = [k for k in i.alive() if self.hits(k)]
        kind %= 7
        if kind == 0:
            got, exp = r / what, [k for k in kids if ok(k)]
        elif kind == 1:
            got, exp = r ^ what, [k for k in kids if not ok(k)]
        elif kind == 2:
            got, exp = r // what, [k for k in self.walk(i) if ok(k)]
        elif kind == 3:
            exp = []
            j = i
            while j is not self.top:
                j = j.up
                if ok(j):
                    exp.append(j)
            got = r << what
        elif kind == 4:
            got, exp = r > what, [k for k in (self.after(i) if i is not self.top else self.walk(i)) if ok(k)]
        elif kind == 5:
            if i is self.top:
                return
            got, exp = r < what, [k for k in self.after(i, True) if ok(k)]
        else:
            if isinstance(what, Node):
                return
            got, exp = r.instances_of(what), self.topmost(list(self.walk(i)), ok)
        self.compare("query %d for %r from %s" % (kind, what, i.node), got, exp)

    def op_walk(self, kind, a, b, skip, stop):
        """A walk over the range, possibly interrupted; then another one."""
        if self.empty:
            return
        r = self.r
        if stop is not None:
            # somebody else used the same range, and was interrupted
            self.run.count("fault:walk_interrupted")
            self.goto(b)
            seen = []

            def body(n):
                seen.append(n)
                if len(seen) > stop:
                    raise Boom()
                return False
            try:
                for n in (r.filter(body) if b % 3 == 0 else r.nodes() if b % 3 == 1 else r.children()):
                    body(n)
            except Boom:
                pass
        if kind == 0:
            self.compare("nodes()", r.nodes(), self.pruned(skip), skip)
            return
        i = self.goto(a)
        if kind in (1, 2):
            rev = kind == 2
            self.compare("descendants(%s) from %s" % (rev, i.node), r.descendants(rev), list(self.walk(i, rev, None, skip)), skip)
            self.back(i, "descendants")
        elif kind in (3, 4):
            rev = kind == 4
            kids = [k for k in i.alive() if self.hits(k)]
            self.compare("children(%s) of %s" % (rev, i.node), r.children(rev), kids[::-1] if rev else kids)
            self.back(i, "children")
        elif kind in (5, 6) and i is not self.top:
            upto = None
            if b % 2:
                upto = i.up
                while upto is not self.top and b % 3:
                    upto = upto.up
                    b //= 2
            f = r.forward if kind == 5 else r.backward
            self.compare("%s(%s) from %s" % (f.__name__, upto and upto.node, i.node), f(upto and upto.node),
                         self.after(i, kind == 6, upto, skip), skip)
        elif kind == 7:
            up = []
            j = i
            while j is not self.top:
                j = j.up
                up.append(j)
            self.compare("ancestors() from %s" % i.node, r.ancestors(), up)
        elif kind in (8, 9):
            # by hand
            d = r.depth()
            e = r.enter()
            if e != (d if i is self.top else d + 1):
                self.fail("wrong-depth", "enter() from %s gives %d" % (i.node, e))
            kids = [k for k in i.alive() if self.hits(k)]
            self.compare("iterating %s" % i.node, iter(r) if kind == 8 else r.reversed(), kids if kind == 8 else kids[::-1])
            if kids and (r.start() > i.alive().index(kids[0]) or r.end() != i.alive().index(kids[-1])):
                self.fail("wrong-bounds", "start() and end() in %s give %s, %s" % (i.node, r.start(), r.end()))
            x = r.leave()
            if x != e:
                self.fail("wrong-depth", "leave() gives %d, enter() gave %d" % (x, e))
            self.back(i, "leave")
        elif kind == 10:
            t = r.extract_tree()
            self.extracted(t, i)
        elif kind == 11:
            f = r.from_here()
            if f.ancestor() is not i.node:
                self.fail("wrong-range", "from_here() at %s: ancestor %s" % (i.node, f.ancestor()))
            self.compare("from_here() at %s" % i.node, f.descendants(), list(self.walk(i)))
            self.back(i, "from_here")
        elif kind == 12:
            c = r.copy()
            self.compare("a copy's nodes()", c.nodes(), [k for k in self.order if k.inside])
            self.back(i, "copying")
        elif kind == 13 and i is not self.top:
            sure = i.inside and all(k.inside for k in i.preorder())
            if self.end is None or not self.end.alive() or not within(self.end, i):
                if sure and not r.in_range():
                    self.fail("wrong-membership", "in_range() at %s gives False" % i.node)
            if not all(self.hits(k) for k in i.preorder()) and r.in_range():
                self.fail("wrong-membership", "in_range() at %s gives True" % i.node)

        elif kind == 14:
            self.indices(i, b)
        elif kind == 15:
            # the same walk by hand
            path, got, depth = [i], [], r.depth()
            want = list(self.walk(i))
            r.enter()
            while len(got) < 3 * len(want) + 20:
                n = next(r, None)
                if n is None:
                    r.leave()
                    path.pop()
                    if not path:
                        break
                    continue
                got.append(n)
                if n is not r.node:
                    self.fail("wrong-node", "next() gives %r, the node is %r" % (n, r.node))
                if len(n):
                    r.enter()
                    path.append(n)
            if len(got) != len(want) or any(n is not j.node for n, j in zip(got, want)):
                self.fail("wrong-nodes", "next(), enter() and leave() from %s give %r, expected %r" % (i.node, got[:30], [j.node for j in want][:30]))
            self.back(i, "walking by hand")
            if r.depth() != depth:
                self.fail("wrong-depth", "depth() is %d, was %d" % (r.depth(), depth))
        elif kind == 16 and i is self.top:
            try:
                r.node = A(0)
            except ValueError:
                pass
            else:
                self.fail("wrong-tree", "the ancestor was replaced")
            self.back(i, "trying to replace it")

    def indices(self, i, b):
        """Nodes by their index, at the node i."""
        r = self.r
        if i is self.top:
            if r.index != -1:
                self.fail("wrong-index", "index at the ancestor is %s" % r.index)
            return
        kids = i.up.alive()
        if r.index != kids.index(i):
            self.fail("wrong-index", "index at %s is %s" % (i.node, r.index))
        x, y = b % len(kids), b // 7 % (len(kids) + 1)
        if r[x] is not kids[x].node or r[x - len(kids)] is not kids[x].node or any(n is not k.node for n, k in zip(r[x:y], kids[x:y])):
            self.fail("wrong-index", "getting %d or %d:%d at %s" % (x, x, y, i.node))
        hits = [x for x, k in enumerate(kids) if self.hits(k)]
        if b % 3 == 0:
            # a step is refused
            try:
                r[::2] = ()
            except ValueError:
                pass
            else:
                self.fail("wrong-tree", "a slice with a step was set")
            self.back(i, "trying a step")
        if hits[0] <= x <= hits[-1]:
            r.index = x
            self.back(kids[x], "index = %d" % x)
            self.compare("descendants() from %s" % kids[x].node, r.descendants(), list(self.walk(kids[x])))
            self.back(kids[x], "descendants after index")
            r.enter()
            if kids[x].alive() and r.index != x:
                self.fail("wrong-index", "index after entering %s is %s" % (kids[x].node, r.index))
            r.leave()
        for bad in (hits[0] - 1, hits[-1] + 1):
            here = r.node
            try:
                r.index = bad
            except ValueError:
                pass
            else:
                self.fail("wrong-index", "index %d can be set, range is %d-%d" % (bad, hits[0], hits[-1]))
            if r.node is not here:
                self.fail("wrong-node", "after a refused index the node is %r" % r.node)

    def pruned(self, skip):
        out = []
        skipped = []
        for i in self.order:
            if i.inside and not any(within(i, s) for s in skipped):
                out.append(i)
                if skip[i.node.value % len(skip)]:
                    skipped.append(i)
        return out

    def back(self, i, what):
        if self.r.node is not i.node:
            self.fail("wrong-node", "after %s from %s the node is %s" % (what, i.node, self.r.node))

    def extracted(self, t, i):
        kids = [k for k in i.alive() if self.hits(k)]
        if t is i.node or type(t) is not type(i.node) or t.value != i.node.value or len(t) != len(kids):
            self.fail("wrong-tree", "extract_tree gives %r for %r, %d children expected" % (t, i.node, len(kids)))
        for c, k in zip(t, kids):
            if c.parent is not t:
                self.fail("wrong-tree", "parent of %r" % c)
            self.extracted(c, k)

    # -- modifying while walking ---------------------------------------------------------

    def op_modify(self, kind, a, b, mods, c):
        if self.empty:
            return
        r = self.r
        todo = {}
        for when, *m in mods:
            todo.setdefault(when, []).append(m)
        if kind == 0:
            i = None
            walk = r.nodes()
        else:
            i = self.goto(a)
            walk = (r.descendants() if kind == 1 else r.descendants(True) if kind == 2
                    else r.children() if kind == 3 else r.children(True))
        self.what = "%s from %s" % (("nodes", "descendants", "reverse descendants", "children", "reverse children")[kind], i and i.node)
        self.items = {id(k.node): k for k in self.all()}
        self.keep = []
        reverse = kind in (2, 4)
        # what must be visited is decided now; new nodes are added to it
        for k in self.order:
            k.inside = self.hits(k) if kind else k.inside
        seen, trace = [], []
        step = 0
        self.last = None
        expected = self.expect(i, kind, reverse)
        want = next(expected, None)
        changed = False
        for n in walk:
            if step > 20 + 3 * len(self.items):
                self.fail("endless-walk", self.what)
            k = self.items.get(id(n))
            if k is None:
                self.fail("strange-node", "%s visits %r" % (self.what, n))
            if k.inside is None or self.doubtful(k):
                # neither required nor forbidden; go on with the next, but do not touch anything
                if k.dead:
                    self.fail("walk-dead-node", "%s visits the removed node %r; %s" % (self.what, n, trace))
                continue
            if want is None or want.node is not n:
                self.fail("wrong-walk", "%s: visits %r, expected %r; visited %r; %s" % (
                    self.what, n, want and want.node, seen[-6:], trace))
            seen.append(n)
            if r.node is not n:
                self.fail("wrong-node", "%s: the node is %r while visiting %r" % (self.what, r.node, n))
            for m in todo.get(step, ()):
                self.last = None
                t = self.modify(k, *m)
                if t:
                    trace.append("at %s: %s" % (n, t))
                    changed = True
            step += 1
            want = next(expected, None)
        while want is not None:
            self.fail("wrong-walk", "%s: ended before %r; visited %r; %s" % (self.what, want.node, seen[-6:], trace))
        self.same_tree(self.root, trace)
        # the range has to know its new boundaries
        doubt = [k for k in self.items.values() if not k.dead and k.inside is None]
        if self.last and len(trace) == 1:
            # what came in the place of the node where the range starts is in the range
            self.run.count("replaced_in_range")
            for q in self.last.preorder():
                if q.node not in r:
                    self.fail("replaced-not-in-range", "%s: %r is not in %r; %s" % (self.what, q.node, r, trace))
        if changed:
            self.run.count("modified_walks")
            if len(self.all()) >= 8 and self.start and self.end:
                self.run.nontrivial = True
            if kind == 0 and not doubt:
                self.compare("nodes() after %s; %s" % (self.what, trace), r.nodes(),
                             [k for k in self.top.preorder() if k.inside])
            self.rebuild()
            self.r = None
            self.op_range(c % 6, c // 6, c // 7)
        else:
            self.define(self.top, self.start, self.end)

    def doubtful(self, k):
        k = k.up
        while k is not None and k is not self.top:
            if k.inside is None:
                return True
            k = k.up
        return False

    def expect(self, i, kind, reverse):
        """Lazily yield what has to be visited; the lists may change meanwhile."""
        if kind == 0:
            yield from self.forward_from(self.top)
        elif kind in (1, 2):
            yield from self.level(i, reverse, True)
        else:
            yield from self.level(i, reverse, False)

    def forward_from(self, p):
        """The inside nodes in document order (containers of the start node are not inside, but their children may be)."""
        x = -1
        cur = None
        while True:
            x = (p.kids.index(cur) if cur is not None else -1) + 1
            while x < len(p.kids) and p.kids[x].dead:
                x += 1
            if x >= len(p.kids):
                return
            cur = p.kids[x]
            if cur.inside:
                yield cur
                if cur.dead:
                    continue
            if cur.inside is None:
                continue
            yield from self.forward_from(cur)

    def level(self, p, reverse, deep):
        cur = None
        while True:
            if cur is None:
                x = len(p.kids) - 1 if reverse else 0
            else:
                x = p.kids.index(cur) + (-1 if reverse else 1)
            while 0 <= x < len(p.kids) and (p.kids[x].dead or not p.kids[x].inside):
                x += -1 if reverse else 1
            if not 0 <= x < len(p.kids):
                return
            cur = p.kids[x]
            yield cur
            if deep and not cur.dead:
                yield from self.level(cur, reverse, deep)

    def modify(self, k, what, a, b):
        """Modify the level of item k, the current node, via the range."""
        r, p = self.r, k.up
        alive = p.alive()
        n = len(alive)
        if k.dead:
            return      # was removed just before
        here = alive.index(k)
        sure = [x for x, j in enumerate(alive) if j.inside is not None and self.hits(j)]
        maybe = sure + [x for x, j in enumerate(alive) if j.inside is None]
        if what == 0:           # remove the current one
            del r[here if a % 2 else here - n]
            k.dead = True
            return "removed"
        if what == 1:           # remove any one
            x = a % n
            if b % 2:
                del r[x:x + 1]
            else:
                del r[x]
            alive[x].dead = True
            return "removed %s" % alive[x].node
        if what == 2:           # remove some
            x, y = sorted((a % (n + 1), b % (n + 1)))
            if y - x > 2 and n < 5:
                y = x + 1
            r[x:y] = ()
            for j in alive[x:y]:
                j.dead = True
            return "removed %s" % [j.node for j in alive[x:y]]
        new = self.new([[]] * (b % 3))
        if what in (3, 4, 5):       # insert one or two
            x = here if what == 3 else here + 1 if what == 4 else a % (n + 1)
            nodes = [new] if b % 2 else [new, self.new([])]
            r[x:x] = nodes
            at = p.kids.index(alive[x]) if x < n else len(p.kids)
            inside = (None if min(maybe) <= x <= min(sure, default=n) or max(sure, default=-1) < x <= max(maybe) + 1
                      else min(sure) < x <= max(sure))
            for j, node in enumerate(nodes):
                item = self.item(node, p)
                item.inside = inside
                for q in item.preorder():
                    q.inside = item.inside
                p.kids.insert(at + j, item)
            return "inserted %s at %d" % (nodes, x)
        if what == 6:           # replace the current one
            if a % 4 == 1:
                r.node = new
            elif a % 4 == 3:
                r.enter()       # it is still the current node
                r.node = new
            else:
                r[here if a % 4 else here - n] = new
            self.replaced(p, k, new)
            return "replaced by %s" % new
        x = a % n               # replace any one
        if alive[x] is k and b % 2:
            return
        r[x] = new
        self.replaced(p, alive[x], new)
        return "replaced %s by %s" % (alive[x].node, new)

    def item(self, node, p):
        item = Item(node, p)
        stack = [item]
        while stack:
            j = stack.pop()
            self.items[id(j.node)] = j
            self.keep.append(j.node)
            stack.extend(j.kids)
        return item

    def replaced(self, p, old, new):
        item = self.item(new, p)
        item.inside = None if self.hits(old) or old.inside is None or self.start and within(self.start, old) else False
        for q in item.preorder():
            q.inside = item.inside
        p.kids.insert(p.kids.index(old) + 1, item)
        if self.hits(old) and not (self.end and within(self.end, old)):
            self.last = item
        old.dead = True

    def same_tree(self, i, trace):
        kids = i.alive()
        if len(kids) != len(i.node) or any(k.node is not n for k, n in zip(kids, i.node)):
            self.fail("wrong-tree", "%s: %r has children %r; %s" % (self.what, i.node, list(i.node), trace))
        for k in kids:
            if k.node.parent is not i.node:
                self.fail("wrong-tree", "%s: parent of %r is %r" % (self.what, k.node, k.node.parent))
            self.same_tree(k, trace)


CHECK = C14()
