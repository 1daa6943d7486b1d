"""C03: the node tree stays consistent under any history of tree operations.

Real nodes are operated on side by side with a model of plain dictionaries:
kids (id -> list of ids), up (id -> id or None for "anything") and labels.
"""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms, texts

import fractions
import io

from quickly import node as qnode
from quickly.dom import base, element, htm, lily, markup, scm, tex

PYTHON = dict(base=base, htm=htm, lily=lily, markup=markup, scm=scm, tex=tex, Fraction=fractions.Fraction)


class Plain(qnode.Node):
    """The smallest Node subclass with a value."""
    def __init__(self, value=0, *children):
        super().__init__(*children)
        self.value = value

    def body_equals(self, other):
        return self.value == other.value

    def copy(self, with_children=True):
        return type(self)(self.value, *((n.copy() for n in self) if with_children else ()))


class Boom(Exception):
    pass


SPACE = [s for s in ("space_before", "space_after", "space_between", "space_after_head", "space_before_tail")]


class C03(core.Check):
    id = "C03"
    rule = "at least six tree operations succeeded on trees of at least eight nodes, and a node was moved or copied"
    assumptions = [
        "As documented, nodes are removed from their old parent before they are added elsewhere, and the parent that a "
        "removed node reports is not judged until it is added again.",
        "A node is never added to itself or to its own descendants.",
    ]
    real = ["quickly.node.Node", "quickly.dom.element", "quickly.dom.* classes (constructors, copying)",
            "parce document, tree builder, transformer, background worker (for read trees)"]
    stubs = ["threading (deterministic scheduler)", "iterators given to operations (fail at a chosen item)"]
    states_measure = "distinct shapes of the forest reached"
    quick_runs = 15000
    thorough_runs = 200000

    def lists(self):
        return ("ops", "schedule")

    def sample(self, case):
        return repr(case)[:1500]

    def simplify(self, case):
        for i, t in enumerate(case["trees"]):
            if t[0] == "plain" and isinstance(t[1], list):
                for k in range(len(t[1])):
                    t2 = ["plain", t[1][:k] + t[1][k + 1:]]
                    yield dict(case, trees=case["trees"][:i] + [t2] + case["trees"][i + 1:])
            elif t[0] in ("read", "live") and len(t[2]) > 1:
                for s in (t[2][:len(t[2]) // 2], t[2][:-1]):
                    yield dict(case, trees=case["trees"][:i] + [[t[0], t[1], s]] + case["trees"][i + 1:])

    def generate(self, rng):
        def spec(depth):
            return [spec(depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 4]))] if depth else []
        trees = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.random()
            lang = rng.choice(["lilypond"] * 4 + ["html", "latex", "scheme"])
            if k < .5:
                trees.append(["plain", spec(rng.choice([1, 2, 3]))])
            elif k < .75:
                trees.append(["read", lang, gen.render(texts.wellformed(rng, lang)) if rng.random() < .6
                              else texts.broken(rng, lang, rng.choice([2, 5]))])
            elif k < .85 and not any(t[0] == "live" for t in trees):
                trees.append(["live", lang, gen.render(texts.wellformed(rng, lang))])
            else:
                trees.append(["built", rng.randrange(5)])
        ops = []
        n = rng.choice([4, 8, 16, 30])
        R = lambda: rng.randrange(10000)
        kinds = ["append", "insert", "extend", "iadd", "set", "setslice", "del", "delslice", "remove", "pop", "clear", "take",
                 "replace_with", "add", "copy", "copyo", "copy1", "wrap", "unwrap", "move", "reverse", "sort", "head", "space",
                 "edit", "type", "ancestor", "iter", "equals", "pydump"]
        weights = [3, 3, 3, 1, 3, 4, 1, 2, 1, 1, .5, 1, 2, 2, 2, 2, 1, 2, 2, 4, .5, .5, 2, 1, 2, 3, 3, 2, 2, 1.5]
        for _ in range(n):
            ops.append([rng.choices(kinds, weights)[0], R(), R(), R(), R(), rng.random() < .15])
        return {"trees": trees, "ops": ops, "schedule": ms.schedule(rng)}

    # -- the model ---------------------------------------------------------------

    def execute(self, case, run):
        with docsim.World(run, case["schedule"]) as w:
            Forest(self, case, run, w).go()


class Forest:
    def __init__(self, check, case, run, w):
        self.case, self.run, self.w = case, run, w
        self.nodes = []         # id -> node
        self.ids = {}           # id(node) -> id
        self.kids = {}
        self.up = {}            # id -> parent id, None: root, -1: don't care (was removed)
        self.label = {}
        self.roots = []         # ids
        self.doc = None
        self.live = None
        self.count = 100

    def register(self, n, up):
        """Register a new tree."""
        i = self.ids.get(id(n))
        if i is not None:
            self.fail("shared-node", "node %r occurs in two places" % n)
        i = len(self.nodes)
        self.nodes.append(n)
        self.ids[id(n)] = i
        self.up[i] = up
        self.label[i] = self.labelof(n)
        self.kids[i] = [self.register(c, i) for c in list(n)]
        return i

    def labelof(self, n):
        if isinstance(n, Plain):
            return type(n), n.value
        return (type(n), docsim.value(n.head), docsim.value(n.tail), tuple(getattr(n, s) for s in SPACE))

    def fail(self, kind, text):
        raise core.Violation(kind, "%s (after %s)" % (text, self.what), self.step)

    def value(self):
        self.count += 1
        return self.count

    def new(self, like, n):
        """A new node to add to the node like."""
        if isinstance(like, Plain):
            return Plain(self.value(), *(Plain(self.value()) for _ in range(n % 3)))
        k = n % 5
        return (lily.Note("c") if k == 0 else lily.MusicList(lily.Note("d"), lily.Rest(), space_between="\n") if k == 1
                else lily.Duration("1/4") if k == 2 else lily.Chord(lily.ChordBody(lily.Note("e"), lily.Octave(1))) if k == 3
                else lily.Articulations(lily.Articulation("."))) if n % 10 != 9 else lily.String("x")

    def go(self):
        self.step, self.what = -1, "construction"
        for t in self.case["trees"]:
            if t[0] == "plain":
                def build(s):
                    return Plain(self.value(), *map(build, s))
                n = build(t[1])
            elif t[0] == "read":
                n = docsim.fresh(t[1], t[2])
            elif t[0] == "live":
                self.doc = self.w.open(t[1], t[2])
                self.new_live()
                n = self.live.copy_with_origin()
            else:
                n = lily.MusicList(*(self.new(lily.Note("c"), t[1] + j) for j in range(t[1] + 1)))
            if n is not None:
                self.roots.append(self.register(n, None))
        if not self.roots:
            return
        self.check()
        done = moved = 0
        for self.step, op in enumerate(self.case["ops"]):
            self.what = op[0]
            self.run.log(self.step, op[0])
            r = getattr(self, "op_" + op[0])(*op[1:])
            self.check()
            if r:
                done += 1
                moved += op[0] in ("move", "copy", "copyo", "wrap", "unwrap", "replace_with")
        if done >= 6 and moved and len(self.nodes) >= 8:
            self.run.nontrivial = True
        self.run.state([self.shape(r) for r in self.roots])

    def shape(self, i):
        return [self.shape(k) for k in self.kids[i]]

    # -- picking -----------------------------------------------------------------

    def inner(self, root):
        out = []
        stack = [root]
        while stack:
            i = stack.pop()
            out.append(i)
            stack.extend(reversed(self.kids[i]))
        return out

    def pick(self, a, root=False):
        """Any node in one of the trees (not a root if root is False...)"""
        ids = [i for r in self.roots for i in self.inner(r)]
        if not root:
            ids = [i for i in ids if i not in self.roots]
        return ids[a % len(ids)] if ids else None

    def rootof(self, i):
        while self.up[i] is not None and self.up[i] != -1:
            i = self.up[i]
        return i

    def sources(self, p, a, n):
        """Ids of n nodes that can be added to p: detached trees or new nodes."""
        out = []
        top = self.rootof(p)
        kind = isinstance(self.nodes[p], Plain)
        for j in range(n):
            free = [r for r in self.roots if r != top and r not in out and isinstance(self.nodes[r], Plain) == kind
                    and (a + j) % 3 == 0]
            if free and len(self.roots) > 2:
                out.append(free[a % len(free)])
            else:
                x = self.new(self.nodes[p], a + j)
                i = self.register(x, None)
                self.roots.append(i)
                out.append(i)
        return out

    def attach(self, p, index, ids):
        self.kids[p][index:index] = ids
        for i in ids:
            self.up[i] = p
            self.roots.remove(i)
        return True

    def detach(self, ids):
        """The nodes were removed from their parent."""
        for i in ids:
            self.up[i] = -1
            self.roots.append(i)
        return True

    def real(self, ids):
        return [self.nodes[i] for i in ids]

    def iterator(self, ids, fault, n):
        """An iterable of the nodes, failing somewhere if fault."""
        nodes = self.real(ids)
        if not fault:
            return nodes if n % 2 else iter(nodes)

        def failing():
            for k, x in enumerate(nodes):
                if k == n % len(nodes):
                    raise Boom()
                yield x
            raise Boom()
        self.run.count("fault:iterator_fails")
        return failing()

    def expect_boom(self, func):
        try:
            func()
        except Boom:
            return
        self.fail("error-swallowed", "an exception in an iterator disappeared")

    # -- operations ----------------------------------------------------------------

    def op_append(self, a, b, c, d, fault):
        p = self.pick(a, True)
        ids = self.sources(p, b, 1)
        self.nodes[p].append(self.nodes[ids[0]])
        return self.attach(p, len(self.kids[p]), ids)

    def op_insert(self, a, b, c, d, fault):
        p = self.pick(a, True)
        ids = self.sources(p, b, 1)
        n = len(self.kids[p])
        index = c % (2 * n + 3) - n - 1
        self.nodes[p].insert(index, self.nodes[ids[0]])
        return self.attach(p, max(0, n + index) if index < 0 else min(index, n), ids)

    def op_extend(self, a, b, c, d, fault):
        p = self.pick(a, True)
        ids = self.sources(p, b, c % 4)
        if not ids and fault:
            return
        it = self.iterator(ids, fault, d)
        if fault:
            self.half(p, lambda: self.expect_boom(lambda: self.nodes[p].extend(it)), ids)
            return
        self.nodes[p].extend(it)
        return self.attach(p, len(self.kids[p]), ids)

    def half(self, p, func, ids):
        """A failing addition of ids. Some of the first nodes may have been
        added at the end, but then completely."""
        func()
        kids = list(self.nodes[p])
        k = len(kids) - len(self.kids[p])
        if 0 < k <= len(ids):
            self.attach(p, len(self.kids[p]), ids[:k])
            self.run.count("partially_extended")

    def op_iadd(self, a, b, c, d, fault):
        p = self.pick(a, True)
        ids = self.sources(p, b, c % 3 + 1)
        n = self.nodes[p]
        n += self.real(ids)
        if n is not self.nodes[p]:
            self.fail("iadd", "+= gives another node")
        return self.attach(p, len(self.kids[p]), ids)

    def op_set(self, a, b, c, d, fault):
        p = self.pick(a, True)
        n = len(self.kids[p])
        ids = self.sources(p, b, 1)
        if not n or fault:
            index = n + c % 3 if c % 2 else -n - 1 - c % 3
            try:
                self.nodes[p][index] = self.nodes[ids[0]]
            except IndexError:
                self.run.count("fault:index_error")
                return
            self.fail("error-swallowed", "setting an index out of range")
        index = c % n
        self.nodes[p][index - n if d % 2 else index] = self.nodes[ids[0]]
        old = self.kids[p].pop(index)
        self.attach(p, index, ids)
        return self.detach([old])

    def op_setslice(self, a, b, c, d, fault):
        p = self.pick(a, True)
        n = len(self.kids[p])
        i, j = c % (n + 2), d % (n + 2)
        if b % 3 == 0 and n:
            # extended slice
            k = slice(None if i > j else i, None, 2 if b % 2 else -2)
            m = len(range(n)[k])
            if fault:
                m += 1
            if m == 0 and fault is False:
                return
            ids = self.sources(p, b, m)
            if fault:
                try:
                    self.nodes[p][k] = self.real(ids)
                except ValueError:
                    self.run.count("fault:slice_size")
                    return
                self.fail("error-swallowed", "setting an extended slice of another size")
            self.nodes[p][k] = self.iterator(ids, False, a)
            old = self.kids[p][k]
            self.kids[p][k] = ids
        else:
            if (c + d) % 4 == 0:
                i, j = i - n, j - n
            ids = self.sources(p, b, (a + b) % 4)
            if fault and ids:
                self.expect_boom(lambda: self.nodes[p].__setitem__(slice(i, j), self.iterator(ids, True, a)))
                return
            self.nodes[p][i:j] = self.iterator(ids, False, a)
            old = self.kids[p][i:j]
            self.kids[p][i:j] = ids
        for x in ids:
            self.up[x] = p
            self.roots.remove(x)
        return self.detach(old)

    def op_del(self, a, b, c, d, fault):
        p = self.pick(a, True)
        n = len(self.kids[p])
        if not n:
            return
        del self.nodes[p][c % n]
        return self.detach([self.kids[p].pop(c % n)])

    def op_delslice(self, a, b, c, d, fault):
        p = self.pick(a, True)
        n = len(self.kids[p])
        k = slice(c % (n + 1), d % (n + 2), 1 + b % 2)
        del self.nodes[p][k]
        old = self.kids[p][k]
        del self.kids[p][k]
        return self.detach(old)

    def op_remove(self, a, b, c, d, fault):
        i = self.pick(a)
        if i is None:
            return
        p = self.up[i]
        self.nodes[p].remove(self.nodes[i])
        self.kids[p].remove(i)
        return self.detach([i])

    def op_pop(self, a, b, c, d, fault):
        i = self.pick(a)
        if i is None:
            return
        p = self.up[i]
        k = self.kids[p].index(i)
        x = self.nodes[p].pop(k)
        self.kids[p].remove(i)
        if x is not self.nodes[i]:
            self.fail("pop", "pop(%d) gives another node" % k)
        return self.detach([i])

    def op_clear(self, a, b, c, d, fault):
        p = self.pick(a)
        if p is None:
            return
        self.nodes[p].clear()
        old = self.kids[p]
        self.kids[p] = []
        return self.detach(old)

    def op_take(self, a, b, c, d, fault):
        p = self.pick(a, True)
        n = len(self.kids[p])
        i, j = c % (n + 1), d % (n + 2) if b % 3 else None
        x = self.nodes[p].take(i, j)
        old = self.kids[p][i:j]
        del self.kids[p][i:j]
        if not self.same(x, old):
            self.fail("take", "take(%s, %s) gives other nodes" % (i, j))
        return self.detach(old)

    def op_replace_with(self, a, b, c, d, fault):
        i = self.pick(a, fault)
        if i is None:
            return
        if i in self.roots:
            n = self.nodes[i]
            if n.parent is not None:
                return      # a removed node
            x = self.new(n, b)
            try:
                n.replace_with(x)
            except Exception:
                self.run.count("fault:replace_root")
                if x.parent is not None:
                    self.fail("failed-operation", "replacing the root failed, but the new node has a parent")
                return
            self.fail("error-swallowed", "replacing a root node")
        p = self.up[i]
        ids = self.sources(p, b, 1)
        self.nodes[i].replace_with(self.nodes[ids[0]])
        k = self.kids[p].index(i)
        del self.kids[p][k]
        self.attach(p, k, ids)
        return self.detach([i])

    def op_add(self, a, b, c, d, fault):
        """Element.add(): the new node in a place of its own choice."""
        p = self.pick(a, True)
        if not isinstance(self.nodes[p], element.Element):
            return
        ids = self.sources(p, b, 1)
        self.nodes[p].add(self.nodes[ids[0]])
        where = [k for k, x in enumerate(self.nodes[p]) if x is self.nodes[ids[0]]]
        if len(where) != 1:
            self.fail("add", "the added node occurs %d times" % len(where))
        return self.attach(p, where[0], ids)

    def op_copy(self, a, b, c, d, fault):
        return self.copied(a, lambda n: n.copy(), False)

    def op_copyo(self, a, b, c, d, fault):
        return self.copied(a, lambda n: n.copy_with_origin() if isinstance(n, element.Element) else n.copy(), True)

    def copied(self, a, func, origin):
        i = self.pick(a, True)
        n = self.nodes[i]
        x = func(n)
        if x.parent is not None:
            self.fail("copy-has-parent", "the copy of %r has a parent" % n)
        if not x.equals(n) or not n.equals(x):
            self.fail("copy-not-equal", "the copy of %r is not equal" % n)
        if isinstance(n, element.Element):
            d = docsim.first_diff(docsim.dump(x, origin), docsim.dump(n, origin))
            if d:
                self.fail("copy-not-equal", "copy of %r: %s" % (n, d))
            try:
                text = n.write()
            except Exception:
                text = None     # e.g. no name for the value
            if text is not None and x.write() != text:
                self.fail("copy-writes-differently", "%r: %r, copy %r" % (n, text[:200], x.write()[:200]))
        j = self.register(x, None)
        for k, m in zip(self.inner(i), self.inner(j)):
            if self.label[k] != self.label[m]:
                self.fail("copy-not-equal", "%s copied as %s" % (self.label[k], self.label[m]))
        self.roots.append(j)
        return True

    def op_pydump(self, a, b, c, d, fault):
        """The Python code that is printed for a tree builds the same tree."""
        i = self.pick(a, True)
        n = self.nodes[i]
        if not isinstance(n, element.Element):
            return
        f = io.StringIO()
        n.py_dump(f, b % 5)
        code = f.getvalue()
        try:
            x = eval(code.strip(), dict(PYTHON))
        except NameError:
            return      # no Python expression for the value (e.g. inf)
        except SyntaxError as e:
            self.fail("py-dump", "py_dump() of %r isn't Python: %s: %r" % (n, e, code[:300]))
        if not isinstance(x, element.Element) or not x.equals(n):
            self.fail("py-dump", "the code of py_dump() of %r gives %r: %r" % (n, x, code[:300]))
        j = self.register(x, None)
        for k, m in zip(self.inner(i), self.inner(j)):
            if self.label[k][:-1] != self.label[m][:-1]:     # (spacing isn't printed)
                self.fail("py-dump", "%s became %s" % (self.label[k], self.label[m]))
        self.roots.append(j)
        return True

    def op_copy1(self, a, b, c, d, fault):
        """Copy without children."""
        i = self.pick(a, True)
        n = self.nodes[i]
        x = n.copy_with_origin(False) if isinstance(n, element.Element) and b % 2 else n.copy(False)
        if len(x) or self.labelof(x) != self.label[i] or x.parent is not None:
            self.fail("copy-not-equal", "copy(False) of %r is %r" % (n, x))
        self.roots.append(self.register(x, None))
        return True

    def op_wrap(self, a, b, c, d, fault):
        """Put a new node between a node and its parent."""
        i = self.pick(a)
        if i is None:
            return
        p = self.up[i]
        n = self.nodes[p]
        k = self.kids[p].index(i)
        x = Plain(self.value()) if isinstance(n, Plain) else lily.Relative() if b % 2 else lily.MusicList()
        n[k] = x
        x.append(self.nodes[i])
        j = len(self.nodes)
        self.nodes.append(x)
        self.ids[id(x)] = j
        self.label[j] = self.labelof(x)
        self.kids[j] = [i]
        self.up[j] = p
        self.up[i] = j
        self.kids[p][k] = j
        return True

    def op_unwrap(self, a, b, c, d, fault):
        """Replace a node by its children."""
        i = self.pick(a)
        if i is None:
            return
        p = self.up[i]
        k = self.kids[p].index(i)
        self.nodes[p][k:k + 1] = self.nodes[i].take() if b % 2 else self.nodes[i]
        self.kids[p][k:k + 1] = self.kids[i]
        for x in self.kids[i]:
            self.up[x] = p
        self.kids[i] = []
        self.up[i] = -1
        self.nodes[i].clear()
        self.roots.append(i)
        return True

    def op_move(self, a, b, c, d, fault):
        """Move a node within a tree, or to another tree."""
        i = self.pick(a)
        if i is None:
            return
        below = set(self.inner(i))
        kind = isinstance(self.nodes[i], Plain)
        to = [x for r in self.roots for x in self.inner(r) if x not in below and isinstance(self.nodes[x], Plain) == kind]
        p = self.up[i]
        q = to[b % len(to)]
        self.nodes[p].remove(self.nodes[i])
        self.kids[p].remove(i)
        k = c % (len(self.kids[q]) + 1)
        if d % 3 == 0:
            self.nodes[q].insert(k, self.nodes[i])
        elif d % 3 == 1:
            self.nodes[q][k:k] = [self.nodes[i]]
        else:
            k = len(self.kids[q])
            self.nodes[q].append(self.nodes[i])
        self.kids[q].insert(k, i)
        self.up[i] = q
        return True

    def op_reverse(self, a, b, c, d, fault):
        p = self.pick(a, True)
        self.nodes[p].reverse()
        self.kids[p].reverse()
        return True

    def op_sort(self, a, b, c, d, fault):
        p = self.pick(a, True)
        order = {id(self.nodes[x]): (x * (b + 1)) % 17 for x in self.kids[p]}
        self.nodes[p].sort(key=lambda n: order[id(n)])
        self.kids[p].sort(key=lambda x: order[id(self.nodes[x])])
        return True

    def op_head(self, a, b, c, d, fault):
        """Change a value; no other node may change."""
        i = self.pick(a, True)
        n = self.nodes[i]
        if isinstance(n, Plain):
            n.value = self.value()
        elif isinstance(n, lily.Note):
            n.head = "abcdefg"[b % 7]
        elif isinstance(n, lily.Octave):
            n.head = b % 3 + 1
        elif isinstance(n, (lily.String, lily.Symbol)):
            n.head = "v%d" % self.value()
        else:
            return
        self.label[i] = self.labelof(n)

    def op_space(self, a, b, c, d, fault):
        i = self.pick(a, True)
        n = self.nodes[i]
        if isinstance(n, Plain):
            return
        name, v = SPACE[b % 5], ["", " ", "\n", "  "][c % 4]
        if d % 5 == 0:
            v = getattr(type(n), name)     # the default
            if not isinstance(v, str):
                return
            delattr(n, name)
            self.run.count("spacing_reset")
        else:
            setattr(n, name, v)
        if getattr(n, name) != v:
            self.fail("spacing", "%s of %r is %r after setting %r" % (name, n, getattr(n, name), v))
        old = self.label[i]
        self.label[i] = old[:3] + (tuple(v if s == name else x for s, x in zip(SPACE, old[3])),)

    def op_type(self, a, b, c, d, fault):
        """Edit the open document; its model must be consistent, and have nothing in common with the copies."""
        if self.doc is None:
            return
        text = self.doc.text()
        i = a % (len(text) + 1)
        s = ["", "c4 ", "{ d }", " ", "x", "\\relative "][b % 6]
        if not s and not c % 4:
            return
        self.doc[i:i + c % 4] = s
        self.new_live()
        self.roots.append(self.register(self.live.copy_with_origin(), None))

    def op_edit(self, a, b, c, d, fault):
        """Write back one of the trees that stem from the document."""
        if self.doc is None or not self.live:
            return
        m = self.live.copy_with_origin()
        for n in m // lily.Note:
            n.head = "cdefgab"[a % 7]
            a += 1
        m.edit(self.doc)
        self.new_live()

    def new_live(self):
        self.live = self.w.model(self.doc)
        if self.live is None:
            return
        seen = set()
        stack = [(self.live, None)]
        while stack:
            n, p = stack.pop()
            if id(n) in seen or id(n) in self.ids:
                self.fail("shared-node", "node %r of the model occurs twice; text %r" % (n, self.doc.text()[:200]))
            seen.add(id(n))
            if n.parent is not p:
                self.fail("wrong-parent", "%r in the model has parent %r instead of %r; text %r" % (
                    n, n.parent, p, self.doc.text()[:200]))
            stack.extend((c, n) for c in n)
        self.run.count("live_models")

    def op_ancestor(self, a, b, c, d, fault):
        """Queries about the place of two nodes."""
        i, j = self.pick(a, True), self.pick(b, True)
        n, m = self.nodes[i], self.nodes[j]
        ai, aj = self.line(i), self.line(j)
        # removed nodes may still refer to their old parent
        if ai is None or aj is None:
            return
        common = next((x for x in ai if x in aj), None)
        got = n.common_ancestor(m)
        if got is not (None if common is None else self.nodes[common]):
            self.fail("common-ancestor", "of %r and %r: %r" % (n, m, got))
        anc, t1, t2 = n.common_ancestor_with_trail(m)
        exp = (None, None, None) if common is None else (self.nodes[common], self.trail(i, common), self.trail(j, common))
        if anc is not exp[0] or (t1, t2) != exp[1:]:
            self.fail("common-ancestor", "with trail, of %r and %r: %r, expected %r" % (n, m, (anc, t1, t2), exp))

    def op_equals(self, a, b, c, d, fault):
        """Compare a node with a changed copy, and with another node."""
        n = self.nodes[self.pick(a, True)]
        x = n.copy()
        sub = [x, *x.descendants()]
        y = sub[b % len(sub)]
        if c % 6 == 0 and len(y):
            del y[-1]
        elif c % 6 == 1 and len(y):
            del y[0]
        elif c % 6 == 2 and len(y):
            y.append(y[d % len(y)].copy())
        elif c % 6 == 3:
            y.insert(d % (len(y) + 1), self.new(y, d))
        elif c % 6 == 4 and isinstance(y, Plain):
            y.value += 1
        elif c % 6 == 5 and len(y) > 1:
            y.append(y.pop(0))
        for m in (x, self.nodes[self.pick(d, True)]):
            expect = self.equal(n, m)
            if n.equals(m) != expect or m.equals(n) != expect:
                self.fail("equals", "%r and %r are%s equal" % (n, m, "" if expect else " not"))

    def equal(self, a, b):
        """Reference: the same structure and values."""
        if type(a) is not type(b) or len(a) != len(b):
            return False
        if isinstance(a, Plain):
            if a.value != b.value:
                return False
        elif isinstance(a, element.TextElement) and a.head != b.head and not (a.head != a.head and b.head != b.head):
            return False
        return all(self.equal(x, y) for x, y in zip(list(a), list(b)))

    def line(self, i):
        """The node and its ancestors."""
        out = [i]
        while self.up[i] is not None:
            i = self.up[i]
            if i == -1:
                return None if self.nodes[out[-1]].parent is not None else out
            out.append(i)
        return out

    def trail(self, i, top):
        out = []
        while i != top:
            out.insert(0, self.kids[self.up[i]].index(i))
            i = self.up[i]
        return out

    def op_iter(self, a, b, c, d, fault):
        """Place of one node."""
        i = self.pick(a, True)
        n = self.nodes[i]
        line = self.line(i)
        if line is None:
            return
        bad = None
        if n.root() is not self.nodes[line[-1]]:
            bad = "root"
        elif not self.same(n.ancestors(), line[1:]):
            bad = "ancestors"
        elif n.depth() != len(line) - 1:
            bad = "depth"
        elif n.trail() != self.trail(i, line[-1]):
            bad = "trail"
        elif n.is_root() != (len(line) == 1):
            bad = "is_root"
        elif n.height() != self.height(i):
            bad = "height"
        elif len(line) > 1:
            sib = self.kids[line[1]]
            k = sib.index(i)
            if not self.same(n.right_siblings(), sib[k + 1:]) or not self.same(n.left_siblings(), sib[:k][::-1]):
                bad = "siblings"
            elif n.is_last() != (k == len(sib) - 1) or n.is_first() != (k == 0):
                bad = "is_first or is_last"
            elif n.right_sibling() is not (self.nodes[sib[k + 1]] if k + 1 < len(sib) else None) \
                    or n.left_sibling() is not (self.nodes[sib[k - 1]] if k else None):
                bad = "sibling"
            elif n.parent.index(n) != k:
                bad = "index"
        elif list(n.right_siblings()) or list(n.left_siblings()) or n.right_sibling() or n.left_sibling():
            bad = "siblings of the root"
        if bad:
            self.fail("wrong-" + bad.split()[0], "%s of %r is wrong" % (bad, n))
        self.run.count("places_checked")

    def height(self, i):
        return max((1 + self.height(k) for k in self.kids[i]), default=0)

    # -- checking --------------------------------------------------------------------

    def same(self, nodes, ids):
        nodes = list(nodes)
        return len(nodes) == len(ids) and all(n is self.nodes[i] for n, i in zip(nodes, ids))

    def check(self):
        """Compare everything."""
        for r in self.roots:
            n = self.nodes[r]
            if self.up[r] is None and n.parent is not None:
                self.fail("wrong-parent", "%r was added nowhere, but has parent %r" % (n, n.parent))
            stack = [r]
            while stack:
                i = stack.pop()
                n = self.nodes[i]
                if len(n) != len(self.kids[i]) or any(x is not self.nodes[k] for x, k in zip(n, self.kids[i])):
                    self.fail("wrong-children", "%r has children %r, expected %r" % (n, list(n)[:8], self.real(self.kids[i])[:8]))
                for k in self.kids[i]:
                    x = self.nodes[k]
                    if x.parent is not n:
                        self.fail("wrong-parent", "%r in %r has parent %r" % (x, n, x.parent))
                if self.labelof(n) != self.label[i]:
                    self.fail("value-changed", "%s became %s" % (self.label[i], self.labelof(n)))
                stack.extend(self.kids[i])
            if len(self.roots) > 60:
                del self.roots[:20]


CHECK = C03()
