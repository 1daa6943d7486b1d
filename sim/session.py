"""An editing session on one open document: edits, typing, transactions, undo,
language switches and reads, interleaved with the background reader.

The oracle is reading the resulting text from scratch."""
from . import core, docsim, gen, texts

import parce
import quickly


def random_ops(rng, lang, n, typing=.15, broken=True):
    """Write down a history of operations."""
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < .45:
            ops.append(["edit"] + one_edit(rng, lang, broken))
        elif k < .45 + typing:
            ops.append(["type", rng.randrange(1000), texts.snippet(rng, lang)[:25]])
        elif k < .68:
            ops.append(["multi", [one_edit(rng, lang, broken) for _ in range(rng.randint(2, 4))]])
        elif k < .75:
            ops.append(["undo", rng.randint(1, 4)])
        elif k < .85:
            ops.append(["wait"])
        elif k < .92:
            ops.append(["peek"])
        elif k < .96:
            ops.append(["hold"])
        elif k < .97:
            ops.append(["lang", rng.choice(texts.LANGS)])
        elif k < .985:
            ops.append(["query", rng.randrange(1000)])
        else:
            ops.append(["step", rng.randint(1, 6)])
    return ops


def one_edit(rng, lang, broken=True):
    """[position, length removed, text inserted]; the position is relative."""
    k = rng.random()
    if k < .25:
        return [rng.randrange(1000), rng.randint(1, 12), ""]
    if k < .35:
        return [rng.randrange(1000), 1, rng.choice(list("{}<>()\"%\\#' 4.cdr\n"))]
    s = texts.snippet(rng, lang)
    return [rng.randrange(1000), 0 if rng.random() < .7 else rng.randint(1, 6), s]


class Session:
    def __init__(self, world, run, lang, text):
        assert not world.guard
        self.w, self.run, self.lang = world, run, lang
        self.history = [(lang, text)]       # every text the document had
        self.held = []
        self.doc = world.open(lang, text)
        self.step = None

    def fail(self, kind, detail):
        raise core.Violation(kind, "%s; text %r" % (detail, self.doc.text()[:400]), self.step)

    def where(self, at):
        return at * (len(self.doc.text()) + 1) // 1000

    def replace(self, a, b, s):
        if a == b and not s:
            return          # (an upstream matter: such an edit has no effect)
        self.doc[a:b] = s
        self.history.append((self.lang, self.doc.text()))

    def do(self, i, op):
        self.step = i
        self.run.log(i, op[0])
        getattr(self, "do_" + op[0])(*op[1:])
        self.w.check_threads()

    def do_edit(self, at, n, s):
        a = self.where(at)
        self.replace(a, min(a + n, len(self.doc.text())), s)

    def do_type(self, at, s):
        a = self.where(at)
        for i, c in enumerate(s):
            self.replace(a + i, a + i, c)
            self.w.sched.point("typing")

    def do_multi(self, edits):
        """Several changes in one transaction; their positions refer to the old text."""
        length = len(self.doc.text())
        todo = []
        for at, n, s in edits:
            a = at * (length + 1) // 1000
            todo.append((a, min(a + n, length), s))
        todo.sort()
        pos = 0
        with self.doc:
            for a, b, s in todo:
                if a >= pos and (a < b or s) and (a > pos or not pos):
                    self.doc[a:b] = s
                    pos = b
        self.history.append((self.lang, self.doc.text()))

    def do_undo(self, k):
        texts_ = [t for _, t in self.history]
        if k < len(texts_):
            self.set_text(texts_[-1 - k])

    def set_text(self, new):
        """Change the text to new by replacing the part that differs."""
        old = self.doc.text()
        a = 0
        while a < min(len(old), len(new)) and old[a] == new[a]:
            a += 1
        z = 0
        while z < min(len(old), len(new)) - a and old[-1 - z] == new[-1 - z]:
            z += 1
        self.replace(a, len(old) - z, new[a:len(new) - z])

    def do_wait(self):
        m = self.w.model(self.doc)
        self.compare(m)
        return m

    def do_peek(self):
        m = self.doc.get_transform(False)
        self.w.check_threads()
        if m is None:
            self.run.count("peeks_while_reading")
            return
        self.run.count("peeks_with_model")
        if not any(self.matches(m, lang, text) for lang, text in reversed(self.history[-12:])):
            tree = self.doc.get_root(False)
            if tree is not None and docsim.contexts(tree) != docsim.contexts(docsim.parse(self.lang, self.doc.text())):
                # the incremental token tree is parce's responsibility
                with core.quiet():
                    if docsim.dump(m, False) == docsim.dump(parce.transform.Transformer().transform_tree(tree), False):
                        return
            self.fail("mixed-model", "a model that was handed out without waiting is that of no text the document had")

    def matches(self, m, lang, text):
        # positions may move on while the tree is updated
        return docsim.dump(m, False) == docsim.dump(docsim.fresh(lang, text), False)

    def do_hold(self):
        m = self.w.model(self.doc)
        if m is not None:
            self.held.append((m, docsim.dump(m, False), self.history[-1]))

    def do_lang(self, lang):
        if lang != self.lang:
            self.lang = lang
            self.doc.set_root_lexicon(quickly.find(lang))
            self.history.append((lang, self.doc.text()))

    def do_step(self, n):
        for _ in range(n):
            self.w.sched.point("step")

    def do_query(self, n):
        """Reading from a model may not change it."""
        m = self.w.model(self.doc)
        if m is None:
            return
        before = docsim.dump(m)
        length = len(self.doc.text())
        p = n * (length + 1) // 1000
        list(m.find_descendants(p))
        m.find_descendant_left(p)
        m.find_descendant_right(p)
        nodes = list(m.descendants())
        if nodes:
            x = nodes[n % len(nodes)]
            with_head = [y for y in nodes if y.head is not None]
            x.copy(), x.copy_with_origin()
            x.trail(), x.depth(), x.height()
            list(x.forward()), list(x.backward())
            if not any(type(y).__name__ == "Unknown" for y in nodes):
                m.write()
                list(x.points())
            x.equals(with_head[0] if with_head else x)
        if docsim.dump(m) != before:
            self.fail("model-changed-by-query", docsim.first_diff(docsim.dump(m), before))

    def finish(self):
        self.step = None
        self.w.settle()
        m = self.w.model(self.doc)
        self.compare(m)
        self.check_held()
        return m

    def check_held(self):
        for m, dump, (lang, text) in self.held:
            d = docsim.first_diff(docsim.dump(m, False), dump)
            if d:
                self.fail("old-model-changed", "a model handed out for %r was changed: %s" % (text[:200], d))

    def compare(self, m):
        """The model must be that of the text."""
        text = self.doc.text()
        if m is None and not text:
            self.run.count("nothing_read_yet")
            return
        tree = self.doc.get_root(True)
        got = docsim.dump(m)
        if docsim.contexts(tree) == docsim.contexts(docsim.parse(self.lang, text)):
            expect = docsim.dump(docsim.fresh(self.lang, text))
            self.run.count("compared_with_fresh")
        else:
            # the incremental token tree is parce's responsibility
            with core.quiet():
                expect = docsim.dump(parce.transform.Transformer().transform_tree(tree))
            self.run.count("compared_with_same_tree")
        self.run.state(got)
        self.run.log(len(got), self.doc.text())
        if got != expect:
            self.fail("model-differs", docsim.first_diff(got, expect))
