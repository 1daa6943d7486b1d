"""Open documents under the simulator: the real parce document with the real
background reading, whose threads, locks and conditions go through the
scheduler."""
from . import env, core, sched

import parce
import parce.treebuilder
import parce.transform
import parce.work
import quickly


class SimWorker(parce.work.BackgroundWorker):
    """The real BackgroundWorker; every stage it reports is a scheduling point."""
    world = None

    def process(self):
        w = self.world
        for stage in super().process():
            if w:
                if stage == "tree_done":
                    w.compare_tree(self)
                w.sched.point(stage)
            yield stage

    def update(self, text, *args, **kwargs):
        # Two upstream races of parce 0.33 are kept out: changing a document
        # while its transformer runs, and before the thread of the previous
        # update has set its final state (which then overwrites the new state).
        # A change while the tree is being built is supported.
        w = self.world
        if w and not self.builder().busy:
            w.sched.block(lambda: all(t.done for t in w.tasks), "update")
        self.sim_text = text
        super().update(text, *args, **kwargs)


class World:
    """One simulated process with open documents. Use as a context manager."""

    def __init__(self, run, choices=(), max_steps=400000, guard=True):
        self.run = run
        self.sched = sched.Scheduler(choices, run.log, max_steps)
        self.seam = sched.SimThreading(self.sched)
        self.tasks = []
        self.diverged = False
        self.guard = guard
        self.seam.on_spawn = self.tasks.append

    def __enter__(self):
        self.old = env.WorkThreading.current
        env.WorkThreading.current = self.seam
        env.NoPreempt.depth = 0
        return self

    def __exit__(self, exc_type, exc, tb):
        try:
            self.sched.close()
        finally:
            env.WorkThreading.current = self.old
            self.run.time += self.sched.steps
            if self.sched.switches:
                self.run.count("thread_switches", self.sched.switches)
            env.NoPreempt.depth = 0
        if self.diverged and exc_type and issubclass(exc_type, Exception):
            return True

    def compare_tree(self, worker):
        """parce's incremental tree sometimes differs from a fresh one (an
        upstream matter). What follows from there on is not judged."""
        if not self.guard:
            return
        b = worker.builder()
        if contexts(b.root) != contexts(parce.root(b.root.lexicon, worker.sim_text)):
            if not self.diverged:
                self.run.count("upstream_tree_divergence")
            self.diverged = True

    def open(self, lang, text=""):
        root = quickly.find(lang)
        worker = SimWorker(parce.treebuilder.TreeBuilder(root), parce.transform.Transformer())
        worker.world = self
        doc = parce.Document(root, text, worker=worker)
        doc.sim_lang = lang
        return doc

    def settle(self, what="reading"):
        """Run the background threads until they are done; report failures."""
        self.sched.wait_all("settle")
        self.check_threads()

    def check_threads(self):
        for t in self.tasks:
            if t.exception is not None:
                e = t.exception
                if not isinstance(e, Exception):
                    raise e
                if isinstance(e, core.Violation):
                    raise e
                where = core.in_quickly(e.__traceback__)
                if where:
                    raise core.Violation("background-reader-failed",
                        "%s in %s" % (core.describe_exc(e), where))
                if core.innermost(e.__traceback__) != "harness":
                    # e.g. a rule of a language definition that parce stumbles over
                    raise core.Violation("background-reader-failed", core.describe_exc(e))
                raise core.HarnessError("background reader: %r" % e) from e
        self.tasks[:] = [t for t in self.tasks if not t.done]

    def model(self, doc, wait=True):
        m = doc.get_transform(wait)
        if wait:
            self.check_threads()
        return m


def parse(lang, text):
    """Fresh token tree of text."""
    return parce.root(quickly.find(lang), text)


def fresh(lang, text):
    """Model of text, read from scratch in this thread."""
    with core.quiet():
        return parce.transform.Transformer().transform_tree(parse(lang, text))


def settled(lang, text):
    """A synchronous document (no threads)."""
    root = quickly.find(lang)
    w = parce.work.Worker(parce.treebuilder.TreeBuilder(root), parce.transform.Transformer())
    return parce.Document(root, text, worker=w)


def value(v):
    if v is None or isinstance(v, str):
        return v
    return "%s:%r" % (type(v).__name__, v)


def dump(node, positions=True):
    """Plain data of a model: (depth, class, head, tail, pos, end) per node."""
    out = []
    if node is None:
        return out
    stack = [(node, 0)]
    while stack:
        n, d = stack.pop()
        if hasattr(n, "head"):
            item = (d, type(n).__name__, value(n.head), value(n.tail))
            if positions:
                item += (n.pos, n.end)
            out.append(item)
            stack.extend((c, d + 1) for c in reversed(n))
        else:
            out.append((d, "?" + type(n).__name__, repr(n)[:60]))
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "node %d: %r, expected %r" % (i, x, y)
    if len(a) != len(b):
        n = min(len(a), len(b))
        return "%d nodes, expected %d; first extra %r" % (len(a), len(b), (a + b)[n] if n < len(a) else b[n])
    return None


def tokens(tree):
    return [(t.pos, t.text, t.action) for t in tree.tokens()]


def contexts(tree):
    """Token tree structure: tokens with the lexicons they are in."""
    out = []
    for t in tree.tokens():
        out.append((t.pos, t.text, t.action, t.parent.lexicon.name, t.depth()))
    return out
