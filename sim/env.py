"""Import environment: the code under test always comes from the working tree
of /repo (or of the copy named by VERIF_REPO, used only while developing).

Import this module before anything else. It also puts the seams in place:
``parce`` (the library quickly is built upon) creates its threads and locks
through the module attribute ``threading``, which is replaced here.
"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
sys.setrecursionlimit(3000)

import threading as _threading  # noqa: E402


class NoPreempt:
    """Counts how deep the running thread is in internal critical sections of
    parce (building a lexicon, filling a cache). The scheduler never switches
    there, so those locks are never contended."""
    depth = 0


class _InternalLock:
    def __init__(self):
        self._real = _threading.RLock()

    def acquire(self, *args, **kwargs):
        NoPreempt.depth += 1
        return self._real.acquire(*args, **kwargs)

    def release(self):
        NoPreempt.depth -= 1
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class _InternalThreading:
    Lock = RLock = _InternalLock

    def __getattr__(self, name):
        return getattr(_threading, name)


class WorkThreading:
    """What parce.work sees as the module ``threading``: the real one, or the
    simulated one while a simulation is running."""
    current = _threading

    def __getattr__(self, name):
        return getattr(WorkThreading.current, name)


import parce                    # noqa: E402
import parce.lexicon            # noqa: E402
import parce.treebuilder        # noqa: E402
import parce.treebuilderutil    # noqa: E402
import parce.transform          # noqa: E402
import parce.util               # noqa: E402
import parce.work               # noqa: E402

parce.lexicon.threading = _InternalThreading()
parce.util.threading = _InternalThreading()
parce.treebuilder.threading = _InternalThreading()
parce.work.threading = WorkThreading()


def _invalidate_node(self, node):
    # Work around an upstream defect (parce 0.33): invalidate_node() raises
    # KeyError for contexts that were never transformed, e.g. inside a HTML
    # style attribute.
    while node.parent:
        self._cache.pop(node, None)
        node = node.parent


parce.transform.Transformer.invalidate_node = _invalidate_node


_changes_add = parce.treebuilderutil.Changes.add


def _add(self, text, root_lexicon=False, start=0, removed=None, added=None):
    # Work around an upstream defect (parce 0.33): when a second change, before
    # the first one, is merged with it, its start is forgotten.
    lowest = start if self.start == -1 else min(start, self.start)
    _changes_add(self, text, root_lexicon, start, removed, added)
    self.start = lowest


parce.treebuilderutil.Changes.add = _add

import quickly  # noqa: E402

_where = os.path.dirname(os.path.dirname(os.path.abspath(quickly.__file__)))
if _where != REPO:
    raise SystemExit("harness error: quickly imported from %s, not %s" % (_where, REPO))

import quickly.dom.edit         # noqa: E402,F401
import quickly.dom.htm          # noqa: E402,F401
import quickly.dom.indent       # noqa: E402,F401
import quickly.dom.lily         # noqa: E402,F401
import quickly.dom.read         # noqa: E402,F401
import quickly.dom.scm          # noqa: E402,F401
import quickly.dom.scope        # noqa: E402,F401
import quickly.dom.tex          # noqa: E402,F401
import quickly.dom.util         # noqa: E402,F401
import quickly.relative         # noqa: E402,F401
import quickly.rhythm           # noqa: E402,F401
import quickly.time             # noqa: E402,F401
import quickly.transpose        # noqa: E402,F401
