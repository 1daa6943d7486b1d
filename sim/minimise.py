"""Shrink a failing case while the same class of violation persists."""
import copy
import time

from . import core


def _fails(check, case, kind):
    from . import runner
    run, v, err = runner.run_case(check, case)
    return v if v is not None and v.kind == kind else None


def minimise(check, case, violation, seconds=40, max_tries=3000, runner=None):
    """Return (case, violation) with as few steps as we can find.

    ``runner(case)`` returns a Violation or None; by default the case is
    executed in this process.
    """
    kind = violation.kind
    fails = runner or (lambda c: _fails(check, c, kind))
    deadline = time.monotonic() + seconds       # only limits effort, never the verdict
    tries = 0
    best, best_v = case, violation

    def attempt(c):
        nonlocal best, best_v, tries
        if tries >= max_tries or time.monotonic() > deadline:
            return False
        tries += 1
        v = fails(c)
        if v is not None:
            best, best_v = c, v
            return True
        return False

    progress = True
    while progress:
        progress = False
        for name in check.lists():
            items = best.get(name)
            if not isinstance(items, list):
                continue
            size = max(1, len(items) // 2)
            while size:
                i = 0
                while i < len(best[name]):
                    c = copy.deepcopy(best)
                    del c[name][i:i + size]
                    if attempt(c):
                        progress = True
                    else:
                        i += size
                size //= 2
        again = True
        while again:
            again = False
            for c in check.simplify(copy.deepcopy(best)):
                if attempt(c):
                    again = progress = True
                    break
        if tries >= max_tries or time.monotonic() > deadline:
            break
    return best, best_v, tries
