"""Base classes of the simulator: cases, violations, the recorded event log.

One integer seed decides a whole case. ``Check.generate(rng)`` writes every
decision down in a JSON value, the *case* (configuration, operations, faults,
schedule choices); ``Check.execute(case)`` is a pure function of the case and
the code under test. That makes the case itself the replay file, and lets the
minimiser drop or simplify steps without touching the generator.
"""
import contextlib
import hashlib
import io
import json
import random
import sys
import traceback


class Violation(Exception):
    """A property is broken by the code under test."""

    def __init__(self, kind, detail, step=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind        # the class of the violation (kept by the minimiser)
        self.detail = detail
        self.step = step


class HarnessError(Exception):
    """The harness itself (not the code under test) went wrong."""


class Hang(BaseException):
    """No progress within the processor time limit of a case."""


class Log:
    """Event log of one run: a rolling digest, and the events when asked for."""

    def __init__(self, keep=False):
        self._h = hashlib.blake2b(digest_size=16)
        self.events = [] if keep else None
        self.count = 0

    def __call__(self, *event):
        s = repr(event)
        self._h.update(s.encode("utf-8", "backslashreplace"))
        self._h.update(b"\n")
        self.count += 1
        if self.events is not None:
            self.events.append(s)

    def digest(self):
        return self._h.hexdigest()


class Run:
    """Everything one execution of a case produces, besides a Violation."""

    def __init__(self, keep_log=False):
        self.log = Log(keep_log)
        self.counts = {}        # named counters: faults fired, reach probes, ...
        self.states = set()     # hashes of the distinct states reached
        self.time = 0           # simulated time (scheduler steps or clock ticks)
        self.nontrivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *value):
        self.states.add(hashlib.blake2b(repr(value).encode("utf-8", "backslashreplace"),
                                        digest_size=6).hexdigest())


class Check:
    """One property. Subclass this in checks/<id>.py."""

    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    real = []                   # components that run real code
    stubs = []                  # components that are simulated
    states_measure = "distinct hashes of (step outcome, document text)"
    quick_runs = 2000
    thorough_runs = 100000
    cpu_limit = 20              # seconds of processor time one case may take

    def generate(self, rng):
        """Return a case: a JSON-able dict with at least a list "ops"."""
        raise NotImplementedError

    def execute(self, case, run):
        """Run the case; raise Violation."""
        raise NotImplementedError

    def simplify(self, case):
        """Yield simpler variants of the case, besides dropping ops."""
        return ()

    def lists(self):
        """Names of the lists in the case of which items may be dropped."""
        return ("ops",)

    def sample(self, case):
        """Short readable text describing the case, for the evidence."""
        s = json.dumps(case, ensure_ascii=False)
        return s if len(s) < 1500 else s[:1500] + "..."


def rng_for(check_id, seed, index):
    """The one PRNG that decides case ``index``."""
    return random.Random("%s/%s/%s" % (check_id, seed, index))


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    """The code under test prints diagnostics for unknown text; discard those."""
    with contextlib.redirect_stdout(_Sink()):
        yield


def in_quickly(tb):
    """Return the innermost frame of the traceback that is quickly code, as text."""
    where = None
    for f, lineno in traceback.walk_tb(tb):
        name = f.f_code.co_filename
        if "/quickly/" in name and "site-packages" not in name:
            where = "%s:%s" % (name.split("/quickly/", 1)[1], f.f_code.co_name)
    return where


def innermost(tb):
    """Classify where an exception was raised: 'quickly', 'harness' or 'other'."""
    last = None
    for f, lineno in traceback.walk_tb(tb):
        last = f.f_code.co_filename
    if last is None:
        return "other"
    if "/verif/" in last or "/sim/" in last or "/checks/" in last:
        return "harness"
    if "/quickly/" in last and "site-packages" not in last:
        return "quickly"
    return "other"


def describe_exc(e):
    return "%s: %s at %s" % (type(e).__name__, str(e)[:200], in_quickly(e.__traceback__))


def execute(check, case, keep_log=False):
    """Run one case. Return (run, violation or None)."""
    run = Run(keep_log)
    try:
        with quiet():
            check.execute(case, run)
    except Violation as v:
        return run, v
    return run, None
