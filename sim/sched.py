"""Deterministic scheduler for real threads.

Exactly one thread runs at any time; it hands the baton on at *points*:
synchronisation operations (lock, condition, thread start and end), stages of
the background reader, I/O on the simulated file system, and, when asked for,
every n-th source line of the code under test. Which thread runs next is
decided by the next number of the case's choice list, so that the list decides
the interleaving completely. After the list is exhausted the running thread
keeps running until it blocks or ends.
"""
import sys
import threading as _threading
from _thread import allocate_lock as _lock

from . import core
from .env import NoPreempt


class Killed(BaseException):
    """Raised in a thread of a run that is given up."""


class Deadlock(core.Violation):
    pass


class Task:
    def __init__(self, sched, name, target):
        self.sched = sched
        self.name = name
        self.target = target
        self.baton = _lock()
        self.baton.acquire()
        self.done = False
        self.blocked = None         # None or a callable: True when it can go on
        self.exception = None
        self.thread = None
        self.lines = 0
        self.result = None
        self.dying = False          # Killed was raised

    def __repr__(self):
        return "<Task %s>" % self.name


class Scheduler:
    """The main thread is task 0; other tasks are started by the code under
    test (through the threading seam) or by the check itself."""

    def __init__(self, choices, log=None, max_steps=200000):
        self.choices = list(choices)
        self.pos = 0
        self.steps = 0              # the simulated time
        self.switches = 0
        self.log = log
        self.max_steps = max_steps
        self.main = Task(self, "main", None)
        self.current = self.main
        self.tasks = [self.main]
        self.killed = False
        self.preempt = None         # [[lines, choice], ...]: switch after that many lines of traced code
        self.trace_filter = None
        self.lines = 0              # lines of traced code that were run by all tasks
        self.until = None
        self.on_line = None         # called with the task and frame, before every traced line
        self.serial = 0
        self.on_point = None        # called with the tag, for invariants

    # -- decisions ---------------------------------------------------------

    def choose(self, n):
        """Return a number in 0 .. n-1 from the choice list (0 when exhausted)."""
        if n <= 1:
            return 0
        if self.pos < len(self.choices):
            c = self.choices[self.pos]
            self.pos += 1
            return c % n
        return 0

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked is None or t.blocked())]

    def point(self, tag=None):
        """The running task may lose the baton here."""
        me = self.current
        if NoPreempt.depth:
            return
        if self.killed:
            self._die(me)
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise core.Violation("no-progress", "more than %d scheduler steps" % self.max_steps)
        if self.on_point:
            self.on_point(tag)
        ready = self._runnable()
        if len(ready) == 1 and ready[0] is me:
            return
        # index 0 is the running task: an exhausted list means: go on
        ready.sort(key=lambda t: (t is not me, self.tasks.index(t)))
        t = ready[self.choose(len(ready))]
        if t is not me:
            self._switch(t, tag)

    def _switch(self, t, tag):
        me = self.current
        self.switches += 1
        if self.log:
            self.log("switch", me.name, t.name, tag)
        t.blocked = None
        self.current = t
        t.baton.release()
        me.baton.acquire()
        if self.killed:
            self._die(me)

    def _die(self, me):
        if me is not self.main and not me.dying:
            me.dying = True
            raise Killed()

    def block(self, ready, tag=None):
        """Block the running task until ``ready()`` is True."""
        me = self.current
        if self.killed:
            self._die(me)
            return
        while not ready():
            me.blocked = ready
            others = [t for t in self._runnable() if t is not me]
            if not others:
                me.blocked = None
                raise Deadlock("deadlock", "all threads are blocked: %s waits at %s" % (me.name, tag))
            self.steps += 1
            t = others[self.choose(len(others))]
            self._switch(t, tag)
            me.blocked = None
            if self.killed:
                break

    # -- tasks -------------------------------------------------------------

    def spawn(self, target, name=None):
        self.serial += 1
        t = Task(self, name or "thread-%d" % self.serial, target)
        t.thread = _threading.Thread(target=self._run, args=(t,), daemon=True)
        self.tasks.append(t)
        t.thread.start()
        return t

    def _run(self, t):
        t.baton.acquire()
        if not self.killed:
            if self.preempt is not None:
                sys.settrace(self._tracer(t))
            try:
                t.result = t.target()
            except Killed:
                pass
            except BaseException as e:
                t.exception = e
            finally:
                sys.settrace(None)
        t.done = True
        if self.log and not self.killed:
            self.log("end", t.name, type(t.exception).__name__ if t.exception else None)
        # hand on the baton for good
        if self.killed:
            self.main.baton.release()
            return
        ready = self._runnable()
        if not ready:
            # somebody must be blocked forever; the main task reports it
            self.main.blocked = None
            nxt = self.main
        else:
            nxt = ready[self.choose(len(ready))]
        nxt.blocked = None
        self.current = nxt
        nxt.baton.release()

    def _tracer(self, t):
        filt = self.trace_filter

        def local(frame, event, arg):
            if event == "line" and not NoPreempt.depth and self.current is t and not self.killed:
                t.lines += 1
                self.lines += 1
                if self.on_line:
                    self.on_line(t, frame)
                if self.until is None and self.preempt:
                    self.until = self.preempt[0][0]
                if self.until is not None:
                    self.until -= 1
                    if self.until <= 0:
                        self._preempt(t, frame)
            return local

        def trace(frame, event, arg):
            if filt(frame.f_code.co_filename):
                return local
        return trace

    def _preempt(self, t, frame):
        """Hand the baton to another task in the middle of the code."""
        self.until = None
        choice = self.preempt.pop(0)[1]
        others = [o for o in self._runnable() if o is not t and o is not self.main]
        if others:
            self.steps += 1
            if self.on_point:
                self.on_point(frame)
            self._switch(others[choice % len(others)], "line")

    def wait_all(self, tag="join"):
        """Run until all other tasks are done (called by the main task)."""
        self.block(lambda: all(t.done for t in self.tasks if t is not self.main), tag)
        self.tasks = [self.main]

    def errors(self):
        return [(t.name, t.exception) for t in self.tasks if t.exception is not None]

    def close(self):
        """Give up all threads that are still there."""
        self.killed = True
        for t in self.tasks:
            if t is not self.main and not t.done:
                self.current = t
                t.baton.release()
                # it unwinds and gives the baton back
                if not self.main.baton.acquire(timeout=10):
                    break
        self.current = self.main


# -- the threading seam -------------------------------------------------------

class SimThreading:
    """Stands in for the ``threading`` module in a module under simulation."""

    def __init__(self, sched, on_spawn=None):
        self.sched = sched
        self.on_spawn = on_spawn
        seam = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self._target, self._args, self._kwargs = target, args, kwargs or {}
                self.name = name
                self.task = None

            def run(self):
                if self._target:
                    self._target(*self._args, **self._kwargs)

            def start(self):
                self.task = seam.sched.spawn(self.run)
                if seam.on_spawn:
                    seam.on_spawn(self.task)
                seam.sched.point("thread start")

            def is_alive(self):
                return self.task is not None and not self.task.done

            def join(self, timeout=None):
                seam.sched.block(lambda: self.task.done, "thread join")

        class Lock:
            def __init__(self):
                self._owner = None

            def acquire(self, blocking=True, timeout=-1):
                s = seam.sched
                s.point("acquire")
                if self._owner is not None:
                    if not blocking:
                        return False
                    s.block(lambda: self._owner is None, "acquire")
                self._owner = s.current
                return True

            def release(self):
                if self._owner is None:
                    raise RuntimeError("release unlocked lock")
                self._owner = None

            def locked(self):
                return self._owner is not None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *args):
                self.release()

        class RLock:
            def __init__(self):
                self._owner = None
                self._n = 0

            def acquire(self, blocking=True, timeout=-1):
                s = seam.sched
                if self._owner is not s.current:
                    s.point("acquire")
                    if self._owner is not None:
                        if not blocking:
                            return False
                        s.block(lambda: self._owner is None, "acquire")
                    self._owner = s.current
                self._n += 1
                return True

            def release(self):
                self._n -= 1
                if not self._n:
                    self._owner = None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *args):
                self.release()

        class Condition:
            def __init__(self, lock=None):
                self._lock = lock or RLock()
                self._waiters = []

            def acquire(self, *a):
                return self._lock.acquire(*a)

            def release(self):
                self._lock.release()

            def __enter__(self):
                self._lock.acquire()
                return self

            def __exit__(self, *args):
                self._lock.release()
                if args[0] is None:
                    seam.sched.point("condition")

            def wait(self, timeout=None):
                s = seam.sched
                me = object()
                self._waiters.append(me)
                n, self._lock._n = self._lock._n, 0
                self._lock._owner = None
                s.block(lambda: me not in self._waiters and self._lock._owner is None, "wait")
                self._lock._owner = s.current
                self._lock._n = n
                return True

            def notify(self, n=1):
                del self._waiters[:n]

            def notify_all(self):
                self._waiters.clear()

        self.Thread, self.Lock, self.RLock, self.Condition = Thread, Lock, RLock, Condition

    def __getattr__(self, name):
        return getattr(_threading, name)
