"""
Cooperative scheduler for caller threads.

Tasks are real threads, but exactly one of them is ever runnable: a task only gives up control at a
preemption point (a source line of the code under test, or a simulated I/O event), and who runs next
is read from an explicit plan: a list of [points until the next switch, index into the other live
tasks].  When the plan is exhausted every task runs to completion in order.
"""
import functools
import linecache
import os
import sys
import threading

from dst.core import SimulatedStop, Violation

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep


@functools.cache
def leaves_with(path, line):
    return linecache.getline(path, line).lstrip().startswith("with ")


class Cancelled(SimulatedStop):
    """The simulated client went away in the middle of a request."""


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.gate = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.points = 0
        self.waits = 0  # in a row
        self.cancel_at = None


class Sched:
    active = None

    def __init__(self, plan, lines=True, cancels=None):
        self.plan = [list(p) for p in plan]
        self.lines = lines
        self.tasks = []
        self.current = None
        self.left = None
        self.switches = 0
        self.points = 0
        self.trace = []
        self.cancels = cancels or {}  # task index -> list of point numbers
        self.fired_cancels = 0
        self.main = threading.Semaphore(0)
        self.where = set()

    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    # -- running
    def run(self):
        if not self.tasks:
            return
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            threads.append(th)
            th.start()
        self._next_quota()
        self.current = self.tasks[0]
        Sched.active = self
        self.current.gate.release()
        self.main.acquire()
        Sched.active = None
        for th in threads:
            th.join()
        for t in self.tasks:
            if t.error is not None and not isinstance(t.error, SimulatedStop):
                raise t.error

    def _body(self, t):
        t.gate.acquire()
        try:
            if self.lines:
                sys.settrace(self._tracer(t))
            t.result = t.fn()
        except BaseException as e:  # handed to the main thread
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            self._leave(t)

    def _tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.where.add((frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
                # leaving a with block is not interruptible before the lock is released
                self.point(leaves_with(frame.f_code.co_filename, frame.f_lineno))
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO):
                return local
            return None

        return trace

    def _next_quota(self):
        self.left = self.plan[0][0] if self.plan else None

    def point(self, firm=False):
        """A preemption point of the running task."""
        t = self.current
        t.points += 1
        t.waits = 0
        self.points += 1
        todo = self.cancels.get(self.tasks.index(t))
        if todo and t.points >= todo[0] and not firm:
            todo.pop(0)
            self.fired_cancels += 1
            raise Cancelled()
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        _, which = self.plan.pop(0)
        self._next_quota()
        others = [o for o in self.tasks if not o.done and o is not t]
        if not others:
            return
        nxt = others[which % len(others)]
        self.switches += 1
        self.trace.append((self.tasks.index(t), t.points))
        self.current = nxt
        nxt.gate.release()
        t.gate.acquire()

    def wait(self):
        """The running task cannot go on: the next one takes over; False if all are waiting."""
        t = self.current
        others = [o for o in self.tasks if not o.done and o is not t]
        t.waits += 1
        if not others or t.waits > 10000:
            return False
        k = self.tasks.index(t)
        nxt = next((o for o in others if self.tasks.index(o) > k), others[0])
        self.current = nxt
        nxt.gate.release()
        t.gate.acquire()
        return True

    def _leave(self, t):
        live = [o for o in self.tasks if not o.done]
        if not live:
            self.main.release()
            return
        self.current = live[0]
        live[0].gate.release()


class Lock:
    """A lock the code under test makes: waiting for it lets the other tasks run."""

    again = False

    def __init__(self):
        self._owner, self._depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self.again and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            if Sched.active is None or not Sched.active.wait():
                raise Violation("deadlock", "a request waits for a lock that nobody will release")
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        if self._owner is None or (self.again and self._owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if not self._depth:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class RLock(Lock):
    again = True


def install():
    for name, mine in (("Lock", Lock), ("RLock", RLock)):
        def make(real=getattr(threading, name), mine=mine):
            asks = sys._getframe(1).f_code.co_filename
            return mine() if os.path.realpath(asks).startswith(REPO) else real()

        setattr(threading, name, make)
