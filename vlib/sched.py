"""Runs calls in several threads under a given schedule: exactly one thread runs at a time, and the plan says after how
many lines (or byte codes) of the code under test the next thread goes on.  A thread that the code itself makes wait (a
lock) does not stop the others for more than a moment."""
import os
import signal
import sys
import threading
import time

from .target import REPO

ROOT = os.path.join(os.path.realpath(REPO), "number_parser") + os.sep
DATA = os.path.join(ROOT, "data") + os.sep
PATIENCE = 0.1


_traced = {}


def traced(frame):
    name = frame.f_code.co_filename
    if name not in _traced:
        f = os.path.realpath(name)
        _traced[name] = f.startswith(ROOT) and not f.startswith(DATA)
    return _traced[name]


class Plan:
    def __init__(self, plan, n, opcodes):
        self.plan, self.n, self.opcodes = list(plan), n, opcodes
        self.cond = threading.Condition()
        self.done = [False] * n
        self.turn, self.left = None, 0
        self.free, self.taken = False, 0
        self.last = time.monotonic()
        self.next()

    def next(self):
        """Chooses who goes on (the caller holds cond or is alone)."""
        self.last = time.monotonic()
        while self.plan:
            t, steps = self.plan.pop(0)
            if not self.done[t % self.n] and steps > 0:
                self.turn, self.left = t % self.n, steps
                self.cond.notify_all() if self.cond._is_owned() else None
                return
        # the plan is over: one after the other to the end
        rest = [t for t in range(self.n) if not self.done[t]]
        self.turn, self.left = (rest[0], 1 << 60) if rest else (None, 0)
        self.cond.notify_all() if self.cond._is_owned() else None

    def wait(self, t):
        while self.turn not in (t, None) and not self.free:
            if not self.cond.wait(PATIENCE) and time.monotonic() - self.last > PATIENCE:
                # whoever has the turn is blocked by the code under test: this thread, which is not, takes it
                self.turn, self.left, self.last = t, 1 << 60, time.monotonic()
                self.taken += 1
                if self.taken > 30:
                    self.free = True      # no more control
                self.cond.notify_all()

    def step(self, t):
        if self.free:
            return
        with self.cond:
            if self.turn != t:
                self.wait(t)
            self.last = time.monotonic()
            self.left -= 1
            if self.left <= 0:
                self.next()
                self.wait(t)

    def finish(self, t):
        with self.cond:
            self.done[t] = True
            if self.turn == t or self.turn is None:
                self.next()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == kind:
                if self.turn == t and self.left > 1:
                    self.left -= 1      # nobody else changes it while this thread has the turn
                else:
                    self.step(t)
            return local
        kind = "opcode" if self.opcodes else "line"

        def start(frame, event, arg):
            if not traced(frame) or self.left > 1 << 50 and self.turn == t:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return start


def run(threads, plan, opcodes, outcome):
    """threads: a list of calls for each thread.  Returns the outcomes of each."""
    p = Plan(plan, len(threads), opcodes)
    res = [[None] * len(calls) for calls in threads]

    def work(t):
        with p.cond:
            p.wait(t)
        sys.settrace(p.tracer(t))
        try:
            for i, c in enumerate(threads[t]):
                res[t][i] = outcome(*c)
        finally:
            sys.settrace(None)
            p.finish(t)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(len(threads))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def lines(call, outcome):
    """The lines of the code under test that a call runs, in order."""
    seen = []

    def local(frame, event, arg):
        if event == "line":
            seen.append([os.path.basename(frame.f_code.co_filename), frame.f_lineno])
        return local
    sys.settrace(lambda frame, event, arg: local if traced(frame) else None)
    try:
        outcome(*call)
    finally:
        sys.settrace(None)
    return seen


class _Hung(BaseException):
    pass


def interrupted(call, at, after, outcome):
    """Interrupts a call (KeyboardInterrupt) at its at-th line; then the outcomes of the calls after it.
    None if they wait for ever (an interrupt may always leave a lock behind)."""
    def hung(*_):
        raise _Hung
    left = at

    def local(frame, event, arg):
        nonlocal left
        if event == "line":
            left -= 1
            if left == 0:
                raise KeyboardInterrupt
        return local
    sys.settrace(lambda frame, event, arg: local if traced(frame) and left > 0 else None)
    try:
        outcome(*call)
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    signal.signal(signal.SIGALRM, hung)
    signal.alarm(5)
    try:
        return [outcome(*c) for c in after]
    except _Hung:
        return None
    finally:
        signal.alarm(300)
