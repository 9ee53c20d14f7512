"""Run functions in threads that take turns as a schedule says."""

import os
import sys
import threading
import time

from . import env


class Turns:
    """Gives one thread at a time the turn; the code of the library is the only place where it is passed on."""

    def __init__(self, gaps, outer):
        self.gaps, self.at, self.left = list(gaps) or [1], 0, 0
        self.outer = outer  # only at lines that were not called by the parsing engine
        self.cond = threading.Condition()
        self.state, self.go = {}, {}
        self.switches = 0
        self.root = os.path.join(os.path.abspath(env.REPO), "pddl") + os.sep
        self.next_gap()

    def next_gap(self):
        self.left = self.gaps[self.at % len(self.gaps)]
        self.at += 1

    def wait(self, k, state):
        with self.cond:
            self.state[k] = state
            self.cond.notify_all()
        self.go[k].acquire()
        with self.cond:
            self.state[k] = "running"

    def tracer(self, k):
        """The trace function of a thread: one step per line of the library."""

        def inner(frame):
            f = frame.f_back
            while f is not None:
                if f"{os.sep}lark{os.sep}" in f.f_code.co_filename:
                    return True
                f = f.f_back
            return False

        def line(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    self.next_gap()
                    self.switches += 1
                    self.wait(k, "waiting")
            return line

        def call(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.outer and inner(frame):
                return None
            return line

        return call

    def run(self, fns, picks, limit=20.0):
        """Run the functions to their ends; returns their results, or None if they block each other."""
        out = [None] * len(fns)

        def body(k, fn):
            self.wait(k, "waiting")
            sys.settrace(self.tracer(k))
            try:
                out[k] = fn()
            finally:
                sys.settrace(None)
                with self.cond:
                    self.state[k] = "done"
                    self.cond.notify_all()

        for k in range(len(fns)):
            self.go[k] = threading.Semaphore(0)
            self.state[k] = "new"
        ts = [threading.Thread(target=body, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        [t.start() for t in ts]
        deadline, n = time.time() + limit, 0
        while time.time() < deadline:
            with self.cond:
                if all(s == "done" for s in self.state.values()):
                    break
                ready = sorted(k for k, s in self.state.items() if s == "waiting")
                if not ready:  # starting, or blocked by one another for a moment
                    self.cond.wait(0.05)
                    continue
                k = ready[picks[n % len(picks)] % len(ready)] if picks else ready[0]
                n += 1
                self.state[k] = "running"
            self.go[k].release()
            with self.cond:
                # one that is blocked by another (a lock) does not come back: the next one goes on meanwhile
                self.cond.wait_for(lambda: self.state[k] != "running", timeout=0.05)
        else:
            return None
        [t.join(5) for t in ts]
        return out
