"""A controlled scheduler: two threads of real code, one running at a time.

Every executed line of the library (sys.monitoring LINE events) is a point at
which the running thread can be stopped and the other one continued, so a
schedule is a list of line counts and can be replayed exactly.
"""
from __future__ import annotations

import os
import sys
import threading
import time

M = sys.monitoring
TOOL = 3
ROOT = os.path.join(os.path.realpath(os.environ.get("VPMC_REPO", "/repo")), "dascore") + os.sep
BLOCKED = 0.06  # s asleep without using any CPU after which a thread is taken to wait for the other one
OURS = {}
ACTIVE = []  # the runner, if any


def _line(code, line):
    if not ours(code):
        return M.DISABLE
    if ACTIVE:
        ACTIVE[0].on_line(code, line)


def watch(runner):
    """Instrument once (it is slow); only runs of a runner are looked at."""
    if M.get_tool(TOOL) is None:
        M.use_tool_id(TOOL, "vpmc-sched")
        M.register_callback(TOOL, M.events.LINE, _line)
        M.set_events(TOOL, M.events.LINE)
    ACTIVE[:] = [runner]


def ours(code, only=None):
    got = OURS.get(code)
    if got is None:
        path = os.path.realpath(code.co_filename)
        got = OURS[code] = path[len(ROOT) :] if path.startswith(ROOT) else ""
    return got if got and (only is None or got.startswith(only)) else ""


class Runner:
    """Run functions in threads which switch after given numbers of lines.

    `stops` are the lengths of the consecutive pieces: thread 0 runs stops[0]
    lines, thread 1 stops[1] lines, thread 0 stops[2] ...; after the last one
    the thread continued runs to its end, then the other one.
    """

    def __init__(self, funcs, stops=(), only=None):
        self.funcs, self.stops, self.only = funcs, list(stops), only
        self.go = [threading.Semaphore(0) for _ in funcs]
        self.results = [None] * len(funcs)
        self.done = [False] * len(funcs)
        self.lines = [0] * len(funcs)
        self.where = []
        self.piece, self.left = 0, (self.stops[0] if self.stops else None)
        self.current = 0
        self.blocked = False  # the current thread waited for something the stopped one has
        self.free = False  # the exploration is over
        self.native = {}
        self.parked = [False] + [True] * (len(funcs) - 1)
        self.needed = [None] * len(funcs)
        self.ident = {}
        self.guard = threading.Lock()

    # -- called in the running thread
    def on_line(self, code, line):
        name = ours(code, self.only)
        if not name:
            return
        me = self.ident.get(threading.get_ident())
        if me is None or self.free:
            return
        self.lines[me] += 1
        if me != self.current:
            # It got what it waited for while the other one runs: it stops
            # when it has left the function which needed it.
            frame = sys._getframe(2)
            while frame is not None:
                if frame is self.needed[me]:
                    return
                frame = frame.f_back
            self.needed[me] = None
            self.parked[me] = True
            self.go[me].acquire()
            return
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.where.append(f"{name}:{line}")
                self.switch(me)

    def switch(self, me):
        other = 1 - me
        if self.done[other]:
            self.left = None
            return
        self.piece += 1
        self.left = self.stops[self.piece] if self.piece < len(self.stops) else None
        self.current = other
        self.parked[me], self.parked[other] = True, False
        self.go[other].release()
        self.go[me].acquire()

    def finish(self, me):
        self.done[me] = True
        other = 1 - me
        if len(self.funcs) > 1 and not self.done[other] and not self.free:
            self.left = None
            self.current = other
            self.parked[other] = False
            self.go[other].release()

    def body(self, me):
        self.ident[threading.get_ident()] = me
        self.native[me] = threading.get_native_id()
        self.go[me].acquire()
        try:
            self.results[me] = ("ok", self.funcs[me]())
        except BaseException as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.results[me] = ("error", f"{type(e).__name__}: {str(e)[:300]} ({os.path.basename(tb.filename)}:{tb.lineno})")
        finally:
            self.finish(me)

    # -- the driver
    def run(self, timeout=120.0):
        watch(self)
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.funcs))]
        try:
            for t in threads:
                t.start()
            self.go[0].release()
            start, seen, since = time.monotonic(), None, time.monotonic()
            while not all(self.done):
                for t, d in zip(threads, self.done):
                    if not d:
                        t.join(0.01)
                        break
                now = time.monotonic()
                state = (self.current, tuple(self.done), self.work(self.current))
                if state != seen or state[-1] is None:
                    seen, since = state, now
                elif now - since > BLOCKED and not any(self.done) and self.parked[1 - self.current]:
                    # The stopped thread goes on; this one when it can.
                    frame = sys._current_frames().get(threads[self.current].ident)
                    while frame is not None and not ours(frame.f_code):
                        frame = frame.f_back
                    self.needed[self.current] = frame
                    self.blocked, self.left = True, None
                    self.current = 1 - self.current
                    self.parked[self.current] = False
                    self.go[self.current].release()
                if now - start > timeout:
                    raise TimeoutError(f"deadlock: {self.done} {self.lines}")
            for t in threads:
                t.join()
        finally:
            self.free = True
            for g in self.go:
                g.release()
            ACTIVE.clear()
        return self.results

    def work(self, k):
        """The CPU time a thread has used, None if it could run now."""
        try:
            base = f"/proc/self/task/{self.native[k]}/"
            with open(base + "stat") as f:
                stat = f.read().rsplit(")", 1)[1].split()
            if stat[0] != "S":
                return None
            if not os.path.exists(base + "schedstat"):
                return stat[11], stat[12]
            with open(base + "schedstat") as f:
                return f.read().split()[0]
        except (OSError, KeyError):
            return None
