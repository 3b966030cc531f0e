"""A controlled scheduler: real threads on the real code, exactly one running, switched at chosen steps.

A step is a line (or, with fine=True, a bytecode) of pymt, an access to the node storage or to an attribute of the
trie object. A schedule is a list of segments (thread, number of steps or None for "to its end"); threads that are left
over run to their end in order. The same schedule on the same input gives the same execution.
"""
import sys
import threading
from .common import SRC

BLOCKED_S = 0.4


class Run:
    def __init__(self, fns, segments, lines=True, fine=False):
        self.fns, self.segments, self.lines, self.fine = fns, list(segments), lines, fine
        self.n = len(fns)
        self.go = [threading.Semaphore(0) for _ in fns]
        self.finished = [False] * self.n
        self.results = [None] * self.n
        self.count = [0] * self.n
        self.budget = None
        self.seg = -1
        self.done = threading.Event()
        self.free = False
        self.ids = {}

    def step(self, tid=None):
        if tid is None:
            tid = self.ids.get(threading.get_ident())
        if tid is None or self.free:
            return
        self.count[tid] += 1
        if self.budget is None:
            return
        if self.budget == 0:
            if self.switch():
                self.go[tid].acquire()
                if self.free or self.budget is None:
                    return
        if self.budget:
            self.budget -= 1

    def switch(self, me=None):
        """Give the turn to the next segment's thread; False if there is nobody else."""
        while True:
            self.seg += 1
            if self.seg < len(self.segments):
                t, b = self.segments[self.seg]
            else:
                left = [i for i in range(self.n) if not self.finished[i]]
                if not left:
                    self.done.set()
                    return False
                t, b = left[0], None
            if not self.finished[t]:
                break
        self.budget = b
        self.go[t].release()
        return True

    def _body(self, tid):
        self.ids[threading.get_ident()] = tid
        self.go[tid].acquire()
        fine = self.fine

        def last():
            # this thread runs to its end from here: nothing left to control
            return self.segments and self.budget is None and all(t != tid for t, _ in self.segments[self.seg + 1:])

        kind = "opcode" if fine else "line"

        def local(frame, event, arg):
            if event == kind:
                self.step(tid)
                if last():
                    sys.settrace(None)
                    return None
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                if fine:
                    frame.f_trace_opcodes = True
                return local
            return None

        if self.lines and not last():
            sys.settrace(tracer)
        try:
            self.results[tid] = ("ok", self.fns[tid]())
        except Exception as e:
            self.results[tid] = ("raised", type(e).__name__)
        finally:
            sys.settrace(None)
        self.finished[tid] = True
        if not self.free:
            self.switch()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.switch()
        if not self.done.wait(BLOCKED_S):
            # the running thread waits for one that is not running (a lock): let all of them run
            self.free = True
            for g in self.go:
                for _ in range(3):
                    g.release()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            self.results = [r or ("hangs", None) for r in self.results]
        return self.results


class WatchedDict(dict):
    """Node storage whose accesses are steps."""
    run = None

    def _s(self):
        if self.run is not None:
            self.run.step()

    def __getitem__(self, k):
        self._s()
        v = dict.__getitem__(self, k)
        self._s()
        return v

    def __setitem__(self, k, v):
        self._s()
        dict.__setitem__(self, k, v)
        self._s()

    def __delitem__(self, k):
        self._s()
        dict.__delitem__(self, k)

    def __contains__(self, k):
        self._s()
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        self._s()
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self._s()
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        self._s()
        return dict.setdefault(self, k, d)

    def update(self, *a, **k):
        self._s()
        dict.update(self, *a, **k)

    def clear(self):
        self._s()
        dict.clear(self)


_watched = {}


def watched_class(cls):
    """A subclass whose instance-attribute reads and writes are steps."""
    if cls not in _watched:
        class W(cls):
            _w_run = None

            def __getattribute__(self, name):
                if not name.startswith("__") and name != "_w_run":
                    d = object.__getattribute__(self, "__dict__")
                    if name in d:
                        r = object.__getattribute__(self, "_w_run")
                        if r is not None:
                            r.step()
                return object.__getattribute__(self, name)

            def __setattr__(self, name, value):
                r = object.__getattribute__(self, "_w_run")
                if r is not None and name != "_w_run":
                    r.step()
                object.__setattr__(self, name, value)
        W.__name__ = cls.__name__
        _watched[cls] = W
    return _watched[cls]
