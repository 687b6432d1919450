"""Preemptive exploration of programs that run in several real threads: one thread holds the baton, and gives it away where the chooser says."""
import os
import sys
import threading
import time

from . import core


class Baton:
    def __init__(self, chooser, kind="switch"):
        self.chooser = chooser
        self.kind = kind
        self.first = None
        self.cv = threading.Condition()
        self.threads = []
        self.done = set()
        self.current = None
        self.progress = 0
        self.points = 0
        self.forced = 0
        self.error = None
        self.ident = {}

    def me(self):
        return self.ident.get(threading.get_ident())

    def point(self, label):
        me = self.me()
        if me is None or self.error is not None:
            return
        with self.cv:
            self.progress += 1
            self.points += 1
            if self.current != me:  # the baton was taken from us while we were blocked
                self._wait(me)
            others = [t for t in range(len(self.threads)) if t != me and t not in self.done]
            if not others:
                return
            try:
                c = self.chooser.choose(1 + len(others), self.kind, label)
            except core.HarnessError as e:
                self.error = e
                self.cv.notify_all()
                raise
            if c:
                self.current = others[c - 1]
                self.cv.notify_all()
                self._wait(me)

    def _wait(self, me):
        last, since = self.progress, time.monotonic()
        while self.current != me and self.error is None:
            if not self.cv.wait(0.25):
                if self.progress != last:
                    last, since = self.progress, time.monotonic()
                elif time.monotonic() - since > 1.5:
                    # the holder is blocked on something we hold
                    self.forced += 1
                    self.current = me
        if self.error is not None:
            raise core.HarnessError("abandoned")

    def run(self, funcs, timeout=60, trace=None):
        """Runs the functions, each in a thread of its own (with an empty context); False if they did not all end."""

        def body(k, f):
            self.ident[threading.get_ident()] = k
            try:
                with self.cv:
                    self._wait(k)
                if trace is not None:
                    sys.settrace(trace)
                f()
            except core.HarnessError as e:
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.progress += 1
                    self.done.add(k)
                    left = [t for t in range(len(funcs)) if t not in self.done]
                    if left and self.current == k:
                        self.current = left[0]
                    self.cv.notify_all()

        first = self.first if self.first is not None else self.chooser.choose(len(funcs), "first", "first")
        self.threads = [threading.Thread(target=body, args=(k, f), daemon=True) for k, f in enumerate(funcs)]
        for t in self.threads:
            t.start()
        with self.cv:
            self.current = first
            self.cv.notify_all()
        end = time.monotonic() + timeout
        for t in self.threads:
            t.join(max(0.1, end - time.monotonic()))
        if self.error is not None:
            raise self.error
        return not any(t.is_alive() for t in self.threads)


def tracer(baton, root, fine=(), skip=(), calls=True, first=None):
    """A trace function that makes every call of a function under ``root`` (unless calls=False) and every line of the files in ``fine``, a point.

    first: only the first executions of each line in each thread, that many."""
    count = {}

    def line(frame, event, arg):
        if event == "line":
            if first is not None:
                key = (baton.me(), frame.f_code, frame.f_lineno)
                n = count[key] = count.get(key, 0) + 1
                if n > first:
                    return line
            baton.point(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
        return line

    cache = {}

    def call(frame, event, arg):
        fn = frame.f_code.co_filename
        k = cache.get(fn)
        if k is None:
            rel = os.path.relpath(fn, root) if fn.startswith(root) else ""
            k = cache[fn] = 0 if not rel or any(rel.startswith(s) for s in skip) else 2 if rel in fine else 1
        if k == 0:
            return None
        if calls or k == 2 and first is None:
            baton.point(f"{os.path.basename(fn)}:{frame.f_code.co_name}")
        return line if k == 2 else None

    return call
