"""
A stand-in for the Pulumi CLI and for time, under a scheduler.

``Sim`` replaces subprocess.Popen by a scripted process, and makes every step of it, every read of the
files it writes, every sleep, wait and join of the threads of the code under test a scheduling point:
exactly one of {main thread, threads it started, the CLI process} runs at a time, and the chooser says
which.  Time is virtual: a step of the CLI takes any amount of it.
"""
import builtins
import io
import os
import subprocess
import tempfile
import threading
import time

from . import core

FAST = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None  # where scratch files cost least

_real_open = io.open
_real_sleep = time.sleep
_Thread_start = threading.Thread.start
_Thread_join = threading.Thread.join
_RealEvent = threading.Event
_real_monotonic = time.monotonic
_real_time = time.time
_RealPopen = subprocess.Popen


class _Rec:
    __slots__ = ("name", "thread", "pred", "deadline", "sleeping", "done", "seen", "idle", "raw")

    def __init__(self, name, thread):
        self.name = name
        self.thread = thread
        self.pred = None
        self.deadline = None
        self.sleeping = False
        self.done = False
        self.seen = -1  # progress counter when it last went to sleep
        self.idle = 0  # sleeps in a row without any progress in between
        self.raw = 0


class Sim:
    """cli(argv, cwd, env, sim) -> list of steps of the process: ("log", bytes) ("out", bytes) ("exit", code, stderr) ("fail", exception)"""

    def __init__(self, chooser, cli, scratch):
        self.chooser = chooser
        self.cli = cli
        self.scratch = scratch
        self.clock = 0.0
        self.cv = threading.Condition()
        self.recs = {}
        self.order = []
        self.current = None
        self.procs = []
        self.progress = 0
        self.real_progress = 0
        self.error = None
        self.deadlock = False
        self.forced = 0
        self.points = 0
        self.calls = []
        self.steps = 0
        self.sees = ("read", "poll", "is_set")
        self.fresh = False  # something was read since the last look at an event
        self.late = []  # threads that had to be ended by force

    # -- scheduling

    def me(self):
        return self.recs.get(threading.get_ident())

    def active(self):
        r = self.recs.get(threading.get_ident())
        return r if r is not None and not r.raw else None

    def _enabled(self, me, label):
        """The actors that can go on, the default first."""
        first, rest, woken = [], [], []
        deadlines = [r.deadline for r in self.order if not r.done and r.deadline is not None]
        earliest = min(deadlines) if deadlines else None
        for r in self.order:
            if r.done:
                continue
            if r.pred is not None and not r.pred():
                if r.deadline is None or r.deadline > self.clock:
                    # a deadline passes only when nothing else with an earlier one is left, and a poll that saw nothing new is not repeated
                    if r.sleeping and r.deadline == earliest and r.idle < 1:
                        woken.append(r)
                    continue
            (first if r is me else rest).append(r)
        procs = [p for p in self.procs if p.steps]
        # a step of the CLI matters only to what reads what it wrote
        if label in self.sees or not (first + rest + woken):
            return first + procs + rest + woken
        return first + rest + woken

    def _pick(self, me, label):
        """Runs under the lock; hands the baton on."""
        while True:
            self.points += 1
            if self.points > 20000:
                self.error = core.Livelock("too many steps")
                self.cv.notify_all()
                raise core.HarnessError("too many steps")
            en = self._enabled(me, label)
            if not en:
                ds = [r for r in self.order if not r.done and r.deadline is not None]
                if not ds:
                    if all(r.done for r in self.order):
                        self.current = None
                        return
                    self.deadlock = True
                    self.error = core.HarnessError("deadlock")
                    self.cv.notify_all()
                    raise self.error
                nxt = min(ds, key=lambda r: r.deadline)
                en = [nxt]
            try:
                c = self.chooser.choose(len(en), "sched", label + ":" + "|".join(a.name for a in en))
            except core.HarnessError as e:
                self.error = e
                self.cv.notify_all()
                raise
            a = en[c]
            if isinstance(a, FakePopen):
                self.progress += 1
                a.step()
                while label == "is_set" and a.steps:  # only the end of the process can make a difference to an event
                    a.step()
                continue
            if a.deadline is not None and not (a.pred is not None and a.pred()):
                self.clock = max(self.clock, a.deadline)
            a.pred = None
            a.deadline = None
            a.sleeping = False
            self.current = a
            if a is not me:
                self.cv.notify_all()
            return

    def _await(self, me):
        last, since = self.real_progress, _real_monotonic()
        while self.current is not me and self.error is None:
            if not self.cv.wait(0.25):
                if self.real_progress != last:
                    last, since = self.real_progress, _real_monotonic()
                elif _real_monotonic() - since > 2 and (me.pred is None or me.pred() or me.deadline is not None):
                    self.forced += 1
                    me.pred = me.deadline = None
                    self.current = me
        if self.error is not None:
            raise core.HarnessError("abandoned")

    def point(self, label):
        me = self.active()
        if me is None:
            return
        with self.cv:
            if self.error is not None:
                raise core.HarnessError("abandoned")
            self.real_progress += 1
            if self.current is not me:
                self._await(me)
            self._pick(me, label)
            if self.current is not me:
                self._await(me)

    def block(self, pred, timeout, label, sleeping=False):
        """Until pred() or the virtual timeout; returns whether pred() held."""
        me = self.active()
        if me is None:
            return pred()
        with self.cv:
            if self.error is not None:
                raise core.HarnessError("abandoned")
            self.real_progress += 1
            if self.current is not me:
                self._await(me)
            me.pred = pred
            me.deadline = None if timeout is None else self.clock + max(0.0, timeout)
            me.sleeping = sleeping
            if sleeping:
                me.idle = me.idle + 1 if me.seen == self.progress else 0
                me.seen = self.progress
            self._pick(None, label)
            if self.current is not me:
                self._await(me)
            return pred()

    def changed(self):
        self.progress += 1

    # -- running

    def _register(self, name, thread):
        r = _Rec(name, thread)
        self.recs[threading.get_ident()] = r
        self.order.append(r)
        return r

    def run(self, func):
        """Runs func() in this thread with everything replaced; then lets the threads it started end, if they do within a (virtual) minute."""
        main = self._register("main", threading.current_thread())
        self.current = main
        self._patch()
        try:
            try:
                return func()
            finally:
                self.at_end = [r.name for r in self.order if r is not main and not r.done]
                if self.error is None:
                    try:
                        self.block(lambda: all(r.done for r in self.order if r is not main), 60.0, "end")
                    except core.HarnessError:
                        if not self.deadlock:
                            raise
                self.late = [r.name for r in self.order if r is not main and not r.done]
        finally:
            with self.cv:
                main.done = True
                if self.error is None:
                    self.error = core.HarnessError("over")
                    self.over = True
                self.cv.notify_all()
            main.raw += 1
            for r in self.order:
                if r is not main and r.thread is not None:
                    _Thread_join(r.thread, 5)
            self._unpatch()
            if isinstance(self.error, (core.Diverged,)):
                raise self.error

    # -- replacements

    def _patch(self):
        sim = self

        def start(thread):
            me = sim.active()
            if me is None:
                return _Thread_start(thread)
            run = thread.run
            ready = []
            holder = {}

            def body():
                with sim.cv:
                    r = sim._register(f"t{len(sim.order)}", thread)
                    holder["rec"] = r
                    ready.append(1)
                    sim.cv.notify_all()
                try:
                    with sim.cv:
                        sim._await(r)
                    run()
                except core.HarnessError:
                    pass
                finally:
                    with sim.cv:
                        r.done = True
                        sim.recs.pop(threading.get_ident(), None)  # identifiers are used again
                        sim.progress += 1
                        sim.real_progress += 1
                        if sim.error is None and sim.current is r:
                            try:
                                sim._pick(None, "thread-end")
                            except core.HarnessError:
                                pass
                        sim.cv.notify_all()

            thread.run = body
            me.raw += 1
            try:
                _Thread_start(thread)
            finally:
                me.raw -= 1
            with sim.cv:
                while not ready:
                    sim.cv.wait(0.1)

        def join(thread, timeout=None):
            me = sim.active()
            rec = next((r for r in sim.order if r.thread is thread), None)
            if me is None or rec is None:
                return _Thread_join(thread, timeout)
            if sim.block(lambda: rec.done, timeout, "join"):
                me.raw += 1
                try:
                    _Thread_join(thread, 5)
                finally:
                    me.raw -= 1

        class Event(_RealEvent):
            def set(self):
                sim.point("set")
                super().set()
                sim.changed()

            def clear(self):
                sim.point("clear")
                super().clear()
                sim.changed()

            def is_set(self):
                if sim.fresh or not sim.active():
                    sim.fresh = False
                    sim.point("is_set")
                return super().is_set()

            def wait(self, timeout=None):
                me = sim.active()
                if me is None:
                    return super().wait(timeout)
                return sim.block(lambda: _RealEvent.is_set(self), timeout, "wait", sleeping=timeout is not None)

        def sleep(seconds):
            if sim.active() is None:
                return _real_sleep(seconds)
            sim.block(lambda: False, seconds, "sleep", sleeping=True)

        def fake_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            try:
                path = os.fspath(file) if not isinstance(file, int) else ""
            except TypeError:
                path = ""
            if sim.active() is not None and isinstance(path, str) and path.startswith(sim.scratch) and set(mode) <= set("rbt"):
                sim.point("read")
                raw = _HookRaw(path, sim)
                if buffering == 0:
                    return raw
                buf = io.BufferedReader(raw)
                if "b" in mode:
                    return buf
                return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

        class Popen(FakePopen):
            def __new__(cls, *a, **k):
                return object.__new__(cls)

            def __init__(self, *a, **k):
                super().__init__(sim, *a, **k)

        def mono():
            return sim.clock + 1000.0 if sim.active() is not None else _real_monotonic()

        def now():
            return sim.clock + 1.6e9 if sim.active() is not None else _real_time()

        self._saved = (threading.excepthook, tempfile.tempdir)
        self.thread_errors = []
        threading.excepthook = lambda a: sim.thread_errors.append(a.exc_value)
        tempfile.tempdir = self.scratch
        threading.Thread.start = start
        threading.Thread.join = join
        threading.Event = Event
        time.sleep = sleep
        time.monotonic = mono
        time.time = now
        builtins.open = fake_open
        io.open = fake_open
        subprocess.Popen = Popen

    def _unpatch(self):
        threading.excepthook, tempfile.tempdir = self._saved
        threading.Thread.start = _Thread_start
        threading.Thread.join = _Thread_join
        threading.Event = _RealEvent
        time.sleep = _real_sleep
        time.monotonic = _real_monotonic
        time.time = _real_time
        builtins.open = _real_open
        io.open = _real_open
        subprocess.Popen = _RealPopen


class _HookRaw(io.FileIO):
    def __init__(self, path, sim):
        super().__init__(path, "r")
        self.sim = sim

    def readinto(self, b):
        self.sim.point("read")
        self.sim.fresh = True
        n = super().readinto(b)
        if n:
            self.sim.changed()
        return n

    def read(self, n=-1):
        self.sim.point("read")
        self.sim.fresh = True
        return super().read(n)

    def readall(self):
        self.sim.point("read")
        self.sim.fresh = True
        return super().readall()


class _Pipe(io.RawIOBase):
    def __init__(self, proc):
        self.proc = proc
        self.data = b""
        self.ended = False

    def readable(self):
        return True

    def readinto(self, b):
        p = self.proc
        if not self.data and not self.ended:
            p.sim.block(lambda: bool(self.data) or self.ended, None, "pipe")
        n = min(len(b), len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


class FakePopen:
    """What the SDK could use of a process."""

    name = "cli"

    def __init__(self, sim, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, text=None, encoding=None, errors=None, **kw):
        self.sim = sim
        self.args = args
        self.returncode = None
        self._code = None
        self.pid = 4242
        call = {"argv": list(args) if not isinstance(args, str) else args, "cwd": None if cwd is None else str(cwd), "env": dict(os.environ if env is None else env), "shell": bool(shell)}
        sim.calls.append(call)
        script = list(sim.cli(call, sim))
        if script and script[0][0] == "fail":
            raise script[0][1]
        self._err = stderr
        self._errdata = b""
        self._log = next((a for k, a in zip(call["argv"], call["argv"][1:]) if k == "--event-log"), None)
        self._logfd = None
        self._pout = _Pipe(self)
        self._perr = _Pipe(self)
        textmode = text or encoding or errors or universal_newlines

        def wrap(p):
            b = io.BufferedReader(p)
            return io.TextIOWrapper(b, encoding=encoding, errors=errors) if textmode else b

        self._textmode = textmode
        self.stdout = wrap(self._pout) if stdout == subprocess.PIPE else None
        self.stderr = wrap(self._perr) if stderr == subprocess.PIPE else None
        self.stdin = None
        self._out = stdout
        self.steps = script
        sim.procs.append(self)
        if len(script) == 1 or sim.active() is None or all(s[0] == "out" for s in script[:-1]) and not self._log:
            while self.steps:  # nothing another actor could see in between
                self.step()

    def step(self):
        k, *a = self.steps.pop(0)
        if k == "log":
            if self._logfd is None:
                self._logfd = os.open(self._log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.write(self._logfd, a[0])
        elif k == "out":
            if self._out == subprocess.PIPE:
                self._pout.data += a[0]
            elif hasattr(self._out, "write"):
                self._out.write(a[0])
        elif k == "exit":
            self._code = a[0]
            if self._logfd is not None:
                os.close(self._logfd)
                self._logfd = None
            err = a[1]
            if err:
                if self._err == subprocess.PIPE:
                    self._perr.data += err
                elif self._err == subprocess.STDOUT:
                    self._pout.data += err
                elif hasattr(self._err, "fileno"):
                    os.write(self._err.fileno(), err)
            self._pout.ended = self._perr.ended = True
            self.steps = []
        else:
            raise core.HarnessError(f"unknown step {k}")

    def poll(self):
        if self._code is None:
            self.sim.point("poll")
        if self._code is not None:
            self.returncode = self._code
        return self.returncode

    def wait(self, timeout=None):
        if self._code is None and not self.sim.block(lambda: self._code is not None, timeout, "wait"):
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        self.wait(timeout)
        return out, err

    def kill(self):
        if self._code is None:
            self.steps = [("exit", -9, b"")]

    def terminate(self):
        if self._code is None:
            self.steps = [("exit", -15, b"")]

    def send_signal(self, sig):
        if self._code is None:
            self.steps = [("exit", -int(sig), b"")]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdout:
            self.stdout.close()
        if self.stderr:
            self.stderr.close()
        self.wait()
        return False


class Direct:
    """Answers the commands of the code under test at once: no scheduling, real time."""

    def __init__(self, cli):
        self.cli = cli
        self.calls = []
        self.procs = []

    def active(self):
        return None

    def point(self, label):
        pass

    def block(self, pred, timeout, label, sleeping=False):
        return pred()

    def __enter__(self):
        sim = self

        class Popen(FakePopen):
            def __init__(self, *a, **k):
                super().__init__(sim, *a, **k)

        self._saved = subprocess.Popen
        subprocess.Popen = Popen
        return self

    def __exit__(self, *a):
        subprocess.Popen = self._saved
        return False
