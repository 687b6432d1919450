"""
Core of the model-checking machinery.

* ``Chooser``        records / replays the sequence of nondeterministic choices of one execution.
* ``explore``        deviation-bounded stateless exploration: re-executes the real code for every
                     choice sequence whose deviations from the default answers stay within the
                     budget of each choice kind.
* ``ControlledLoop`` an asyncio event loop in which *every* executor job (that is: every RPC the
                     SDK makes) is parked, and the scheduler decides when its result is delivered;
                     it also works re-entrantly (``_sync_await`` pumps ``_run_once`` by hand), and
                     it turns "nothing can ever happen again" into an explicit Deadlock verdict.
* ``run_program``    one execution of a Pulumi program against a fake engine under a chooser.
"""
import asyncio
import collections
import contextvars
import functools
import gc
import os
import signal
import sys
import threading


# ---------------------------------------------------------------------------------------------
# verdict exceptions


class HarnessError(BaseException):
    """The machinery itself is broken (replay divergence and the like)."""


class Diverged(HarnessError):
    """The same choices led to another execution: something outlived an earlier execution, or is random."""


DIVERGED = []  # of this process


class Deadlock(BaseException):
    """No callback is ready, no RPC outstanding, no timer armed: the program can never progress."""


class Livelock(BaseException):
    """Step horizon exceeded."""


# ---------------------------------------------------------------------------------------------
# choices


class Chooser:
    def __init__(self, prefix=(), expect=None):
        self.prefix = list(prefix)
        self.expect = expect  # labels recorded by the parent execution for the prefix
        self.trace = []  # (n, choice, kind, label)

    def choose(self, n, kind, label=""):
        if n <= 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if i < len(self.prefix):
            if c >= n:
                raise Diverged(
                    f"replay diverged at choice {i}: {c} of {n} ({kind}:{label})"
                )
            if self.expect is not None and i < len(self.expect):
                if self.expect[i] != (n, kind, label):
                    raise Diverged(
                        f"replay diverged at choice {i}: expected {self.expect[i]}, got {(n, kind, label)}"
                    )
        self.trace.append((n, c, kind, label))
        return c

    @property
    def choices(self):
        return [t[1] for t in self.trace]


def explore(run, budget, max_runs=None, shard=None):
    """
    shard=(k, n): only the k-th of n parts of the executions, divided by where their first deviation lies.
    run(chooser) -> result.  Yields (chooser, result) for every execution within the budget.
    budget: {kind: max number of non-default choices of that kind}; "*" = total over all kinds.
    A kind missing from the budget is free (all alternatives are explored).
    """
    stack = [((), None)]
    runs = 0
    while stack:
        prefix, expect = stack.pop()
        ch = Chooser(prefix, expect)
        try:
            res = run(ch)
            runs += 1
            if len(ch.trace) < len(prefix):
                raise Diverged("replay diverged: execution ended inside its prefix")
        except Diverged as e:
            DIVERGED.append(str(e))
            continue
        if prefix or shard is None or shard[0] == 0:
            yield ch, res
        if max_runs is not None and runs >= max_runs:
            if stack:
                yield None, len(stack)
            return
        used = collections.Counter()
        for (n, c, kind, label) in ch.trace[: len(prefix)]:
            if c:
                used[kind] += 1
                used["*"] += 1
        labels = [(n, kind, label) for (n, c, kind, label) in ch.trace]
        choices = ch.choices
        new = []
        for i in range(len(prefix), len(ch.trace)):
            n, c, kind, label = ch.trace[i]
            if not prefix and shard is not None and i % shard[1] != shard[0]:
                continue
            if kind in budget and used[kind] + 1 > budget[kind]:
                continue
            if "*" in budget and used["*"] + 1 > budget["*"]:
                continue
            for alt in range(1, n):
                new.append((tuple(choices[:i]) + (alt,), labels[: i + 1]))
        stack.extend(reversed(new))


# ---------------------------------------------------------------------------------------------
# controlled event loop


CURRENT = threading.local()  # .sched: scheduler whose loop runs in this thread


class Pending:
    __slots__ = ("fut", "label", "outcome", "seq", "auto")

    def __init__(self, fut, label, outcome, seq, auto):
        self.fut = fut
        self.label = label
        self.outcome = outcome
        self.seq = seq
        self.auto = auto


class Scheduler:
    """Decides when parked executor results are delivered."""

    def __init__(self, chooser, early=False, horizon=60000):
        self.chooser = chooser
        self.pending = []
        self.early = early
        self.horizon = horizon
        self.steps = 0
        self.seq = 0
        self.dead = None
        self.delivered = []
        self.current_label = None
        self.submitted = 0
        self.on_idle = None
        self.clock = 0.0
        self.auto_labels = ("SupportsFeature",)
        self.executor = None  # runs an executor job; default: here, in an empty context

    def submit(self, loop, fut, func):
        # The request reaches the engine now; its answer is delivered when the explorer says so.
        self.seq += 1
        self.submitted += 1
        self.current_label = None
        CURRENT.sched = self
        try:
            # executor threads do not inherit the context of the submitter
            outcome = (True, (self.executor or contextvars.Context().run)(func))
        except StopIteration as e:  # cannot be set on a future
            outcome = (False, RuntimeError(f"StopIteration: {e}"))
        except (HarnessError, KeyboardInterrupt, _CaseTimeout):
            raise
        except BaseException as e:  # noqa
            outcome = (False, e)
        label = self.current_label or "job"
        self.current_label = None
        auto = label.split(" ")[0] in self.auto_labels
        self.pending.append(Pending(fut, label, outcome, self.seq, auto))

    def deliver(self, p):
        self.pending.remove(p)
        self.delivered.append(p.label)
        if p.fut.done():
            return
        ok, v = p.outcome
        if ok:
            p.fut.set_result(v)
        else:
            p.fut.set_exception(v)

    def _autos(self):
        did = False
        for p in [p for p in self.pending if p.auto]:
            self.deliver(p)
            did = True
        return did

    def idle(self, loop):
        """Nothing is ready to run."""
        if self._autos():
            return
        live = [p for p in self.pending if not p.fut.done()]
        for p in [p for p in self.pending if p.fut.done()]:
            self.pending.remove(p)
        if self.on_idle is not None:
            self.on_idle(self)
        if live:
            c = self.chooser.choose(len(live), "order", "|".join(p.label for p in live))
            self.deliver(live[c])
            return
        if loop._scheduled:
            when = min(h._when for h in loop._scheduled)
            self.clock = max(self.clock, when)
            return
        self.dead = Deadlock()
        raise self.dead

    def busy(self, loop):
        if not self.early:
            return
        live = [p for p in self.pending if not p.fut.done() and not p.auto]
        if live:
            c = self.chooser.choose(
                1 + len(live), "early", "|".join(p.label for p in live)
            )
            if c:
                self.deliver(live[c - 1])


class _Task(asyncio.Task):
    """A task whose hash, hence the iteration order of sets of tasks, is a function of the execution."""

    __slots__ = ("mc_seq",)

    def __hash__(self):
        try:
            h = self.mc_seq
        except AttributeError:
            _hash_state["task"] += 1
            h = self.mc_seq = _hash_state["task"] if _hash_state["sign"] > 0 else (1 << 20) - _hash_state["task"]
        return h


def _make_task(loop, coro, **kw):
    return _Task(coro, loop=loop, **kw)


class ControlledLoop(asyncio.SelectorEventLoop):
    def __init__(self, sched):
        self.sched = sched
        super().__init__()
        self.set_task_factory(_make_task)
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

    def time(self):
        return self.sched.clock if hasattr(self, "sched") else 0.0

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self.sched.submit(self, fut, functools.partial(func, *args))
        return fut

    def _run_once(self):
        s = self.sched
        if s.dead is not None:
            raise s.dead
        s.steps += 1
        if s.steps > s.horizon:
            s.dead = Livelock(f"more than {s.horizon} loop steps")
            raise s.dead
        if not self._ready and not self._stopping:
            s.idle(self)
        else:
            s.busy(self)
        super()._run_once()

    def drain(self, limit=5000):
        """Deliver everything and run until nothing can happen any more."""
        s = self.sched
        s.early = False
        n = 0
        while n < limit:
            n += 1
            if not self._ready:
                s._autos()
                live = [p for p in s.pending if not p.fut.done()]
                s.pending = live
                if live:
                    s.deliver(live[0])
                elif self._scheduled:
                    s.clock = max(s.clock, min(h._when for h in self._scheduled))
                elif not self._ready:
                    return True
            s.dead = None
            asyncio.events._set_running_loop(self)
            try:
                asyncio.SelectorEventLoop._run_once(self)
            finally:
                asyncio.events._set_running_loop(None)
        return False


class ControlledPolicy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, sched):
        super().__init__()
        self.sched = sched
        self.loops = []

    def new_event_loop(self):
        loop = ControlledLoop(self.sched)
        self.loops.append(loop)
        return loop


class _CaseTimeout(BaseException):
    pass


class watchdog:
    """Turns a pure-python endless loop into an exception (main thread of a worker only)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        if threading.current_thread() is threading.main_thread():
            self.old = signal.signal(signal.SIGALRM, self._fire)
            signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)
        return self

    @staticmethod
    def _fire(*_):
        raise _CaseTimeout()

    def __exit__(self, *a):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


# ---------------------------------------------------------------------------------------------
# deterministic hashing of Resource objects (sets of resources iterate in this order)

_hash_state = {"next": 0, "sign": 1, "task": 0}


def _res_hash(self):
    d = self.__dict__
    h = d.get("__mc_seq")
    if h is None:
        _hash_state["next"] += 1
        h = d["__mc_seq"] = _hash_state["next"]
    s = _hash_state["sign"]
    # Small ints hash to themselves, so a small set iterates in (wrapped) hash order.
    return h if s > 0 else (64 - h) & 63


def install_resource_hash():
    import pulumi

    pulumi.Resource.__hash__ = _res_hash


def reset_hash(sign=1):
    _hash_state["next"] = 0
    _hash_state["task"] = 0
    _hash_state["sign"] = sign


# ---------------------------------------------------------------------------------------------
# fake engine

import grpc  # noqa: E402


class FakeRpcError(grpc.RpcError):
    def __init__(self, code, details):
        super().__init__(details)
        self._code = code
        self._details = details

    def code(self):
        return self._code

    def details(self):
        return self._details


class Outcome:
    """Result of one execution."""

    def __init__(self):
        self.verdict = None  # ok | error | deadlock | livelock | timeout
        self.exc = None
        self.value = None
        self.trace = None
        self.sched = None
        self.loop = None
        self.unhandled = []
        self.extra = {}

    def __repr__(self):
        return f"<{self.verdict} {self.exc!r}>"


def clean_globals():
    """Reset the module-level state of the SDK that survives an execution."""
    from pulumi.runtime import rpc_manager

    mgr = getattr(rpc_manager, "RPC_MANAGER", None)
    if mgr is not None and hasattr(mgr, "clear"):
        mgr.clear()


def fresh_settings(monitor, engine=None, dry_run=False, project="proj", stack="stk", legacy=False, organization="org"):
    import pulumi.runtime.settings as st

    s = st.Settings(
        project=project,
        stack=stack,
        monitor=monitor,
        engine=engine,
        parallel=4,
        dry_run=dry_run,
        legacy_apply_enabled=legacy,
        organization=organization,
    )
    st.configure(s)
    st.set_root_resource(None)
    return s


def run_loop(main, chooser, *, early=False, horizon=60000, settle=True, hash_sign=1, timeout=60, setup=None):
    """
    Runs coroutine function ``main`` to completion on a fresh controlled loop in a fresh context.
    main(out) -> value.
    """
    out = Outcome()

    def inner():
        sched = Scheduler(chooser, early=early, horizon=horizon)
        out.sched = sched
        reset_hash(hash_sign)
        policy = ControlledPolicy(sched)
        oldpolicy = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(policy)
        loop = policy.new_event_loop()
        asyncio.set_event_loop(loop)
        out.loop = loop
        clean_globals()
        try:
            with watchdog(timeout):
                try:
                    if setup is not None:
                        setup(out)
                    out.value = loop.run_until_complete(main(out))
                    out.verdict = "ok"
                except (HarnessError, KeyboardInterrupt):
                    raise
                except Deadlock as e:
                    out.verdict, out.exc = "deadlock", e
                except Livelock as e:
                    out.verdict, out.exc = "livelock", e
                except _CaseTimeout as e:
                    out.verdict, out.exc = "timeout", e
                except Exception as e:  # noqa
                    out.verdict, out.exc = "error", e
                except BaseException as e:  # noqa
                    out.verdict, out.exc = "error", e
                if sched.dead is not None and out.verdict in ("ok", "error"):
                    out.verdict = "deadlock" if isinstance(sched.dead, Deadlock) else "livelock"
                if settle and out.verdict in ("ok", "error", "deadlock"):
                    out.extra["submitted_at_end"] = sched.submitted
                    out.extra["pending_at_end"] = [p.label for p in sched.pending]
                    out.extra["delivered_at_end"] = len(sched.delivered)
                    out.extra["drained"] = loop.drain()
                    if "on_settled" in out.extra:
                        out.extra["on_settled"]()
        finally:
            for lp in policy.loops:
                try:
                    if not lp.is_closed():
                        for t in asyncio.all_tasks(lp):
                            t._log_destroy_pending = False
                            t.cancel()
                        sched.dead = None
                        sched.early = False
                        for _ in range(20):
                            if not lp._ready:
                                break
                            asyncio.events._set_running_loop(lp)
                            try:
                                asyncio.SelectorEventLoop._run_once(lp)
                            except BaseException:  # noqa
                                pass
                            finally:
                                asyncio.events._set_running_loop(None)
                        lp.close()
                except BaseException:  # noqa
                    pass
            asyncio.set_event_loop(None)
            asyncio.set_event_loop_policy(oldpolicy)
            clean_globals()
        out.unhandled = [u for lp in policy.loops for u in lp.unhandled]

    ctx = contextvars.Context()
    ctx.run(inner)
    out.trace = chooser.trace
    return out
