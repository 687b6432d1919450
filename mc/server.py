"""Inline programs run by the automation API's LanguageServer against fake engines."""
import asyncio
import contextvars
import logging
import sys
import threading

import grpc

from . import core, engine as eng


class Cur:
    """Stands for Outcome where an engine looks for the scheduler: the one that submitted last in this thread."""

    @property
    def sched(self):
        return getattr(core.CURRENT, "sched", None)


class Policy(asyncio.DefaultEventLoopPolicy):
    """Every new loop gets a scheduler of its own: answers to a closed loop's requests are lost with it."""

    def __init__(self, make_sched):
        super().__init__()
        self.make_sched = make_sched
        self.loops = []

    def new_event_loop(self):
        loop = core.ControlledLoop(self.make_sched())
        self.loops.append(loop)
        return loop


def close_loops(policy):
    for lp in policy.loops:
        if lp.is_closed():
            continue
        try:
            for t in asyncio.all_tasks(lp):
                t._log_destroy_pending = False
                t.cancel()
            lp.sched.dead = None
            lp.sched.early = False
            for _ in range(20):
                if not lp._ready:
                    break
                asyncio.events._set_running_loop(lp)
                try:
                    asyncio.SelectorEventLoop._run_once(lp)
                except BaseException:  # noqa
                    pass
                finally:
                    asyncio.events._set_running_loop(None)
            lp.close()
        except BaseException:  # noqa
            pass


CODES = tuple(c.name for c in grpc.StatusCode if c not in (grpc.StatusCode.OK, grpc.StatusCode.UNAVAILABLE))


def rpc_trouble(spec, default):
    """The status and details of the gRPC error of a program or engine."""
    return (grpc.StatusCode[spec["code"]], spec["details"]) if "code" in spec else default


KEYS = ("proj:a", "proj:b", "other:c")

#                 config                                  secret keys
CONFIGS = {
    "none": ({}, []),
    "a": ({"proj:a": "1"}, []),
    "ab": ({"proj:a": "2", "proj:b": "s"}, ["proj:b"]),
    "sa": ({"proj:a": "3"}, ["proj:a"]),
    "c": ({"other:c": "z"}, []),
    "sx": ({}, ["proj:a"]),
}

OK_OUT = ("ok", "pending_ok", "empty", "setcfg", "exit0", "exitnone", "cancel_own")
FAIL_OUT = ("raise_start", "raise_end", "runerror", "rpcfail1", "rpcfail2", "unavail1", "unavail2", "apply_raise", "task_raise", "pending_fail", "pending_bad_cancel", "pending_bad_cancel2", "pending_swallow", "pending_slow", "pending_inv", "pending_inv_bad", "invoke_fail", "async_export",
            "exit1", "exitmsg", "runerror_empty", "raise_empty", "kbd", "raise_cancelled", "apply_exit1", "apply_kbd", "cancel_input", "apply_cancelled")
EITHER_OUT = ("raise_rpc_unavail",)
FAIL_RPC = ("raise_rpc",)
OUTS = OK_OUT + FAIL_OUT + FAIL_RPC + EITHER_OUT


def request(spec, i):
    from pulumi.runtime.proto import language_pb2

    cfg, sec = CONFIGS[spec["cfg"]]
    r = language_pb2.RunRequest(project=f"p{i}", stack=f"s{i}", monitor_address=f"m{i}", dryRun=bool(spec.get("dry")), parallel=4, organization=f"org{i}", configSecretKeys=sec)
    for k, v in cfg.items():
        r.config[k] = v
    if not spec.get("noengine"):
        r.args.append(f"e{i}")
    return r


def expected_reads(spec, i):
    cfg, sec = CONFIGS[spec["cfg"]]
    return {"project": f"p{i}", "stack": f"s{i}", "org": f"org{i}", "dry": bool(spec.get("dry")), "cfg": {k: cfg.get(k) for k in KEYS}, "sec": sorted(k for k in KEYS if k in sec), "root": f"p{i}-s{i}"}


class Kbd(KeyboardInterrupt):
    """Raised by programs; the real one ends the check."""


class Obs:
    def __init__(self):
        self.count = 0
        self.reads = []
        self.problems = []
        self.keep = []  # a task that waits for ever and is referenced by nobody may be collected at any time
        self.done = False
        self.events_at_end = None


def reads(root=True):
    import pulumi
    from pulumi.runtime import config as rc, settings as st

    def get(f):
        try:
            return f()
        except Exception as e:  # noqa
            return f"<{type(e).__name__}>"

    r = st.get_root_resource()
    return {"project": st.get_project(), "stack": st.get_stack(), "org": get(st.get_organization), "dry": st.is_dry_run(), "cfg": {k: rc.get_config(k) for k in KEYS},
            "sec": sorted(k for k in KEYS if rc.is_config_secret(k)), "root": getattr(r, "_name", None) if r is not None else None}


def program(spec, i, obs):
    import pulumi
    from pulumi.runtime import invoke
    from pulumi import CustomResource as Custom

    out = spec["out"]

    def run():
        obs.count += 1
        obs.reads.append(reads())
        if out == "empty":
            return
        if out == "raise_start":
            raise Exception(f"boom {i}")
        if out == "setcfg":
            pulumi.runtime.set_config("proj:b", f"mine{i}")
        if out == "pending_ok":
            async def short():
                await asyncio.sleep(0)
                obs.reads.append(reads())
            asyncio.ensure_future(short())
        if out.startswith("pending_") and out != "pending_ok":
            async def waiter():
                try:
                    await asyncio.get_event_loop().create_future()
                except asyncio.CancelledError:
                    if out in ("pending_bad_cancel", "pending_bad_cancel2", "pending_inv_bad"):
                        raise ValueError("cleanup failed")
                    if out == "pending_swallow":
                        return
                    if out == "pending_slow":
                        for _ in range(3):
                            await asyncio.sleep(0)
                    raise
            obs.keep.append(asyncio.ensure_future(waiter()))
            if out == "pending_bad_cancel2":
                obs.keep.append(asyncio.ensure_future(waiter()))
        if spec.get("rich"):
            rich(i, obs)
        if out == "cancel_input":
            gone = asyncio.get_event_loop().create_future()
            gone.cancel()
            Custom("t:m:R", "b", {"tag": gone})
            return
        a = Custom("t:m:R", "a", {"tag": f"run{i}", "s": pulumi.Output.secret(f"sec{i}")})

        def cb(v):
            obs.reads.append(reads())
            if out == "apply_raise":
                raise Exception(f"boom apply {i}")
            if out == "apply_exit1":
                sys.exit(1)
            if out == "apply_kbd":
                raise Kbd()
            if out == "apply_cancelled":
                raise asyncio.CancelledError()
            return v

        b = Custom("t:m:R", "b", {"tag": a.tag.apply(cb)}, pulumi.ResourceOptions(parent=a))
        pulumi.export("o", b.tag)
        if out.startswith("pending_inv"):
            invoke("t:m:f", {"x": a.tag})
        if out == "invoke_fail":
            invoke("t:m:f", {"x": 1})
        if out == "async_export":
            async def bad():
                await asyncio.sleep(0)
                raise Exception(f"boom export {i}")
            pulumi.export("bad", bad())
        if out == "task_raise":
            async def bad2():
                await asyncio.sleep(0)
                raise Exception(f"boom task {i}")
            asyncio.ensure_future(bad2())
        if out == "exit0":
            sys.exit(0)
        if out == "exitnone":
            sys.exit()
        if out == "exit1":
            sys.exit(1)
        if out == "exitmsg":
            sys.exit(f"boom exit {i}")
        if out == "runerror_empty":
            raise pulumi.RunError("")
        if out == "raise_empty":
            raise Exception("")
        if out == "kbd":
            raise Kbd()
        if out == "raise_cancelled":
            raise asyncio.CancelledError()
        if out == "cancel_own":
            async def forever():
                await asyncio.get_event_loop().create_future()

            async def canceller(t):
                await asyncio.sleep(0)
                t.cancel()
            t = asyncio.ensure_future(forever())
            obs.keep += [t, asyncio.ensure_future(canceller(t))]
        if out == "runerror":
            raise pulumi.RunError(f"user error {i}")
        if out == "raise_rpc":
            raise core.FakeRpcError(*rpc_trouble(spec, (grpc.StatusCode.INTERNAL, "rpc trouble")))
        if out == "raise_rpc_unavail":
            raise core.FakeRpcError(grpc.StatusCode.UNAVAILABLE, "monitor gone")
        if out == "raise_end":
            raise Exception(f"boom end {i}")

    return run


def rich(i, obs):
    """More of the API, every piece carrying the number of the run."""
    import pulumi
    from pulumi.runtime import call, invoke

    def tr(args):
        if args.type_ == "t:m:T":
            return pulumi.ResourceTransformationResult({**args.props, "by": args.props.get("by", "") + f"run{i};"}, args.opts)
        return None

    class Comp(pulumi.ComponentResource):
        def __init__(self, name, opts=None):
            super().__init__("t:m:Comp", name, {}, opts)
            self.kid = pulumi.CustomResource("t:m:T", "kid", {"tag": f"run{i}"}, pulumi.ResourceOptions(parent=self))
            self.register_outputs({"kid": self.kid.tag})

    pulumi.runtime.register_stack_transformation(tr)
    prov = pulumi.ProviderResource("t", "prov", {"tag": f"run{i}"})
    comp = Comp("comp", pulumi.ResourceOptions(providers=[prov]))
    v = invoke("t:m:f", {"x": f"run{i}"}, pulumi.InvokeOptions(provider=prov))
    if v.value != {"x": f"run{i}"}:
        obs.problems.append(f"invoke returned {v.value}")

    def got(w):
        if w != f"run{i}":
            obs.problems.append(f"call returned {w}")
        obs.reads.append(reads())

    call("t:m:k", {"x": comp.kid.tag}).apply(lambda w: got(w["x"] if isinstance(w, dict) else w))
    cfg = pulumi.Config("proj")
    obs.problems.extend([] if cfg.get("a") == reads()["cfg"]["proj:a"] else ["Config.get"])
    pulumi.log.info(f"hello run{i}")


RICH = {("RegisterResource", "prov"), ("RegisterResource", "comp"), ("RegisterResource", "kid")}


def failing(spec):
    out = spec["out"]

    def reg(e, req, resp):
        if out == "rpcfail1" and req.name == "a" or (out == "rpcfail2" or out.startswith("pending_") and out != "pending_ok") and req.name == "b":
            raise core.FakeRpcError(*rpc_trouble(spec, (grpc.StatusCode.UNKNOWN, "engine says no")))
        if out == "unavail1" and req.name == "a" or out == "unavail2" and req.name == "b":
            e.terminated = True
            raise core.FakeRpcError(grpc.StatusCode.UNAVAILABLE, "monitor gone")
        return None

    def inv(e, req, resp):
        if out == "invoke_fail":
            raise core.FakeRpcError(grpc.StatusCode.UNKNOWN, "engine says no")
        return None

    def call(e, req, resp):
        r = getattr(resp, "return")
        for k, v in eng.from_struct(req.args).items():
            r.update({k: v["value"] if isinstance(v, dict) and v.get(eng.SIG) else v})
        return None

    return {"RegisterResource": reg, "Invoke": inv, "Call": call}


def make_engine(spec, i, out):
    e = eng.FakeEngine(out=out, features=spec.get("features", eng.ALL_FEATURES), dry_run=bool(spec.get("dry")), respond=failing(spec), stack=f"s{i}", project=f"p{i}")
    if spec.get("logfail"):
        def Log(req):
            from pulumi.runtime.proto import engine_pb2

            if spec["logfail"] == "error" and req.severity != engine_pb2.ERROR:
                return None
            raise core.FakeRpcError(grpc.StatusCode.UNAVAILABLE, "engine gone")
        e.Log = Log
    return e


def expected_requests(spec, i):
    """(kind, name) -> properties that a complete run sends."""
    base = {("RegisterResource", f"p{i}-s{i}")}
    if spec["out"] != "empty" and spec["out"] != "raise_start":
        base |= {("RegisterResource", "a"), ("RegisterResource", "b")}
        if spec.get("rich"):
            base |= RICH
    return base


def check_run(spec, i, e, obs, res, exc, partner_tags=()):
    """Problems of one run seen from outside."""
    bad = []
    out = spec["out"]
    if obs.count != 1:
        bad.append(f"program executed {obs.count} times")
    exp = expected_reads(spec, i)
    for n, r in enumerate(obs.reads):
        x = dict(exp)
        if out == "setcfg" and n > 0:
            x["cfg"] = {**x["cfg"], "proj:b": f"mine{i}"}
        if r != x:
            bad.append(f"read {n}: {diff(r, x)}")
    logfail = spec.get("logfail")
    if exc is not None:
        if not logfail:
            bad.append(f"Run raised {type(exc).__name__}: {exc}")
    elif out in OK_OUT:
        if res.error:
            bad.append(f"successful program answered with error {res.error[:300]!r}")
    elif out not in EITHER_OUT:
        if not (res.error or res.bail):
            bad.append("failed program answered as successful")
        elif not res.bail:
            want = {"raise_start": f"boom {i}", "raise_end": f"boom end {i}", "runerror": f"user error {i}", "apply_raise": f"boom apply {i}", "raise_rpc": "rpc trouble", "rpcfail1": "engine says no", "rpcfail2": "engine says no", "pending_fail": "engine says no", "pending_bad_cancel": "engine says no", "pending_slow": "engine says no", "pending_inv": "engine says no", "pending_inv_bad": "engine says no", "pending_swallow": "engine says no",
                    "exitmsg": f"boom exit {i}", "invoke_fail": "engine says no", "async_export": f"boom export {i}", "task_raise": f"boom task {i}"}.get(out)
            if "code" in spec:
                want = spec["details"]
            if want is not None and want not in res.error:
                bad.append(f"error does not name the cause {want!r}: {res.error[:300]!r}")
    bad.extend(obs.problems)
    if spec.get("rich"):
        if any(f"run{j}" in m for _, m, _ in e.logs for j in range(1, 6) if j != i):
            bad.append("log message of another run")
        if spec["out"] in OK_OUT and sum(f"hello run{i}" in m for _, m, _ in e.logs) != 1:
            bad.append("log message not sent exactly once")
        for v in e.events:
            if v.key == "kid" and eng.from_struct(v.req.object) != {"tag": f"run{i}", "by": f"run{i};"}:
                bad.append(f"kid has inputs {eng.from_struct(v.req.object)}")
            if v.key == "kid" and not v.req.provider.startswith(f"urn:pulumi:s{i}::p{i}::pulumi:providers:t::prov::"):
                bad.append(f"kid has provider {v.req.provider}")
        if spec["out"] in OK_OUT and [sum(v.kind == k for v in e.events) for k in ("Invoke", "Call", "RegisterResourceOutputs")] != [1, 1, 2]:
            bad.append("invoke, call or component outputs not sent exactly once")
    reqs = [(v.kind, v.key) for v in e.events if v.kind == "RegisterResource"]
    want = expected_requests(spec, i)
    for k in set(reqs):
        if reqs.count(k) > 1:
            bad.append(f"{k} sent {reqs.count(k)} times")
    if set(reqs) - want:
        bad.append(f"unexpected requests {sorted(set(reqs) - want)}")
    if out in OK_OUT and set(reqs) != want:
        bad.append(f"missing requests {sorted(want - set(reqs))}")
    for v in e.events:
        txt = str(v.req)
        for j in range(1, 6):
            if j != i and (f"run{j}" in txt or f"sec{j}" in txt or f"p{j}-s{j}" in txt or f"::p{j}::" in txt):
                bad.append(f"{v.kind} {v.key} carries data of run {j}")
        if v.kind == "RegisterResource" and v.key in ("a", "b"):
            ps = eng.from_struct(v.req.object)
            if ps.get("tag") != f"run{i}" and not (spec.get("dry") and v.key == "b"):
                bad.append(f"{v.key} has inputs {ps}")
            wantp = f"urn:pulumi:s{i}::p{i}::pulumi:pulumi:Stack::p{i}-s{i}" if v.key == "a" else f"urn:pulumi:s{i}::p{i}::t:m:R::a"
            if v.req.parent != wantp:
                bad.append(f"{v.key} has parent {v.req.parent}")
            if v.key == "a":
                sec = "secrets" in spec.get("features", eng.ALL_FEATURES)
                isec = isinstance(ps.get("s"), dict) and ps["s"].get(eng.SIG) == eng.SECRET_SIG
                if isec != sec:
                    bad.append(f"secret sent as {ps.get('s')} to an engine with features {sorted(e.features)}")
        if v.kind == "RegisterResourceOutputs" and out in OK_OUT and "pulumi:pulumi:Stack" in v.req.urn and "$" not in v.req.urn:
            ps = eng.from_struct(v.req.outputs)
            wanto = {} if out == "empty" else {"o": f"run{i}"}
            if ps != wanto and not (spec.get("dry") and out != "empty"):
                bad.append(f"stack outputs {ps}, expected {wanto}")
    if out in OK_OUT and not spec.get("rich") and sum(v.kind == "RegisterResourceOutputs" for v in e.events) != 1:
        bad.append("stack outputs not registered exactly once")
    return bad


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
