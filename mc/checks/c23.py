"""C23: the inline program server reports each run's outcome and leaves nothing behind."""
import asyncio
import contextlib
import contextvars
import io
import itertools
import json

from .. import core, engine as eng, report, server

LEVEL = "model_checking"
LEAKS = True  # executions that do not repeat are violations
RULE = ("Every single run request of (program outcome x configuration x preview/update x engine address given or not x log calls failing) and every sequence of 2 (3 over a reduced alphabet) such requests, handled in one context or one each, by one server or several, "
        "with RPC completion orders within the deviation budget, on the real LanguageServer: each program is executed once, sees exactly the settings and configuration of its request, only its own engine is used, the answer tells success from failure, and "
        "afterwards every loop is closed, no task lives, no RPC or failure is remembered, the thread's current event loop is what it was, on_pulumi_exit clears the settings that threads start with, and the context that had the program run keeps its own; states = distinct (history, observation) pairs.")
ASSUMPTIONS = ["a program that raises a gRPC UNAVAILABLE error itself is taken for one whose engine has ended it: either answer is allowed", "programs do not ignore cancellation for ever"]


def history(specs, mode, chooser):
    """Runs the specs one after another; returns (problems, observations)."""
    from pulumi.automation import _server
    from pulumi.runtime import rpc_manager, settings as st
    import logging

    bad = []
    cur = server.Cur()
    engines = {}
    seen = []

    def main():
        policy = server.Policy(lambda: core.Scheduler(chooser))
        old = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(policy)
        core.clean_globals()
        core.reset_hash(mode.get("sign", 1))
        ambient = None
        if mode.get("ambient"):
            ambient = asyncio.SelectorEventLoop()
            asyncio.set_event_loop(ambient)
        try:
            obss = []
            shared = None
            ctx = contextvars.Context()
            for i, spec in enumerate(specs, 1):
                e = server.make_engine(spec, i, cur)
                engines[f"m{i}"] = engines[f"e{i}"] = e
                obs = server.Obs()
                obss.append(obs)
                prog = server.program(spec, i, obs)
                if mode.get("oneserver"):
                    if shared is None:
                        shared = _server.LanguageServer(lambda: holder["prog"]())
                    holder["prog"] = prog
                    srv = shared
                else:
                    srv = _server.LanguageServer(prog)
                c = ctx if mode.get("onectx") else contextvars.Context()
                res = exc = None

                def call():
                    nonlocal res, exc
                    nloops = len(policy.loops)
                    if mode.get("dirty") and i == 1:
                        dirty()
                    try:
                        with core.watchdog(20):
                            res = srv.Run(server.request(spec, i), None)
                    except core.HarnessError:
                        raise
                    except BaseException as x:  # noqa
                        if isinstance(x, KeyboardInterrupt) and not isinstance(x, server.Kbd):
                            raise
                        exc = x
                    for lp in policy.loops[nloops:]:
                        live = [t for t in asyncio.all_tasks(lp) if not t.done()]
                        if live and not spec.get("logfail"):
                            bad.append(f"run {i}: {len(live)} tasks alive afterwards")
                        if not lp.is_closed():
                            bad.append(f"run {i}: event loop left open")
                        if lp.sched.dead is not None:
                            bad.append(f"run {i}: {type(lp.sched.dead).__name__}")
                    m = rpc_manager.RPC_MANAGER
                    if m.rpcs or m.unhandled_exception is not None:
                        bad.append(f"run {i}: RPC manager left with {len(m.rpcs)} RPCs, failure {m.unhandled_exception!r}")
                    if asyncio._get_running_loop() is not None:
                        bad.append(f"run {i}: a loop is marked as running afterwards")
                    if mode.get("ambient") and asyncio.get_event_loop() is not ambient:
                        bad.append(f"run {i}: the thread's event loop was replaced")
                    return len(e.events)

                caller = contextvars.Context()
                if mode.get("caller"):
                    caller.run(dirty)
                before = caller.run(whole)
                n = c.run(call)
                if mode.get("exit"):
                    caller.run(srv.on_pulumi_exit)
                    r = contextvars.Context().run(whole)
                    if any(r[k] not in (None, False) for k in ("project", "stack", "dry", "root", "monitor", "engine")) or not str(r["org"]).startswith("<"):
                        bad.append(f"run {i}: settings after exit {r}")
                if mode.get("caller"):
                    after = caller.run(whole)
                    if before != after:
                        bad.append(f"run {i}: settings of the caller {server.diff(before, after)}")
                if isinstance(exc, core.Deadlock) or isinstance(exc, core.Livelock) or isinstance(exc, core._CaseTimeout):
                    bad.append(f"run {i}: {type(exc).__name__}: Run never returns")
                if spec.get("logfail") == "all":
                    if res is not None and not res.error and obs.count != 1:
                        bad.append(f"run {i}: answered with success although the program did not run")
                else:
                    bad.extend(f"run {i}: {b}" for b in server.check_run(spec, i, e, obs, res, exc))
                seen.append([spec["out"], bool(res and res.error), len(e.events), type(exc).__name__ if exc else None])
            for i, spec in enumerate(specs, 1):
                if engines[f"m{i}"].events and len(obss[i - 1].reads) > 8:
                    bad.append(f"run {i}: reads {len(obss[i - 1].reads)}")
        finally:
            server.close_loops(policy)
            if ambient is not None:
                ambient.close()
            asyncio.set_event_loop(None)
            asyncio.set_event_loop_policy(old)
            core.clean_globals()

    holder = {}
    with eng.Wire(engines):
        contextvars.Context().run(main)
    return bad, seen


def whole():
    from pulumi.runtime import settings as st

    return {**server.reads(), "monitor": st.get_monitor(), "engine": st.get_engine()}


def dirty():
    """What an earlier user of the context may have left."""
    from pulumi.runtime import config as rc, settings as st

    st.configure(st.Settings(project="dirty", stack="dirty", monitor=object(), engine=None, parallel=1, dry_run=True, legacy_apply_enabled=True, organization="dirty"))
    st.SETTINGS.feature_support["secrets"] = False
    st.set_root_resource(object())
    rc.set_all_config({"proj:a": "dirty", "other:c": "dirty"}, ["proj:b"])


MODES = {"e": {"onectx": 1, "dirty": 1, "sign": -1}, "a": {"onectx": 1, "exit": 1, "caller": 1}, "b": {"ambient": 1, "sign": -1}, "c": {"onectx": 1, "oneserver": 1, "ambient": 1}, "d": {"oneserver": 1, "exit": 1}, "f": {"caller": 1}}


def specs_all():
    for out in server.OUTS:
        for cfg in server.CONFIGS:
            for dry in (0, 1):
                yield {"out": out, "cfg": cfg, "dry": dry}


RED = [{"out": o, "cfg": c, "dry": d} for o, c, d in [("ok", "ab", 0), ("ok", "none", 1), ("raise_end", "sa", 0), ("rpcfail1", "a", 1), ("pending_bad_cancel", "c", 0), ("unavail2", "ab", 0), ("setcfg", "none", 0), ("apply_raise", "sx", 1)]]


def items(tier, seed):
    its = []
    singles = list(specs_all())
    its.append({"k": "codes"})
    for s in range(0, len(singles), 12):
        its.append({"k": "single", "s": s})
    pairs = [{"out": o, "cfg": c, "dry": n % 2} for n, (o, c) in enumerate(itertools.product(server.OUTS, ("none", "ab", "sx") if tier == "quick" else tuple(server.CONFIGS)))]
    for a in pairs:
        its.append({"k": "pair", "a": a, "tier": tier})
    for a, b in itertools.product(RED, RED):
        its.append({"k": "triple", "a": a, "b": b, "tier": tier})
    return its


def one(st, specs, mode, budget):
    def run(ch):
        with contextlib.redirect_stderr(io.StringIO()):
            return history(specs, MODES[mode], ch)

    for ch, (bad, seen) in core.explore(run, budget):
        st.case([specs, mode, ch.choices], json.dumps(seen), transitions=sum(s[2] for s in seen))
        if bad:
            key = "->".join(f"{s['out']}/{s['cfg']}" for s in specs[-2:]) + ":" + bad[0].split(":")[1].strip()[:60]
            st.add_violation(key, "; ".join(bad[:4]), {"specs": specs, "mode": mode, "choices": ch.choices})


def work(st, it):
    th = it.get("tier") == "thorough"
    if it["k"] == "single":
        for s in list(specs_all())[it["s"]: it["s"] + 12]:
            for m in MODES:
                one(st, [s], m, {"order": 2})
            for lf in ("all", "error"):
                one(st, [{**s, "logfail": lf}], "b", {"order": 0})
            one(st, [{**s, "noengine": 1}], "a", {"order": 0})
    elif it["k"] == "codes":
        for out, code, details in itertools.product(("raise_rpc", "rpcfail1", "rpcfail2"), server.CODES, ("rpc trouble", "", None)):
            for m in "af":
                one(st, [{"out": out, "cfg": "ab", "dry": 0, "code": code, "details": details}], m, {"order": 0})
    elif it["k"] == "pair":
        bs = [{"out": o, "cfg": c, "dry": d} for o in (server.OUTS if th else ("ok", "setcfg", "raise_end", "rpcfail2", "unavail1", "pending_bad_cancel")) for c, d in (("none", 0), ("ab", 1), ("sa", 0), ("sx", 0))]
        for b in bs:
            for m in MODES:
                one(st, [it["a"], b], m, {"order": 1 if th else 0})
        for lf in ("all", "error"):
            for m in "ac":
                one(st, [{**it["a"], "logfail": lf}, {"out": "ok", "cfg": "none", "dry": 0}], m, {"order": 0})
    else:
        for c in RED:
            for m in MODES if th else "ac":
                one(st, [it["a"], it["b"], c], m, {"order": 0})


def replay(case):
    ch = core.Chooser(case["choices"])
    bad, seen = history(case["specs"], MODES[case["mode"]], ch)
    return bad
