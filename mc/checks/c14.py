"""C14: programs that run at the same time in one process do not see each other."""
import asyncio
import contextlib
import contextvars
import io
import json
import os

from .. import core, engine as eng, server, threads

LEVEL = "model_checking"
LEAKS = True
RULE = ("Every pair of a bounded set of programs (succeeding, failing in several ways, leaving tasks behind; different projects, stacks, configurations, engine capabilities, preview/update) is run in two real threads through the inline program server or through the settings API; a baton passes between the threads at "
        "(coarse) every request and event-loop step, all interleavings with one preemption for all pairs and two for some (more at thorough), and (fine) the first two executions of every line of the modules that keep state (at thorough every execution, and every call of an SDK function), all interleavings with one preemption; both orders of start. "
        "Each run must be what the same run is alone: settings, configuration and root resource seen at every point, requests and log messages received by its engine, answer, outputs; states = distinct (pair, schedule, observations).")
ASSUMPTIONS = ["a switch can happen between any two calls of SDK functions and between any two lines of the state-keeping modules, not inside a line", "resource packages and modules are registered process-wide by design"]
FINE = ("runtime/settings.py", "runtime/config.py", "runtime/rpc_manager.py", "_utils.py", "automation/_server.py", "runtime/stack.py", "runtime/mocks.py")

SPECS = {
    "ok": {"out": "ok", "cfg": "ab", "dry": 0},
    "rich": {"out": "ok", "cfg": "sa", "dry": 1, "rich": 1},
    "none": {"out": "ok", "cfg": "none", "dry": 0, "features": ("resourceReferences",)},
    "set": {"out": "setcfg", "cfg": "none", "dry": 1},
    "raise": {"out": "raise_end", "cfg": "a", "dry": 1},
    "fail": {"out": "rpcfail1", "cfg": "c", "dry": 0},
    "apply": {"out": "apply_raise", "cfg": "sa", "dry": 0},
    "task": {"out": "pending_inv_bad", "cfg": "ab", "dry": 0},
    "gone": {"out": "unavail2", "cfg": "none", "dry": 1},
    "taskraise": {"out": "task_raise", "cfg": "none", "dry": 0},
}


def run_pair(specs, mode, chooser, grain, first):
    fine = grain != "coarse"

    from pulumi.automation import _server
    from pulumi.runtime import settings as st, rpc_manager, stack as stk
    import pulumi

    bad = []
    cur = server.Cur()
    engines = {}
    baton = threads.Baton(chooser)
    baton.first = first
    root = os.path.dirname(os.path.abspath(pulumi.__file__))

    class Sched(core.Scheduler):
        def busy(self, loop):
            if not fine:
                baton.point("step")

        def idle(self, loop):
            if not fine:
                baton.point("idle")
            super().idle(loop)

        def submit(self, loop, fut, func):
            if not fine:
                baton.point("submit")
            super().submit(loop, fut, func)

    policy = server.Policy(lambda: Sched(chooser))
    old = asyncio.get_event_loop_policy()
    asyncio.set_event_loop_policy(policy)
    core.clean_globals()
    core.reset_hash(1)
    results = {}
    obss = {}

    def runner(i, spec):
        e = server.make_engine(spec, i, cur)
        engines[f"m{i}"] = engines[f"e{i}"] = e
        obs = obss[i] = server.Obs()
        prog = server.program(spec, i, obs)

        def go():
            res = exc = None
            try:
                if mode == "server":
                    srv = _server.LanguageServer(prog)
                    res = srv.Run(server.request(spec, i), None)
                    srv.on_pulumi_exit()
                else:
                    cfg, sec = server.CONFIGS[spec["cfg"]]
                    rpc_manager.RPC_MANAGER.clear()
                    pulumi.runtime.set_all_config(cfg, sec)
                    st.configure(st.Settings(project=f"p{i}", stack=f"s{i}", monitor=e, engine=e, parallel=1, dry_run=bool(spec.get("dry")), organization=f"org{i}"))
                    st.set_root_resource(None)
                    loop = asyncio.new_event_loop()
                    asyncio.set_event_loop(loop)
                    from pulumi.runtime.proto import language_pb2

                    res = language_pb2.RunResponse()
                    try:
                        loop.run_until_complete(stk.run_in_stack(prog))
                    except core.HarnessError:
                        raise
                    except Exception as x:  # noqa
                        res.error = str(x) or "error"
                        if hasattr(x, "details"):
                            res.error = x.details()
                    finally:
                        asyncio.set_event_loop(None)
            except core.HarnessError:
                raise
            except BaseException as x:  # noqa
                exc = x
            results[i] = (res, exc)

        return go

    try:
        with eng.Wire(engines), contextlib.redirect_stderr(io.StringIO()):
            fs = [runner(i, s) for i, s in enumerate(specs, 1)]
            with core.watchdog(120):
                ended = baton.run(fs, timeout=90, trace=threads.tracer(baton, root, FINE, skip=("runtime/proto",), calls=grain == "calls", first=2 if grain == "lines2" else None) if fine else None)
        if not ended:
            bad.append("the programs did not end")
        for i, spec in enumerate(specs, 1):
            res, exc = results.get(i, (None, None))
            if res is None and exc is None:
                bad.append(f"program {i} has no result")
                continue
            if isinstance(exc, (core.Deadlock, core.Livelock)):
                bad.append(f"program {i}: {type(exc).__name__}")
            bad.extend(f"program {i}: {b}" for b in server.check_run(spec, i, engines[f"m{i}"], obss[i], res, exc))
    finally:
        server.close_loops(policy)
        asyncio.set_event_loop(None)
        asyncio.set_event_loop_policy(old)
        core.clean_globals()
    seen = [[s["out"], bool(results.get(i, (None,))[0] and results[i][0].error), len(engines[f"m{i}"].events)] for i, s in enumerate(specs, 1)]
    return bad, seen, baton


PAIRS_FINE = [("ok", "none"), ("rich", "ok"), ("none", "rich"), ("fail", "ok"), ("ok", "task"), ("set", "none"), ("raise", "rich"), ("ok", "gone")]


def items(tier, seed):
    its = []
    names = list(SPECS)
    th = tier == "thorough"
    for x, a in enumerate(names):
        for y, b in enumerate(names):
            for m in ("server", "settings"):
                if not th and (x > y or m == "settings" and (x + y) % 2):
                    continue
                for f in (0, 1):
                    its.append({"p": [a, b], "m": m, "f": f, "g": "coarse", "b": 1, "shard": None})
    for a, b in PAIRS_FINE if th else PAIRS_FINE[:1]:
        for m in ("server", "settings") if th else ("server",):
            for f in (0, 1):
                for k in range(8):
                    its.append({"p": [a, b], "m": m, "f": f, "g": "coarse", "b": 2, "shard": [k, 8]})
    for a, b in PAIRS_FINE if th else PAIRS_FINE[:6]:
        for m in ("server", "settings"):
            for f in (0, 1):
                its.append({"p": [a, b], "m": m, "f": f, "g": "lines2", "b": 1, "shard": None})
    for a, b in PAIRS_FINE[:4] if th else ():
        for m in ("server", "settings"):
            for f in (0, 1):
                for k in range(16):
                    its.append({"p": [a, b], "m": m, "f": f, "g": "calls", "b": 1, "shard": [k, 16]})
    return its


def work(st, it):
    specs = [SPECS[n] for n in it["p"]]
    # everything imported lazily is imported before anything is explored
    run_pair(specs, it["m"], core.Chooser(), "coarse", it["f"])
    for ch, (bad, seen, baton) in core.explore(lambda ch: run_pair(specs, it["m"], ch, it["g"], it["f"]), {"switch": it["b"], "order": 0}, shard=it["shard"]):
        st.case([it["p"], it["m"], it["g"], it["f"], [(i, t[1]) for i, t in enumerate(ch.trace) if t[1]], len(ch.trace)], json.dumps([it["p"], seen]), transitions=baton.points)
        if baton.forced:
            st.notes["switches forced by a blocked holder"] += baton.forced
        if bad:
            key = f"{it['m']}:{'/'.join(it['p'])}:" + bad[0].split(":", 1)[-1].strip()[:70]
            st.add_violation(key, "; ".join(bad[:3]), {"p": it["p"], "m": it["m"], "choices": ch.choices, "g": it["g"], "f": it["f"]})


def replay(case):
    specs = [SPECS[n] for n in case["p"]]
    run_pair(specs, case["m"], core.Chooser(), "coarse", case["f"])
    return run_pair(specs, case["m"], core.Chooser(case["choices"]), case["g"], case["f"])[0]
