"""C25: engine capabilities are respected throughout a run and do not outlive it."""
import asyncio
import contextlib
import contextvars
import io
import itertools
import json

import grpc

from .. import core, engine as eng, report, server

LEVEL = "model_checking"
LEAKS = True  # executions that do not repeat are violations
RULE = ("Every assignment of {supported, unsupported, query unimplemented, query fails, engine gone} to the three capabilities (single runs) and every pair / bounded triple of capability sets (consecutive runs in one context or one each), through the inline program server, the settings API or a program that sets "
        "its settings itself, preview and update, with the answers to capability queries and requests delivered in every order within the deviation budget: every encoding in every request (registration, read, remote component, invoke, call, stack outputs) is used iff the engine of that run supports it, no answered "
        "capability is asked again, nothing is asked of another engine, and a failing query fails the program; states = distinct (history, schedule, requests) triples.")
ASSUMPTIONS = ["an engine answers the same capability query the same way throughout a run"]
F = ("secrets", "resourceReferences", "outputValues")


class Engine(eng.FakeEngine):
    def __init__(self, feats, **kw):
        super().__init__(features=[f for f in F if feats[f] == "yes"], **kw)
        self.feats = feats
        self.asked = []  # (feature, answered before?)

    def SupportsFeature(self, req):
        from pulumi.runtime.proto import resource_pb2

        label = self._enter("SupportsFeature", req.id)
        self.asked.append((req.id, label in (self.out.sched.delivered if self.out.sched else ())))
        a = self.feats.get(req.id, "no")
        if a == "unimpl":
            raise core.FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, "no such method")
        if a == "fail":
            raise core.FakeRpcError(grpc.StatusCode.INTERNAL, "feature query failed")
        if a == "unavail":
            raise core.FakeRpcError(grpc.StatusCode.UNAVAILABLE, "monitor gone")
        return resource_pb2.SupportsFeatureResponse(hasSupport=a == "yes")


def program(i, obs, prog):
    import pulumi
    from pulumi.runtime import invoke, call

    class Remote(pulumi.ComponentResource):
        def __init__(self, name, props, opts=None):
            super().__init__("t:m:Comp", name, props, opts, remote=True)

    def run():
        obs.count += 1
        a = pulumi.CustomResource("t:m:R", "a", {"tag": f"run{i}", "s": pulumi.Output.secret("x")})
        if "b" in prog:
            b = pulumi.CustomResource("t:m:R", "b", {"r": a, "l": [a, pulumi.Output.secret("y")]})
        if "c" in prog:
            c = Remote("c", {"o": a.tag, "s": pulumi.Output.secret("z"), "r": a})
        if "d" in prog:
            d = pulumi.CustomResource("t:m:R", "d", {"s": pulumi.Output.secret("w"), "r": a}, pulumi.ResourceOptions(id="some-id"))
        if "i" in prog:
            invoke("t:m:f", {"r": a, "x": "1"})
        if "k" in prog:
            call("t:m:k", {"s": pulumi.Output.secret("q"), "r": a})
        if "i" in prog:
            e2 = pulumi.CustomResource("t:m:R", "e", {"s": pulumi.Output.secret("v"), "r": a})
        pulumi.export("so", pulumi.Output.secret("p"))

    return run


def refs_of(v):
    """every marker found in a wire value, by key path"""
    out = {}

    def walk(v, path):
        if isinstance(v, dict):
            sig = v.get(eng.SIG)
            if sig:
                out.setdefault(path, []).append({eng.SECRET_SIG: "secret", eng.RESOURCE_SIG: "ref", eng.OUTPUT_SIG: "output"}.get(sig, sig))
            for k, x in v.items():
                walk(x, path if sig else (path + "." + k if path else k))
        elif isinstance(v, list):
            for n, x in enumerate(v):
                walk(x, f"{path}[{n}]")

    walk(v, "")
    return out


def expected_marks(kind, key, feats, i):
    s, r, o = (feats[f] == "yes" for f in F)
    S = ["secret"] if s else []
    R = ["ref"] if r else []
    if kind == "RegisterResource" and key == "a":
        return {"s": S}
    if kind == "RegisterResource" and key == "b":
        return {"r": R, "l[0]": R, "l[1]": S}
    if kind == "RegisterResource" and key == "c":
        if o:
            return {"o": ["output"], "s": ["output"], "r": R}
        return {"o": [], "s": S, "r": R}
    if kind == "RegisterResource" and key == "e":
        return {"s": S, "r": R}
    if kind == "ReadResource" and key == "d":
        return {"s": S, "r": R}
    if kind == "Invoke":
        return {"r": R}
    if kind == "Call":
        return {"s": ["output"] if o else S, "r": R}
    if kind == "RegisterResourceOutputs":
        return {"so": S}
    return {}


def body(ev):
    q = ev.req
    for f in ("object", "properties", "args", "outputs"):
        if any(d.name == f for d in q.DESCRIPTOR.fields):
            return eng.from_struct(getattr(q, f))
    return {}


def judge(i, spec, e, obs, err, exc):
    bad = []
    feats = spec["f"]
    failing = [f for f in F if feats[f] in ("fail", "unavail")]
    asked = {f for f, _ in e.asked}
    if exc is not None:
        bad.append(f"Run raised {type(exc).__name__}: {exc}")
    elif not failing:
        if err:
            bad.append(f"program failed: {err[:300]}")
    elif asked & set(failing) and not err:
        bad.append(f"query of {sorted(asked & set(failing))} failed but the program succeeded")
    for f, again in e.asked:
        if f not in F:
            bad.append(f"asked for {f!r}")
        if again and feats[f] in ("yes", "no", "unimpl"):
            bad.append(f"{f} asked again after it had been answered")
    keys = []
    for ev in e.events:
        keys.append((ev.kind, ev.key))
        got = refs_of(body(ev))
        want = {k: v for k, v in expected_marks(ev.kind, ev.key, feats, i).items() if v}
        if ev.kind == "RegisterResourceOutputs" and "so" not in body(ev) and failing:
            continue  # the program ended before its export
        if got != want:
            bad.append(f"{ev.kind} {ev.key}: encodings {got}, expected {want} for an engine with {feats}")
        if f"run{i}" not in str(ev.req) and ev.key == "a" and ev.kind == "RegisterResource":
            bad.append("request of another run")
    if not failing and not err and exc is None:
        want = ["a"] + [k for k in "bc" if k in spec["p"]] + (["e"] if "i" in spec["p"] else [])
        for k in want:
            if keys.count(("RegisterResource", k)) != 1:
                bad.append(f"{k} registered {keys.count(('RegisterResource', k))} times")
        if "d" in spec["p"] and keys.count(("ReadResource", "d")) != 1:
            bad.append("d not read once")
    return bad


def history(specs, mode, chooser):
    from pulumi.automation import _server
    import pulumi
    from pulumi.runtime import settings as st, rpc_manager, stack as stk

    bad, seen = [], []
    cur = server.Cur()
    engines = {}

    def main():
        def sched():
            s = core.Scheduler(chooser)
            s.auto_labels = ()
            return s

        policy = server.Policy(sched)
        old = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(policy)
        core.clean_globals()
        core.reset_hash(1)
        ctx = contextvars.Context()
        try:
            for i, spec in enumerate(specs, 1):
                e = Engine(spec["f"], out=cur, dry_run=bool(spec.get("dry")), unknown_ids=False, stack=f"s{i}", project=f"p{i}")
                engines[f"m{i}"] = engines[f"e{i}"] = e
                obs = server.Obs()
                prog = program(i, obs, spec["p"])
                c = ctx if "1" in mode else contextvars.Context()
                err = exc = None

                def call():
                    nonlocal err, exc
                    n = len(policy.loops)
                    try:
                        with core.watchdog(20):
                            if "s" in mode:
                                res = _server.LanguageServer(prog).Run(server.request({"cfg": "none", "out": "ok", **spec}, i), None)
                                err = res.error
                            else:
                                if "r" in mode:
                                    st.reset_options(project=f"p{i}", stack=f"s{i}", parallel=1, engine_address=f"e{i}", monitor_address=f"m{i}", preview=bool(spec.get("dry")))
                                else:
                                    st.configure(st.Settings(project=f"p{i}", stack=f"s{i}", monitor=e, engine=e, parallel=1, dry_run=bool(spec.get("dry"))))
                                    st.set_root_resource(None)
                                rpc_manager.RPC_MANAGER.clear()
                                loop = asyncio.new_event_loop()
                                asyncio.set_event_loop(loop)
                                try:
                                    loop.run_until_complete(stk.run_in_stack(prog))
                                except Exception as x:  # noqa
                                    err = repr(x)
                                finally:
                                    asyncio.set_event_loop(None)
                    except (core.HarnessError, KeyboardInterrupt):
                        raise
                    except BaseException as x:  # noqa
                        exc = x

                c.run(call)
                bad.extend(f"run {i}: {b}" for b in judge(i, spec, e, obs, err, exc))
                seen.append([sorted(e.feats.values()), bool(err), [v.key for v in e.events], [f for f, _ in e.asked]])
        finally:
            server.close_loops(policy)
            asyncio.set_event_loop(None)
            asyncio.set_event_loop_policy(old)
            core.clean_globals()

    with eng.Wire(engines), contextlib.redirect_stderr(io.StringIO()):
        contextvars.Context().run(main)
    return bad, seen


MODES = ("s1", "s2", "r1", "c1", "c2")
PROGS = ("b", "c", "i", "bcdk", "di")


def feats(t):
    return dict(zip(F, t))


def items(tier, seed):
    its = []
    vals = ("yes", "no", "unimpl", "fail", "unavail")
    for t in itertools.product(vals, repeat=3):
        if sum(x in ("fail", "unavail") for x in t) <= (1 if tier == "quick" else 3):
            its.append({"k": "single", "t": t, "tier": tier})
    sub = list(itertools.product(("yes", "no"), repeat=3))
    for a, b in itertools.product(sub, sub):
        its.append({"k": "pair", "t": [a, b], "tier": tier})
    for a in (("unimpl",) * 3, ("fail", "yes", "yes"), ("yes", "unavail", "no"), ("no", "no", "fail")):
        for b in sub:
            its.append({"k": "pair", "t": [a, b], "tier": tier})
    few = [("yes",) * 3, ("no",) * 3, ("yes", "no", "no"), ("no", "yes", "yes")]
    for a, b in itertools.product(few, few):
        its.append({"k": "triple", "t": [a, b], "tier": tier})
    return its


def one(st, specs, mode, budget):
    for ch, (bad, seen) in core.explore(lambda ch: history(specs, mode, ch), budget):
        st.case([specs, mode, ch.choices], json.dumps(seen), transitions=sum(len(s[2]) + len(s[3]) for s in seen))
        if bad:
            st.add_violation(f"{mode}:" + bad[0].split(":", 1)[1].strip()[:90], "; ".join(bad[:3]), {"specs": specs, "mode": mode, "choices": ch.choices})


def work(st, it):
    th = it["tier"] == "thorough"
    if it["k"] == "single":
        for p in PROGS:
            for dry in (0, 1):
                for m in MODES if dry == 0 else MODES[:1]:
                    one(st, [{"f": feats(it["t"]), "p": p, "dry": dry}], m, {"order": (2 if len(p) < 3 else 1) if th else (1 if m == "s1" else 0)})
    elif it["k"] == "pair":
        a, b = it["t"]
        for m in MODES:
            for p in (("bcdk", "di") if th else ("bcdk",)):
                one(st, [{"f": feats(a), "p": p}, {"f": feats(b), "p": p, "dry": 1}], m, {"order": 1 if th else 0})
        one(st, [{"f": feats(a), "p": "b"}, {"f": feats(b), "p": "i"}], "s1", {"order": 1})
    else:
        a, b = it["t"]
        for c in (("yes",) * 3, ("no",) * 3, ("yes", "no", "no"), ("no", "yes", "yes")):
            for m in MODES:
                one(st, [{"f": feats(a), "p": "di"}, {"f": feats(b), "p": "c"}, {"f": feats(c), "p": "bcdk"}], m, {"order": 1 if th else 0})


def replay(case):
    return history(case["specs"], case["mode"], core.Chooser(case["choices"]))[0]
