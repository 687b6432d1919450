"""C26: messages logged by a program reach the engine once, as they are, before the program ends."""
import asyncio
import contextlib
import io
import itertools
import json

from .. import core, engine as eng

LEVEL = "model_checking"
RULE = ("every program of up to two (three in thorough) statements that log - at top level, in callbacks, asynchronous callbacks, coroutines, constructors - with every severity, target (none, custom, read, component, stack, reference by URN, a resource that waits for another one, a resource that is never answered well), stream and "
        "ephemerality, every ending of the program, as a program, a construct and a call of a component provider, with and without an engine, in previews and updates, with failing registrations, in every order of answers within the bound; messages at the engine are compared with those logged.")
ASSUMPTIONS = ["the engine accepts messages", "messages about a resource that could not be registered may be lost"]

SEVS = ["debug", "info", "warn", "error"]
TEXTS = ["plain", "", "two\nlines", "ünï ✓ %s {} \\", "x" * 3000]
TARGETS = [None, "cust", "read", "comp", "stack", "dep", "waits"]
STREAMS = [None, 0, 7, -1]
EPH = [None, False, True]
PLACES = ["top", "cb", "acb", "co", "ctor", "nested"]
ENDS = ["ok", "raise", "run", "exit"]


class Engine(eng.FakeEngine):
    def Log(self, req):
        from google.protobuf import empty_pb2

        self.logs.append([req.severity, req.message, req.urn, req.streamId, req.ephemeral])
        return empty_pb2.Empty()


class Prog:
    def __init__(self, case, e, out):
        self.case, self.e, self.out = case, e, out
        self.sent = []  # (severity, text, target, stream, ephemeral, resource)
        self.odd = []
        self.res = {}
        self.n = 0
        self.lognow = 0

    def log(self, s):
        """one logging statement"""
        import pulumi

        sev, text, target, stream, eph = s["sev"], s["text"], s["target"], s["stream"], s["eph"]
        self.n += 1
        if not s.get("raw"):
            text = f"m{self.n}:{text}"
        kw = {}
        if target is not None:
            kw["resource"] = self.target(target)
        if stream is not None:
            kw["stream_id"] = stream
        if eph is not None:
            kw["ephemeral"] = eph
        self.sent.append([sev, text, target, stream or 0, bool(eph), kw.get("resource")])
        getattr(pulumi.log, sev)(text, **kw)
        if target is None and self.case["engine"] and not s.get("raw") and not any(m[1] == text for m in self.e.logs):
            self.odd.append(f"message {text[:40]!r} is not with the engine when the call returns")

    def target(self, t):
        import pulumi

        if t in self.res:
            return self.res[t]
        if t == "cust":
            r = self.R("cust", "v")
        elif t == "read":
            r = self.R("read", None, pulumi.ResourceOptions(id="rid"))
        elif t == "comp":
            me = self

            class C(pulumi.ComponentResource):
                def __init__(self):
                    super().__init__("t:m:C", "comp", {}, None)
                    self.register_outputs({})

            r = C()
        elif t == "stack":
            r = pulumi.runtime.get_root_resource()
            if r is None:
                r = self.target("comp")  # requests to a provider have no stack of their own
        elif t == "dep":
            r = pulumi.resource.DependencyResource("urn:pulumi:stk::proj::t:m:Elsewhere::dep")
        else:
            r = self.R("waits", self.target("cust").x)
        self.res[t] = r
        return r

    def R(self, name, x, opts=None):
        import pulumi

        class Res(pulumi.CustomResource):
            x: pulumi.Output

            def __init__(self):
                super().__init__("t:m:R", name, {"x": x}, opts)

        return Res()

    def run(self):
        import pulumi

        for i, s in enumerate(self.case["stmts"]):
            self.stmt(i, s)
        end = self.case["end"]
        if end == "raise":
            raise ValueError("the end")
        if end == "run":
            raise pulumi.RunError("the end")
        if end == "exit":
            raise SystemExit(3)

    def stmt(self, i, s):
        import pulumi

        me = self
        p = s["place"]
        if p == "top":
            return self.log(s)
        if p == "ctor":
            class C(pulumi.ComponentResource):
                def __init__(self):
                    super().__init__("t:m:C", f"ctor{i}", {}, None)
                    me.res["comp"] = self
                    me.log(s)
                    self.register_outputs({})

            C()
            return
        if p == "cb":
            self.R(f"src{i}", "v").x.apply(lambda v: me.log(s))
        elif p == "nested":
            self.R(f"src{i}", "v").x.apply(lambda v: pulumi.Output.from_input("w").apply(lambda w: me.log(s)))
        elif p == "acb":
            async def acb(v):
                await asyncio.sleep(0)
                me.log(s)

            self.R(f"src{i}", "v").x.apply(acb)
        else:
            async def co():
                await asyncio.sleep(0)
                me.log(s)
                return "v"

            self.R(f"src{i}", co())


def run(case, ch):
    h = {}

    def setup(out):
        e = Engine(out, dry_run=case["dry"], faults=case.get("faults", ()), chooser=ch, unknown_ids=False)
        h["e"] = e
        h["p"] = Prog(case, e, out)
        core.fresh_settings(e, engine=e if case["engine"] else None, dry_run=case["dry"])

    async def main(out):
        import pulumi
        from pulumi.runtime.stack import run_in_stack

        p = h["p"]
        if case["how"] == "program":
            await run_in_stack(p.run)
        else:
            from pulumi.provider import Provider, ConstructResult, CallResult
            from pulumi.provider.server import ProviderServicer
            from . import c12

            class P(Provider):
                def construct(self, name, resource_type, inputs, options=None):
                    p.run()
                    return ConstructResult(urn="urn:x", state={})

                def call(self, token, args):
                    p.run()
                    return CallResult(outputs={"done": True})

            srv = ProviderServicer(P("1.0.0"), [], engine_address="mon" if case["engine"] else None)
            if case["how"] == "construct":
                await srv.Construct(c12.construct_request(dryRun=case["dry"]), None)
            else:
                await srv.Call(c12.call_request(dryRun=case["dry"]), None)
            for _ in range(30):  # the provider lives on: what it has begun to send arrives
                await asyncio.sleep(0)

    err = io.StringIO()
    with contextlib.redirect_stderr(err), eng.Wire(lambda a: h["e"]):
        out = core.run_loop(main, ch, settle=False, timeout=30, setup=setup)
    return out, h["e"], h["p"], err.getvalue()


def judge(case, out, e, p, err):
    bad = list(p.odd)
    if out.verdict not in ("ok", "error"):
        return [f"the program never ends: {out.verdict}"]
    if out.verdict == "error":
        expected = case["end"] != "ok" or e.failed
        if not expected:
            bad.append(f"the program fails: {out.exc!r}")
    elif case["end"] != "ok" or e.failed:
        bad.append("the program succeeds")
    from pulumi.runtime.proto import engine_pb2

    sevs = {"debug": engine_pb2.DEBUG, "info": engine_pb2.INFO, "warn": engine_pb2.WARNING, "error": engine_pb2.ERROR}
    failing = bool(e.failed)
    # without an exception of its own every callback has run
    if not failing and len(p.sent) != len(case["stmts"]):
        bad.append(f"{len(p.sent)} of {len(case['stmts'])} logging statements were reached")
    urns = {}
    for ev in e.events:
        if ev.kind in ("RegisterResource", "ReadResource"):
            urns[ev.key] = ev.urn
    want = []
    optional = []
    for sev, text, target, stream, eph, r in p.sent:
        if target is None:
            u = ""
        elif target == "dep":
            u = "urn:pulumi:stk::proj::t:m:Elsewhere::dep"
        else:
            u = urns.get(r._name)
        (optional if failing and target is not None else want).append([sevs[sev], text, u, stream, eph])
    if case["engine"]:
        # what the SDK logs itself is for debugging
        got = [m for m in e.logs if m[0] != engine_pb2.DEBUG or m[1].startswith("m") and m[1][1:2].isdigit()]
        rest = list(got)
        for m in want:
            if m in rest:
                rest.remove(m)
            else:
                near = [g for g in got if g[1] == m[1]]
                bad.append(f"message {short(m)} " + (f"arrives as {short(near[0])}" if near else "does not arrive"))
        for m in optional:
            if m in rest:
                rest.remove(m)
        for m in rest:
            bad.append(f"unexpected message {short(m)}" + (" (a second time)" if m in want + optional else ""))
        # messages without a resource are sent in the order they are logged
        order = [m[1] for m in got if m[2] == ""]
        wo = [t for _, t, target, *_ in p.sent if target is None]
        if order != wo and not bad:
            bad.append(f"messages arrive in the order {order} instead of {wo}")
    else:
        if e.logs:
            bad.append(f"messages sent to an engine the program does not have: {e.logs[:2]}")
        names = {"info": "info: ", "warn": "warning: ", "error": "error: "}
        text = "".join(names[s] + t + "\n" for s, t, *_ in p.sent if s != "debug")
        if err != text:
            bad.append(f"stderr has {err!r} instead of {text!r}")
    return bad


def short(m):
    return json.dumps([m[0], m[1] if len(m[1]) < 60 else m[1][:60] + "...", *m[2:]])


def S(sev="info", text="plain", target=None, stream=None, eph=None, place="top"):
    return {"sev": sev, "text": text, "target": target, "stream": stream, "eph": eph, "place": place}


def singles():
    for sev, target, stream, eph, place in itertools.product(SEVS, TARGETS, STREAMS, EPH, PLACES):
        if place in ("top", "cb") or stream in (None, 7) and eph in (None, True):
            yield S(sev, "plain", target, stream, eph, place)
    for text, target, sev in itertools.product(TEXTS, (None, "cust"), SEVS):
        yield S(sev, text, target)
        if sev != "debug":
            yield {**S(sev, text, target), "raw": True}


def prepared(s):
    """statements before `s` that create its target outside of callbacks"""
    if s["place"] in ("top", "ctor") or s["target"] in (None, "dep", "stack"):
        return [s]
    return [S("debug", "early", s["target"]), s]


def cases(tier):
    th = tier == "thorough"
    hows = ["program", "construct", "call"]
    for s in singles():
        for how in hows:
            ss = prepared(dict(s))
            if how != "program" and s["target"] == "stack" and s["place"] not in ("top", "ctor"):
                continue
            for dry in (False, True):
                for engine in (True, False):
                    if s["stream"] not in (None, 7) and (not engine or how != "program"):
                        continue
                    for end in ENDS if how == "program" else ("ok",):
                        if end != "ok" and (s["stream"] is not None or s["eph"] is not None):
                            continue
                        yield {"how": how, "stmts": ss, "dry": dry, "engine": engine, "end": end}
            if how == "program" and s["stream"] is None and s["eph"] is None and s["text"] == "plain" and (s["target"] not in (None, "dep") or s["place"] not in ("top",)):
                for f in ("fail", "unavailable", "bug"):
                    yield {"how": how, "stmts": ss, "dry": False, "engine": True, "end": "ok", "faults": [f]}
    two = [S("info", "plain", t, 3 if t == "cust" else None, None, pl) for t in TARGETS for pl in PLACES] + [S("error", "", None, None, True, "cb"), S("warn", "plain", "comp", None, True)]
    two = [s for s in two if s["place"] in ("top", "ctor") or s["target"] in (None, "dep")]
    for how in hows:
        for a, b in itertools.product(two, two):
            for dry in (False, True) if th else (False,):
                yield {"how": how, "stmts": [a, b], "dry": dry, "engine": True, "end": "ok"}
                if how == "program":
                    yield {"how": how, "stmts": [a, b], "dry": dry, "engine": True, "end": "raise"}
    # the same text again and again
    for how in hows:
        for n in (2, 3):
            for vs in itertools.product([("info", None, None), ("info", None, True), ("info", "cust", None), ("info", "cust", True), ("warn", None, True)], repeat=n):
                for place in ("top", "cb") if n == 2 and all(v[1] is None for v in vs) else ("top",):
                    for engine in (True, False):
                        yield {"how": how, "stmts": [{**S(sev, "again", t, None, eph, place), "raw": True} for sev, t, eph in vs], "dry": False, "engine": engine, "end": "ok"}
    three = two if th else [S(target="cust"), S(target="waits"), S(), S(place="cb"), S(target="comp", place="ctor")]
    for tr in itertools.product(three, repeat=3):
        yield {"how": "program", "stmts": list(tr), "dry": False, "engine": True, "end": "ok"}


def items(tier, seed):
    n = 32 if tier == "quick" else 128
    return [{"shard": s, "shards": n, "tier": tier} for s in range(n)]


def work(st, it):
    n = 3 if it["tier"] == "thorough" else 2
    for i, case in enumerate(cases(it["tier"])):
        if i % it["shards"] != it["shard"]:
            continue

        def one(ch):
            r = run(case, ch)
            return r, judge(case, *r)

        for ch, ((out, e, p, err), bad) in core.explore(one, {"order": n, "fault": 1}):
            st.case([case, ch.choices], outcome=json.dumps([sorted(str(m[:1] + m[2:]) for m in e.logs if m[1][:1] == "m"), out.verdict]), transitions=len(e.events) + len(p.sent),
                    sample={"case": case, "messages": e.logs[:3]})
            for m in bad[:2]:
                st.add_violation(f"{case['how']}:{[[s['sev'], s['target'], s['place']] for s in case['stmts']]}:{case['end']}:{case.get('faults')}:{m[:30]}", f"{case} schedule {ch.choices}: {m}", {"case": case, "choices": ch.choices})


def replay(c):
    r = run(c["case"], core.Chooser(c["choices"]))
    return judge(c["case"], *r)
