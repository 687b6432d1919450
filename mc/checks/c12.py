"""C12: a component provider written with the SDK answers each request from that request alone."""
import asyncio
import itertools
import json

from .. import core, engine as eng, outmodel as om, report
from ..engine import SIG, SECRET_SIG, RESOURCE_SIG, OUTPUT_SIG, UNKNOWN
from . import c03, c04

LEVEL = "model_checking"
LEAKS = True  # executions that do not repeat are violations
RULE = ("(in) every wire value of the alphabet (primitives, unknowns, secrets, output values, references, assets, nested) x dependency set x construct/call x preview/update: what the implementation receives is compared with a reference decoder; "
        "(out) every state/result bag of the encoder alphabet: the response is compared with a reference encoder; (opts) every combination of construct options: the component's registration is compared with a reference; (more) what the provider says about itself, every command line of its server, every provider reference; "
        "(hist) every sequence of requests up to the bound x sequential / concurrent / first one cancelled at every point x RPC completion orders within the deviation budget: each response, and everything its implementation and its "
        "engine saw, equals what the same request yields alone; states = distinct (case, observation) pairs.")
ASSUMPTIONS = ["output values do not contain raw secrets and are not beside them in one value", "unknown output values occur in previews only", "each request handler runs in its own context, as grpc.aio does", "names of resources do not contain two colons"]

D1, D2 = "urn:pulumi:stk::proj::t:m:C::d1", "urn:pulumi:stk::proj::t:m:C::d2"
# a reference, and what else the input it is may depend on
REFDEPS = [[f"urn:pulumi:stk::proj::t:m:C::x{i}", c04.KREFURN] for i in range(8)] + [[D1, c04.KREFURN, D2]]
TEST_MOD = ("known", "mod")


# -- wire alphabet: C04's plus output values ------------------------------------------------------
def wire(s):
    (t, x), = s.items()
    if t == "out":
        r = {SIG: OUTPUT_SIG}
        if x.get("v") is not None:
            r["value"] = wire(x["v"])
        if "secret" in x:
            r["secret"] = x["secret"]
        if "deps" in x:
            r["dependencies"] = x["deps"]
        return r
    if t == "l":
        return [wire(y) for y in x]
    if t == "d":
        return {k: wire(y) for k, y in x.items()}
    if t == "sec":
        return {SIG: SECRET_SIG, "value": wire(x)}
    return c04.wire(s)


def outs():
    vals = [None, {"v": "x"}, {"v": None}, {"l": [{"v": 1.0}]}, {"d": {"k": {"v": "z"}}}, {"unk": 1}, {"l": [{"unk": 1}]}, {"d": {"k": {"sec": {"v": "n"}}}}, {"sec": {"v": "n"}}, {"ref": "known"}, {"as": "str"}]
    for v in vals:
        for secret in (None, False, True):
            for deps in (None, [], [D1], [D1, D2]):
                x = {"v": v}
                if secret is not None:
                    x["secret"] = secret
                if deps is not None:
                    x["deps"] = deps
                yield {"out": x}


def in_values(tier):
    base = c04.atoms(True)
    for a in base:
        yield a
        yield from c04.wraps(a)
    for a in c04.small(True):
        for w in c04.wraps(a):
            yield from c04.wraps(w)
    for a in itertools.product(base, base) if tier == "thorough" else itertools.product(c04.small(True), base):
        yield {"l": list(a)}
        yield {"d": {"k": a[0], "j": a[1]}}
    O = list(outs())
    for o in O:
        yield o
        yield {"l": [o]}
        yield {"d": {"k": o, "j": {"v": "p"}}}
        yield {"l": [{"d": {"k": o}}, {"ref": "known"}]}
        yield {"d": {"k": {"l": [{"unk": 1}, o]}}}
        if not has(o, "sec"):
            yield {"sec": o}
            yield {"sec": {"l": [o, {"v": "p"}]}}
            yield {"sec": {"d": {"k": {"l": [o]}}}}
    few = O[::7] if tier == "quick" else O[::2]
    for a, b in itertools.product(few, few):
        yield {"l": [a, {"d": {"k": b}}]}


def has(s, what):
    (t, x), = s.items()
    if t == what:
        return True
    if t == "l":
        return any(has(y, what) for y in x)
    if t == "d":
        return any(has(y, what) for k, y in x.items() if not k.startswith("__") or k == "__provider")
    if t == "sec":
        return has(x, what)
    if t == "out" and x.get("v") is not None:
        return has(x["v"], what)
    return False


def no_value(s):
    return UNKNOWN in json.dumps(wire(s)) or any(x.get("v") is None for x in find_outs(s))


def find_outs(s):
    (t, x), = s.items()
    if t == "out":
        yield x
        if x.get("v") is not None:
            yield from find_outs(x["v"])
    for y in (x if t == "l" else x.values() if t == "d" else [x] if t == "sec" else []):
        yield from find_outs(y)


class D:
    """reference decoding of one value"""

    def __init__(self):
        self.secret = False
        self.deps = set()

    def dec(self, s):
        (t, x), = s.items()
        if t == "out":
            self.deps |= set(x.get("deps") or [])
            if x.get("secret"):
                self.secret = True
            return om.UNK if x.get("v") is None else self.dec(x["v"])
        if t == "l":
            return [self.dec(y) for y in x]
        if t == "d":
            d = {}
            for k, y in x.items():
                if k.startswith("__") and k != "__provider":
                    continue
                v = self.dec(y)
                if v is not None or "out" in y or "sec" in y:
                    d[k] = v
            return d
        if t == "sec":
            self.secret = True
            return self.dec(x)
        v = c04.dec(s, True)
        return v


def expect_in(s, deps):
    d = D()
    v = d.dec(s)
    top = s
    isout = has(s, "out")
    whole_ref = list(top) == ["ref"] and top["ref"] == "known" and deps == [c04.KREFURN]
    al = set(d.deps)
    if d.secret and (not isout or list(s) == ["sec"]):
        al |= set(deps)
    elif not isout and not whole_ref:
        al |= set(deps)
    if v is None and not d.secret and "out" not in s:
        return None
    known = not om.has_unk(v)
    return {"known": known, "secret": d.secret, "value": v if known else "?", "deps": sorted(al), "unknowns": v}


async def sem(v):
    import pulumi

    o = pulumi.Output.from_input(v)
    known = await o.is_known()
    val = c04.show(await o.future(with_unknowns=True))
    deps = []
    for r in await o.resources():
        deps.append(await r.urn.future())
    return {"known": known, "secret": await o.is_secret(), "value": val if known else "?", "deps": sorted(set(deps)), "unknowns": val if known or om.has_unk(val) else om.UNK}


def plain_container(v):
    """whether the value was handed over as is, not as an output"""
    import pulumi

    return not isinstance(v, pulumi.Output)


def coarse(s, want):
    """when unknowns sit inside a container handed over as one unknown output, only 'unknown' is required"""
    return want


class Env:
    def __init__(self, out):
        self.out = out
        self.engines = {}

    def get(self, addr):
        if addr not in self.engines:
            self.engines[addr] = eng.FakeEngine(out=self.out)
        return self.engines[addr]


def mk_module():
    import pulumi

    class KnownRes(pulumi.CustomResource):
        def __init__(self, name, urn):
            self.mcurn = urn
            super().__init__("known:mod:T", name, {}, pulumi.ResourceOptions(urn=urn))

    class Mod:
        def version(self):
            return None

        def construct(self, name, typ, urn):
            return KnownRes(name, urn)

    return Mod()


def with_registry(f):
    from pulumi.runtime import rpc

    saved = (dict(rpc._RESOURCE_MODULES), dict(rpc._RESOURCE_PACKAGES)) if hasattr(rpc, "_RESOURCE_MODULES") else None
    try:
        rpc.register_resource_module("known", "mod", mk_module())
        return f()
    finally:
        if saved is not None:
            for reg, s in zip((rpc._RESOURCE_MODULES, rpc._RESOURCE_PACKAGES), saved):
                reg.clear()
                reg.update(s)


def inv_known(e, req, resp):
    a = eng.from_struct(req.args)
    if a.get("urn") == c04.KREFURN:
        getattr(resp, "return").CopyFrom(eng.to_struct({"urn": a["urn"], "id": "kid", "state": {}}))
    return resp


def run_server(body, chooser=None, setup_env=None, timeout=300, early=False):
    """body(env, out): coroutine; channels to any address lead to env.get(address)"""
    holder = {}

    async def main(out):
        return await body(holder["env"], out)

    def setup(out):
        holder["env"] = out.extra["env"] = Env(out)
        if setup_env:
            setup_env(holder["env"])

    with eng.Wire(lambda a: holder["env"].get(a)):
        return with_registry(lambda: core.run_loop(main, chooser or core.Chooser(), settle=False, timeout=timeout, setup=setup, horizon=10**8, early=early))


def construct_request(**kw):
    from pulumi.runtime import proto

    kw.setdefault("project", "proj")
    kw.setdefault("stack", "stk")
    kw.setdefault("type", "t:m:Comp")
    kw.setdefault("name", "comp")
    kw.setdefault("monitorEndpoint", "mon")
    deps = kw.pop("inputDependencies", {})
    if "inputs" in kw:
        kw["inputs"] = eng.to_struct(kw["inputs"])
    r = proto.ConstructRequest(**kw)
    for k, v in deps.items():
        r.inputDependencies[k].urns.extend(v)
    return r


def call_request(**kw):
    from pulumi.runtime import proto

    kw.setdefault("project", "proj")
    kw.setdefault("stack", "stk")
    kw.setdefault("tok", "t:m:f")
    kw.setdefault("monitorEndpoint", "mon")
    deps = kw.pop("argDependencies", {})
    if "args" in kw:
        kw["args"] = eng.to_struct(kw["args"])
    r = proto.CallRequest(**kw)
    for k, v in deps.items():
        r.argDependencies[k].urns.extend(v)
    return r


# -- (in) -----------------------------------------------------------------------------------------
def run_in(cs, on_case):
    from pulumi.provider import Provider, ConstructResult, CallResult
    from pulumi.provider.server import ProviderServicer

    class P(Provider):
        seen = None

        def construct(self, name, resource_type, inputs, options=None):
            self.seen = inputs
            return ConstructResult(urn="urn:x", state={})

        def call(self, token, args):
            self.seen = args
            return CallResult(outputs={})

    async def body(env, out):
        env.get("mon").respond = {"Invoke": inv_known}
        p = P("1.0.0")
        srv = ProviderServicer(p, [], engine_address="")
        for c in cs:
            got = {}

            async def one():
                w = {"p": wire(c["s"]), "q": "plain", "__self__": "me"}
                dp = {"p": c["deps"]} if c["deps"] else {}
                if c["route"] == "construct":
                    await srv.Construct(construct_request(inputs=w, inputDependencies=dp, dryRun=c["dry"]), None)
                else:
                    await srv.Call(call_request(args=w, argDependencies=dp, dryRun=c["dry"]), None)
                got["keys"] = sorted(p.seen)
                got["q"] = p.seen["q"]
                got["p"] = await sem(p.seen["p"]) if "p" in p.seen else None

            try:
                await asyncio.ensure_future(one())
            except Exception as ex:  # noqa
                got = {"error": f"{type(ex).__name__}: {ex}"}
            on_case(c, got)

    return run_server(body)


def want_in(c):
    w = expect_in(c["s"], c["deps"])
    keys = ["p", "q"] if w is not None else ["q"]
    if c["route"] == "call":
        keys = sorted(keys + ["__self__"])
    return {"keys": keys, "q": "plain", "p": w}


def same_in(want, got):
    if got == want:
        return True
    w, g = want.get("p"), got.get("p")
    if w and g and not w["known"] and not g["known"]:
        # an unknown output may hide which part of it is unknown
        w2, g2 = dict(w, unknowns=0), dict(g, unknowns=0)
        return dict(want, p=w2) == dict(got, p=g2) and (g["unknowns"] in (w["unknowns"], om.UNK, None))
    return False


# -- (out) ----------------------------------------------------------------------------------------
def run_out(cs, dry, on_case):
    import pulumi
    from pulumi.provider import Provider, ConstructResult, CallResult
    from pulumi.provider.server import ProviderServicer

    class P(Provider):
        bag = None
        loop = None
        err = None

        def build(self):
            res = c03.make_resources()
            bld = c03.Build(self.loop, res)
            return {k: bld.b(s) for k, s in self.bag.items()}, res

        def construct(self, name, resource_type, inputs, options=None):
            st, res = self.build()
            return ConstructResult(urn=res["comp"].urn if "id" not in st else "urn:plain", state=st)

        def call(self, token, args):
            st, _ = self.build()
            return CallResult(outputs=st)

    async def body(env, out):
        env.get("mon").unknown_ids = {"custU"} if dry else set()
        p = P("1.0.0")
        p.loop = out.loop
        srv = ProviderServicer(p, [], engine_address="")
        for c in cs:
            p.bag = c["bag"]
            try:
                if c["route"] == "construct":
                    r = await asyncio.ensure_future(srv.Construct(construct_request(dryRun=dry), None))
                    got = {"urn": r.urn, "object": eng.from_struct(r.state), "deps": {k: sorted(set(v.urns)) for k, v in r.stateDependencies.items()}}
                else:
                    r = await asyncio.ensure_future(srv.Call(call_request(dryRun=dry), None))
                    got = {"object": eng.from_struct(getattr(r, "return")), "deps": {k: sorted(set(v.urns)) for k, v in r.returnDependencies.items()}}
            except (ValueError, TypeError, AssertionError):
                got = {"error": True}
            on_case(c, got)

    return run_server(body)


def want_out(c, dry):
    bag = {k: v for k, v in c["bag"].items() if c["route"] == "call" or k not in ("id", "urn")}
    e = c03.Enc(dry, list(eng.ALL_FEATURES), False)
    e.tr = lambda k: k
    obj, pd = {}, {}
    try:
        for k, s in bag.items():
            deps = set()
            r = e.enc(s, deps, False)
            if r is not None:
                obj[k] = r
                pd[k] = sorted(c03.res_urn(n) for n in deps)
    except c03.Bad:
        return {"error": True}
    w = {"object": obj, "deps": pd}
    if c["route"] == "construct":
        w["urn"] = c03.res_urn("comp") if "id" not in c["bag"] else "urn:plain"
    return w


def out_bags(dry, tier):
    for b in c03.cases(dry, "single"):
        if not any(k == "a" for s in b.values() for k in _tags(s)):
            yield b
    for b in ({"id": {"v": "x"}, "urn": {"v": "y"}, "s": {"v": "z"}}, {"id": {"o": ["S", "c"]}, "x": {"r": "remote"}}, {"__internal": {"v": 1}}, {"name": {"v": "n"}, "type": {"v": "t"}, "parent": {"v": "p"}, "state": {"o": ["S", "c"]}, "Id": {"v": "i"}, "_id": {"v": "j"}}, {}):
        yield b
    S = c03.small_atoms(dry)
    for a, b in itertools.product(S, S):
        yield {"x": a, "y": b}
        yield {"x": {"l": [a, {"d": {"k": b}}]}}
    if tier == "thorough":
        for b in c03.cases(dry, "pair"):
            if not any(k == "a" for s in b.values() for k in _tags(s)):
                yield b


def _tags(s):
    (t, x), = s.items()
    yield t
    for y in (x if t == "l" else x.values() if t in ("d", "a") else [x] if t == "f" else [x[1]] if t == "on" else []):
        yield from _tags(y)


# -- (opts) ---------------------------------------------------------------------------------------
PARENT = "urn:pulumi:stk::proj::t:m:Outer::outer"
PROVS = {"t": "urn:pulumi:stk::proj::pulumi:providers:t::pt::id-pt", "u": "urn:pulumi:stk::proj::pulumi:providers:u::pu::id-pu"}
ALS = ["urn:pulumi:stk::proj::t:m:Comp::old", "urn:pulumi:old::proj::t:m:Comp::comp"]


def opt_cases():
    for parent in (None, PARENT):
        for deps in ([], [D1], [D1, D2], [PARENT], [D2, PARENT, eng.urn_of("t:m:Comp", "comp", parent)[:-4] + "x"]):
            for al in ([], ALS[:1], ALS):
                for protect in (False, True):
                    for pr in ([], ["t"], ["t", "u"], ["u"]):
                        for dry in (False, True):
                            yield {"parent": parent, "deps": deps, "aliases": al, "protect": protect, "providers": pr, "dry": dry}


def run_opts(cs, on_case):
    import pulumi
    from pulumi.provider import Provider, ConstructResult
    from pulumi.provider.server import ProviderServicer

    class Comp(pulumi.ComponentResource):
        def __init__(self, name, opts):
            super().__init__("t:m:Comp", name, None, opts)
            self.kid = pulumi.CustomResource("t:m:C", f"{name}-kid", {}, pulumi.ResourceOptions(parent=self))
            self.kidu = pulumi.CustomResource("u:m:C", "other", {}, pulumi.ResourceOptions(parent=self))
            self.register_outputs({})

    class P(Provider):
        def construct(self, name, resource_type, inputs, options=None):
            c = Comp(name, options)
            return ConstructResult(urn=c.urn, state={"k": c.kid.id})

    async def body(env, out):
        srv = ProviderServicer(P("1.0.0"), [], engine_address="")
        for i, c in enumerate(cs):
            addr = f"mon{i}"
            kw = {"aliases": c["aliases"], "dependencies": c["deps"], "protect": c["protect"], "providers": {k: PROVS[k] for k in c["providers"]}, "parent": c["parent"] or "", "monitorEndpoint": addr, "dryRun": c["dry"]}
            try:
                r = await asyncio.ensure_future(srv.Construct(construct_request(**kw), None))
                got = {"urn": r.urn}
                for ev in env.get(addr).events:
                    if ev.kind == "RegisterResource":
                        q = ev.req
                        got[q.name] = {"parent": q.parent, "aliases": sorted(q.aliases), "deps": sorted(q.dependencies), "protect": q.protect, "provider": q.provider, "providers": dict(q.providers), "type": q.type}
            except Exception as ex:  # noqa
                got = {"error": f"{type(ex).__name__}: {ex}"}
            on_case(c, got)
            env.engines.pop(addr, None)

    return run_server(body)


def want_opts(c):
    from . import c10

    comp = eng.urn_of("t:m:Comp", "comp", c["parent"])
    w = {"urn": comp}
    w["comp"] = {"parent": c["parent"] or "", "aliases": sorted(c["aliases"]), "deps": sorted(c["deps"]), "protect": c["protect"], "provider": "", "providers": {}, "type": "t:m:Comp"}
    for n, t in (("comp-kid", "t:m:C"), ("other", "u:m:C")):
        al = sorted({c10.inherit(n, t, "comp", a) for a in c["aliases"]})
        pk = t[0]
        w[n] = {"parent": comp, "aliases": al, "deps": [], "protect": c["protect"], "provider": PROVS[pk] if pk in c["providers"] else "", "providers": {}, "type": t}
    return w


# -- (hist) ---------------------------------------------------------------------------------------
CONFIGS = {"A": ({"p:a": "1", "p:s": "x"}, ["p:s"]), "B": ({"p:b": "2", "p:s": "y"}, []), "E": ({}, [])}
KINDS = {
    # kind: (rpc, project, stack, config, dry, behaviour)
    "cA": ("construct", "P1", "S1", "A", False, "ok"),
    "cB": ("construct", "P2", "S2", "B", True, "ok"),
    "cE": ("construct", "", "", "E", False, "ok"),
    "cR": ("construct", "P1", "S1", "A", False, "raise"),
    "cF": ("construct", "P1", "S1", "A", True, "childfails"),
    "cI": ("construct", "P3", "S1", "A", False, "loosefails"),
    "cO": ("construct", "P1", "S3", "B", False, "badstate"),
    "cU": ("construct", "P1", "S1", "E", False, "badurn"),
    "cM": ("construct", "P1", "S1", "A", False, "unavailable"),
    "cC": ("construct", "P1", "S1", "A", False, "chain"),
    "cD": ("construct", "P1", "S3", "B", False, "chainfails"),
    "cX": ("construct", "P1", "S3", "B", False, "cancelstate"),
    "cY": ("construct", "P1", "S3", "E", False, "cancelurn"),
    "cZ": ("construct", "P1", "S3", "E", False, "cancelinput"),
    "fC": ("call", "P2", "S1", "A", True, "chain"),
    "fX": ("call", "P2", "S1", "B", False, "cancelstate"),
    "fA": ("call", "P1", "S1", "A", True, "ok"),
    "fE": ("call", "", "", "E", False, "ok"),
    "fF": ("call", "P2", "S1", "B", False, "failures"),
    "fR": ("call", "P2", "S1", "B", False, "raise"),
    "fL": ("call", "P2", "S1", "B", False, "loosefails"),
}


class BoomError(Exception):
    pass


def run_hist(kinds, mode, chooser, cancel_at=None):
    import pulumi
    from pulumi.provider import Provider, ConstructResult, CallResult, CheckFailure
    from pulumi.provider.server import ProviderServicer
    from pulumi.runtime import config as rc, settings as rs

    def observe():
        def org():
            try:
                return pulumi.get_organization()
            except Exception:  # noqa
                return None
        return {"project": pulumi.get_project(), "stack": pulumi.get_stack(), "dry": pulumi.runtime.is_dry_run(), "root": rs.get_root_resource() is None, "org": org(),
                "config": {k: rc.get_config(k) for k in ("p:a", "p:b", "p:s")}, "secret": {k: rc.is_config_secret(k) for k in ("p:a", "p:b", "p:s")}}

    class Comp(pulumi.ComponentResource):
        def __init__(self, name, opts):
            super().__init__("t:m:Comp", name, None, opts)
            self.kid = pulumi.CustomResource("t:m:C", "kid", {"v": "v"}, pulumi.ResourceOptions(parent=self))

    class P(Provider):
        def __init__(self):
            super().__init__("1.0.0")
            self.obs = {}

        def note(self, i):
            self.obs.setdefault(i, []).append(observe())

        def build(self, inputs, beh, i, options):
            c = Comp("comp", options)
            late = c.kid.urn.apply(lambda u: (self.note(i), pulumi.CustomResource("t:m:C", "late", {"of": u}), "late")[2])
            state = {"kid": c.kid.id, "late": late, "in": inputs.get("x")}
            if beh == "raise":
                raise BoomError(f"impl {i}")
            if beh == "loosefails":
                pulumi.CustomResource("t:m:C", "loose", {"x": c.kid.id})
            if beh == "chain" or beh == "chainfails":
                # resources that only callbacks know of
                async def slowly():
                    for _ in range(40):
                        await asyncio.sleep(0)

                def more(_):
                    pulumi.Output.all(1, pulumi.Output.from_input([slowly(), [2]])).apply(lambda _: [pulumi.CustomResource("t:m:C", "more", {"x": c.kid.id}), None][1])
                pulumi.CustomResource("t:m:C", "mid", {"x": late}).urn.apply(more)
            gone = asyncio.get_event_loop().create_future()
            gone.cancel()
            if beh == "cancelstate":
                state["bad"] = gone
            if beh == "cancelurn":
                c.kid.urn.apply(lambda u: 1)
                state["urn"] = gone
            if beh == "cancelinput":
                pulumi.CustomResource("t:m:C", "loose", {"x": gone})
            if beh == "badstate":
                def bad(u):
                    raise BoomError(f"state {i}")
                state["bad"] = c.kid.id.apply(bad)
            return c, state

        def construct(self, name, resource_type, inputs, options=None):
            i, beh = inputs["i"], inputs["beh"]
            self.note(i)
            c, state = self.build(inputs, beh, i, options)
            urn = c.urn
            if beh == "cancelurn":
                urn = state.pop("urn")
            if beh == "badurn":
                def bad(u):
                    raise BoomError(f"urn {i}")
                urn = c.kid.urn.apply(bad)
            return ConstructResult(urn=urn, state=state)

        def call(self, token, args):
            i, beh = args["i"], args["beh"]
            self.note(i)
            c, state = self.build(args, beh, i, None)
            return CallResult(outputs=state, failures=[CheckFailure("x", "bad x")] if beh == "failures" else None)

    provider = P()

    async def body(env, out):
        srv = ProviderServicer(provider, [], engine_address="")
        results, sent = {}, {}

        def mk(i):
            rpc, project, stack, cfg, dry, beh = KINDS[kinds[i]]
            e = eng.FakeEngine(out=out, dry_run=dry, unknown_ids=set(), project=project or "proj", stack=stack or "stk")
            e.terminated = beh == "unavailable"

            def reg(en, req, resp):
                if (beh == "childfails" and req.name == "kid") or (beh == "loosefails" and req.name == "loose") or (beh == "chainfails" and req.name == "more"):
                    raise core.FakeRpcError(core.grpc.StatusCode.UNKNOWN, f"no {req.name} for {i}")
            e.respond = {"RegisterResource": reg}
            env.engines[f"m{i}"] = e
            cf, sk = CONFIGS[cfg]
            kw = dict(project=project, stack=stack, config=cf, configSecretKeys=sk, dryRun=dry, monitorEndpoint=f"m{i}", parallel=2)
            inp = {"i": float(i), "beh": beh, "x": {SIG: SECRET_SIG, "value": f"x{i}"}}
            return srv.Construct(construct_request(inputs=inp, **kw), None) if rpc == "construct" else srv.Call(call_request(args=inp, **kw), None)

        async def one(i):
            try:
                r = await mk(i)
                # what is registered from here on is not part of what was answered
                sent[i] = sum(len(x.events) for x in env.engines.values())
                results[i] = eng.json_format.MessageToDict(r)
            except asyncio.CancelledError:
                results[i] = {"cancelled": True}
                raise
            except Exception as ex:  # noqa
                results[i] = {"error": f"{type(ex).__name__}: {ex}"}

        if mode == "seq":
            for i in range(len(kinds)):
                await asyncio.ensure_future(one(i))
        else:
            tasks = [asyncio.ensure_future(one(i)) for i in range(len(kinds))]
            if mode == "cancel":
                n = [0]

                def idle(s):
                    if n[0] == cancel_at:
                        tasks[0].cancel()
                    n[0] += 1
                out.sched.on_idle = idle
            await asyncio.gather(*tasks, return_exceptions=True)
            out.extra["idles"] = n[0] if mode == "cancel" else 0
        # let whatever is left run on (what a cancelled request leaves behind need not end)
        while mode != "cancel":
            rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            if not rest:
                break
            await asyncio.wait(rest)
        out.extra["results"], out.extra["sent"] = results, sent
        if mode == "seq" and len(kinds) == 1:
            out.extra["late"] = sum(len(x.events) for x in env.engines.values()) - sent.get(0, 10**9)

    out = run_server(body, chooser=chooser, timeout=60)
    res = {}
    env = out.extra["env"]
    for i in range(len(kinds)):
        e = env.engines.get(f"m{i}")
        evs = sorted(json.dumps([ev.kind, ev.key, eng.json_format.MessageToDict(ev.req)], sort_keys=True) for ev in e.events) if e else []
        r = json.loads(json.dumps(out.extra.get("results", {}).get(i), sort_keys=True))
        res[i] = anon({"result": r, "obs": provider.obs.get(float(i), []), "requests": evs, "features": len(e.feature_queries) == len(set(e.feature_queries)) if e else True}, i)
    return out, res


def anon(o, i):
    """strip the request's index from everything it produced"""
    t = json.dumps(o, sort_keys=True)
    for a in ("x", "impl ", "state ", "urn ", "for "):
        t = t.replace(f"{a}{float(i)}", f"{a}#").replace(f"{a}{i}\\", f"{a}#\\").replace(f"{a}{i}\"", f"{a}#\"")
    t = t.replace(f'"i": {float(i)}', '"i": 0.0')
    return json.loads(t)


ALONE = {}


def alone(kind):
    if kind not in ALONE:
        out, res = run_hist([kind], "seq", core.Chooser())
        ALONE[kind] = (out.verdict, res[0])
        if out.extra.get("late", 0) > 0:
            ALONE[kind] = ("requests sent after the answer", res[0])
    return ALONE[kind]


def absolute(kind):
    """what a request of this kind must yield alone -> problem or None"""
    rpc, project, stack, cfg, dry, beh = KINDS[kind]
    v, r = alone(kind)
    if v != "ok":
        return f"run ended with {v}"
    res = r["result"]
    cf, sk = CONFIGS[cfg]
    ob = {"project": project or None, "stack": stack or None, "dry": dry, "root": True, "org": None, "config": {k: cf.get(k) for k in ("p:a", "p:b", "p:s")}, "secret": {k: k in sk for k in ("p:a", "p:b", "p:s")}}
    if any(o != ob for o in r["obs"]) or not r["obs"]:
        return f"the implementation saw {r['obs']}, not {ob}"
    want_err = {"raise": "BoomError: impl #", "childfails": "Exception: no kid for #", "loosefails": "Exception: no loose for #", "badstate": "BoomError: state #", "badurn": "BoomError: urn #", "chainfails": "Exception: no more for #"}.get(beh)
    if beh.startswith("cancel"):
        return None if "cancelled while waiting" in res.get("error", "") or "cancelled" in res.get("error", "").lower() and not res.get("cancelled") else f"expected an error, got {res}"
    if beh == "unavailable":
        return None if "error" in res else f"expected an error, got {res}"
    if want_err:
        return None if res.get("error") == want_err else f"expected the error {want_err!r}, got {res}"
    names = sorted(json.loads(x)[1] for x in r["requests"])
    if names != ["comp", "kid", "late"] + (["mid", "more"] if beh == "chain" else []):
        return f"requests {names}"
    state = {"kid": "kid-id", "late": "late", "in": {SIG: SECRET_SIG, "value": "x#"}}
    pj, sk_ = project or "proj", stack or "stk"
    kid = f"urn:pulumi:{sk_}::{pj}::t:m:Comp$t:m:C::kid"
    if rpc == "construct":
        exp = {"urn": f"urn:pulumi:{sk_}::{pj}::t:m:Comp::comp", "state": state, "stateDependencies": {"kid": {"urns": [kid]}, "late": {"urns": [kid]}, "in": {}}}
    else:
        exp = {"return": state, "returnDependencies": {"kid": {"urns": [kid]}, "late": {"urns": [kid]}, "in": {}}}
        if beh == "failures":
            exp["failures"] = [{"property": "x", "reason": "bad x"}]
    return None if res == exp else f"expected {exp}, got {res}"


def compare(kinds, out, res, skip=()):
    if out.verdict != "ok":
        return f"run ended with {out.verdict}: {out.exc!r}"
    for i, k in enumerate(kinds):
        if i in skip:
            continue
        w = alone(k)[1]
        if res[i] != w:
            for part in w:
                if res[i][part] != w[part]:
                    return f"request {i} ({k}): {part} is {json.dumps(res[i][part])[:700]}, alone it is {json.dumps(w[part])[:700]}"
    return None


def items(tier, seed):
    it = []
    for s in range(6):
        it.append({"g": "in", "shard": s, "shards": 6, "tier": tier})
    for s in range(4):
        it.append({"g": "out", "shard": s, "shards": 4, "tier": tier})
    for s in range(2):
        it.append({"g": "opts", "shard": s, "shards": 2, "tier": tier})
    it.append({"g": "abs"})
    it.append({"g": "more"})
    for mode in ("seq", "conc", "cancel"):
        for a in KINDS:
            it.append({"g": "hist", "mode": mode, "first": a, "tier": tier})
    if tier == "thorough":
        for mode in ("seq", "conc"):
            for a in KINDS:
                for b in KINDS:
                    it.append({"g": "hist3", "mode": mode, "first": a, "second": b, "tier": tier})
    else:
        for a in ("cF", "cI", "fL", "cR", "cA"):
            it.append({"g": "hist3", "mode": "conc", "first": a, "second": "cM", "tier": tier})
            it.append({"g": "hist3", "mode": "seq", "first": a, "second": "cB", "tier": tier})
    return it


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True, default=str), parse_int=float)


def work(st, item):
    g = item["g"]
    if g == "more":
        from . import c12more
        return c12more.work(st, item)
    if g == "in":
        cs = []
        n = 0
        for s in in_values(item["tier"]):
            if has(s, "out") and has(s, "sec") and not list(s)[0] in ("out", "sec"):
                continue
            d0 = D()
            d0.dec(s)
            whole = s == {"ref": "known"}
            natural = sorted(d0.deps | ({c04.KREFURN} if '{"ref": "known"}' in json.dumps(s) else set()))
            for deps in (([], natural) if natural else ([],)) if has(s, "out") else ([], [D1], [c04.KREFURN], [D1, D2], *(REFDEPS if whole else ())):
                for route in ("construct", "call"):
                    for dry in (False, True):
                        if not dry and has(s, "out") and no_value(s):
                            continue
                        n += 1
                        if n % item["shards"] == item["shard"]:
                            cs.append({"s": s, "deps": deps, "route": route, "dry": dry})
        def on(c, got):
            want, gg = norm(want_in(c)), norm(got)
            st.case(["in", c], outcome=json.dumps(want["p"])[:100], transitions=report.nodes(gg), sample={"wire": wire(c["s"]), "received": gg})
            if not same_in(want, gg):
                st.add_violation("in:" + json.dumps([c["route"], c["s"]], sort_keys=True), f"{json.dumps(c)}: implementation must receive {json.dumps(want)}, received {json.dumps(gg)}", {"g": "in", "c": c})
        out = run_in(cs, on)
    elif g == "out":
        for dry in (True, False):
            cs = [{"bag": b, "route": r} for i, b in enumerate(out_bags(dry, item["tier"])) if i % item["shards"] == item["shard"] for r in ("construct", "call")]

            def on(c, got):
                want, gg = norm(want_out(c, dry)), norm(got)
                st.case(["out", c, dry], outcome=json.dumps(want)[:100], transitions=report.nodes(gg), sample={"state": c["bag"], "response": gg})
                if gg != want:
                    st.add_violation("out:" + json.dumps(c, sort_keys=True), f"{json.dumps(c)} preview={dry}: response must be {json.dumps(want)}, is {json.dumps(gg)}", {"g": "out", "c": c, "dry": dry})
            out = run_out(cs, dry, on)
            if out.verdict != "ok":
                break
    elif g == "opts":
        cs = [c for i, c in enumerate(opt_cases()) if i % item["shards"] == item["shard"]]

        def on(c, got):
            want, gg = norm(want_opts(c)), norm(got)
            st.case(["opts", c], outcome=json.dumps(want)[:100], transitions=report.nodes(gg), sample={"options": c, "registered": gg})
            if gg != want:
                st.add_violation("opts:" + json.dumps(c, sort_keys=True), f"{json.dumps(c)}: expected {json.dumps(want)}, got {json.dumps(gg)}", {"g": "opts", "c": c})
        out = run_opts(cs, on)
    elif g == "abs":
        for k in KINDS:
            st.case(["abs", k], outcome=k)
            p = absolute(k)
            if p:
                st.add_violation("alone:" + k, f"request {k} alone: {p}", {"g": "abs", "k": k})
        return
    else:
        for kinds, cancel in hists(item):
            budget = {"order": 1 if item["tier"] == "quick" else 2}

            def run(ch):
                return run_hist(kinds, item["mode"], ch, cancel)
            for ch, (out, res) in core.explore(run, budget):
                bad = compare(kinds, out, res, skip=(0,) if item["mode"] == "cancel" else ())
                st.case(["hist", item["mode"], kinds, cancel, ch.choices], outcome=f"{item['mode']}:{kinds[0]}:{'error' if 'error' in str(res.get(0, {}).get('result')) else 'ok'}", transitions=len(ch.trace) + sum(len(r["requests"]) for r in res.values()),
                        sample={"history": kinds, "mode": item["mode"], "results": {i: r["result"] for i, r in res.items()}})
                if bad:
                    st.add_violation("hist:" + item["mode"] + ":" + ",".join(kinds), f"{kinds} {item['mode']} cancel={cancel}: {bad}", {"g": "hist", "kinds": kinds, "mode": item["mode"], "cancel": cancel, "choices": ch.choices})
                    break
        return
    if out.verdict != "ok":
        st.add_violation("run-" + g, f"{item}: run ended with {out.verdict}: {out.exc!r}", {"g": "item", "item": item})


def hists(item):
    ks = list(KINDS)
    if item["g"] == "hist3":
        return [([item["first"], item["second"], c], None) for c in ks]
    if item["mode"] == "cancel":
        seconds = ("cA", "fE") if item["tier"] == "quick" else ks
        return [([item["first"], b], k) for b in seconds for k in range(6)]
    return [([item["first"], b], None) for b in ks]


def replay(case):
    g = case["g"]
    if g == "more":
        from . import c12more
        got, want = c12more.check(case["c"])
        return None if got == want else [want, got]
    if g == "in":
        got = []
        run_in([case["c"]], lambda c, r: got.append(r))
        return None if got and same_in(norm(want_in(case["c"])), norm(got[0])) else [want_in(case["c"]), got]
    if g == "out":
        got = []
        run_out([case["c"]], case["dry"], lambda c, r: got.append(r))
        return None if got and norm(got[0]) == norm(want_out(case["c"], case["dry"])) else [want_out(case["c"], case["dry"]), got]
    if g == "opts":
        got = []
        run_opts([case["c"]], lambda c, r: got.append(r))
        return None if got and norm(got[0]) == norm(want_opts(case["c"])) else [want_opts(case["c"]), got]
    if g == "abs":
        return absolute(case["k"])
    if g == "item":
        s = report.Stats()
        work(s, case["item"])
        return s.violations
    out, res = run_hist(case["kinds"], case["mode"], core.Chooser(case["choices"]), case["cancel"])
    return compare(case["kinds"], out, res, skip=(0,) if case["mode"] == "cancel" else ())
