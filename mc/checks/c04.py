"""C04: what the engine answers is what the program observes (values, unknowns, secrets, dependencies)."""
import asyncio
import itertools
import json

from .. import core, engine as eng, outmodel as om, report
from ..engine import SIG, SECRET_SIG, RESOURCE_SIG, ASSET_SIG, ARCHIVE_SIG, UNKNOWN

LEVEL = "model_checking"
RULE = ("every engine answer built from the wire alphabet (primitives, null, unknown sentinel, secrets at any nesting, resource references, assets, archives, internal keys, absent properties) "
        "singly, in pairs and nested in lists/maps, x route (register, read, get, call, invoke) x preview/update x declared-input fallback x property dependencies; answers that give every property its own dependencies under three naming styles; every form of id of a resource that is read; the outputs seen by the program are compared with a reference decoder.")
ASSUMPTIONS = ["no resource module registered for the referenced package except 'known:mod'", "property names from a 4-name alphabet"]

REFURN = "urn:pulumi:stk::proj::t:m:C::other"
KREFURN = "urn:pulumi:stk::proj::known:mod:T::kk"


def sec(v):
    return {"sec": v}


def atoms(dry):
    A = [{"v": None}, {"v": "s"}, {"v": 2.0}, {"v": True}, {"v": ""}, {"v": False}, {"v": 0.0}, {"l": []}, {"d": {}}, sec({"v": "x"}), sec({"v": None}), sec(sec({"v": "y"})), sec({"l": [sec({"v": 1.0})]}),
         sec({"d": {"k": {"v": "z"}}}), {"ref": "id"}, {"ref": "urn"}, {"ref": "known"}, {"as": "file"}, {"as": "str"}, {"as": "uri"}, {"ar": "file"}, {"ar": "assets"}, {"ar": "uri"},
         {"d": {"__int": {"v": 1.0}, "k": {"v": "v"}}}, {"d": {"__provider": {"v": "pp"}}}, {"d": {"n": {"v": None}, "k": {"v": "v"}}}, {"unk": 1}, sec({"unk": 1}), {"ref": "noid"},
         sec({"as": "str"}), {"d": {"__defaults": {"l": []}}}, sec({"ref": "id"}), {"d": {"_env": {"v": "e"}, "": {"v": "n"}, "_": {"v": "u"}, "__": {"v": "i"}, "_a_": sec({"v": 1.0})}}]
    return A


def small(dry):
    return [{"v": "s"}, sec({"v": "x"}), {"unk": 1}, {"v": None}, {"as": "str"}, {"d": {"__i": {"v": "h"}, "k": sec({"v": "q"})}}, {"ref": "id"}]


def wraps(a):
    return [{"l": [a]}, {"d": {"k": a}}, {"l": [{"d": {"k": a}}, {"v": "t"}]}, {"d": {"k": {"l": [a]}, "j": {"v": 1.0}}}, sec({"l": [a]}), {"l": [{"l": [a]}]}]


def values(dry, group):
    A = atoms(dry)
    if group == "single":
        for a in A:
            yield a
            yield from wraps(a)
    elif group == "pair":
        for a in A:
            for b in A:
                yield {"l": [a, b]}
                yield {"d": {"k": a, "j": b}}
    elif group == "triple":
        for a, b, c in itertools.product(small(dry), repeat=3):
            yield {"l": [a, {"d": {"k": b, "j": c}}]}
            yield {"d": {"k": {"l": [a, b]}, "j": sec({"d": {"x": c}})}}
    elif group == "wrap2":
        for a in A:
            for w in wraps(a):
                yield from wraps(w)
        for a in small(dry):
            for w in wraps(a):
                for x in wraps(w):
                    yield from wraps(x)


# --- wire + reference decoding -----------------------------------------------------------------


def wire(s):
    (t, x), = s.items()
    if t == "v":
        return x
    if t == "unk":
        return UNKNOWN
    if t == "l":
        return [wire(y) for y in x]
    if t == "d":
        return {k: wire(y) for k, y in x.items()}
    if t == "sec":
        return {SIG: SECRET_SIG, "value": wire(x)}
    if t == "ref":
        if x == "urn":
            return {SIG: RESOURCE_SIG, "urn": REFURN}
        if x == "known":
            return {SIG: RESOURCE_SIG, "urn": KREFURN, "id": "kid", "packageVersion": ""}
        return {SIG: RESOURCE_SIG, "urn": REFURN, "id": "rid" if x == "id" else ""}
    if t == "as":
        return {"file": {SIG: ASSET_SIG, "path": "./p"}, "str": {SIG: ASSET_SIG, "text": "t"}, "uri": {SIG: ASSET_SIG, "uri": "http://u"}}[x]
    if t == "ar":
        return {"file": {SIG: ARCHIVE_SIG, "path": "./p"}, "uri": {SIG: ARCHIVE_SIG, "uri": "http://u"}, "assets": {SIG: ARCHIVE_SIG, "assets": {"f": {SIG: ASSET_SIG, "text": "tt"}, "g": {SIG: ARCHIVE_SIG, "path": "./gg"}}}}[x]
    raise AssertionError(t)


class Sec:
    def __init__(self, v):
        self.v = v.v if isinstance(v, Sec) else v


DROP = object()


def dec(s, dry):
    """reference decoding: python value with Sec wrapper at the outermost secret level"""
    (t, x), = s.items()
    if t == "v":
        return x
    if t == "unk":
        return om.UNK if dry else None
    if t == "l":
        vs = [dec(y, dry) for y in x]
        if any(isinstance(v, Sec) for v in vs):
            return Sec([v.v if isinstance(v, Sec) else v for v in vs])
        return vs
    if t == "d":
        d = {}
        for k, y in x.items():
            if k.startswith("__") and k != "__provider":
                continue
            v = dec(y, dry)
            if v is None:
                continue
            d[k] = v
        if any(isinstance(v, Sec) for v in d.values()):
            return Sec({k: (v.v if isinstance(v, Sec) else v) for k, v in d.items()})
        return d
    if t == "sec":
        return Sec(dec(x, dry))
    if t == "ref":
        if x == "urn":
            return REFURN
        if x == "known":
            return {"$res": ["kk", KREFURN]}
        if x == "id":
            return "rid"
        return om.UNK if dry else None
    if t in ("as", "ar"):
        return {"$asset": [t, x]}
    raise AssertionError(t)


def show(v):
    import pulumi
    from pulumi.output import Unknown

    if isinstance(v, Unknown):
        return om.UNK
    if isinstance(v, pulumi.Resource):
        return {"$res": [v._name, v.mcurn]}
    if isinstance(v, pulumi.FileAsset) and v.path == "./p":
        return {"$asset": ["as", "file"]}
    if isinstance(v, pulumi.StringAsset) and v.text == "t":
        return {"$asset": ["as", "str"]}
    if isinstance(v, pulumi.RemoteAsset) and v.uri == "http://u":
        return {"$asset": ["as", "uri"]}
    if isinstance(v, pulumi.FileArchive) and v.path == "./p":
        return {"$asset": ["ar", "file"]}
    if isinstance(v, pulumi.RemoteArchive) and v.uri == "http://u":
        return {"$asset": ["ar", "uri"]}
    if isinstance(v, pulumi.AssetArchive):
        a = v.assets
        if set(a) == {"f", "g"} and isinstance(a["f"], pulumi.StringAsset) and a["f"].text == "tt" and isinstance(a["g"], pulumi.FileArchive) and a["g"].path == "./gg":
            return {"$asset": ["ar", "assets"]}
    if isinstance(v, pulumi.Output):
        return "<Output>"
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return repr(type(v))


def expect(case, dry):
    """observations per declared property a (answered), b (absent from the answer, input given), c (absent, no input)"""
    route = case["route"]
    v = dec(case["s"], dry)
    secret = isinstance(v, Sec)
    val = v.v if secret else v
    if route == "invoke":
        # plain data: there is nothing that could say that it is secret
        d = {"plain": "p"}
        if v is not None:
            d["r"] = val
        return {"out": d}
    if route == "call":
        # the whole answer {"r": value, "plain": "p"} is one output
        d = {"plain": "p"}
        if v is not None:
            d["r"] = val
        known = not om.has_unk(d)
        return {"out": {"known": known, "secret": secret, "value": d if known else None, "deps": sorted(case["deps"])}}
    exp = {}
    inputs = {"a": "in-a", "b": "in-b"}

    def missing(k):
        if not dry and inputs.get(k) is not None:
            return {"known": True, "secret": False, "value": inputs[k]}
        return {"known": not dry, "secret": False, "value": None if not dry else om.UNK}

    if v is None:
        exp["a"] = missing("a")
    else:
        known = (not dry) or (val is not None and not om.has_unk(val))
        shown = val
        if not known and not om.has_unk(val):
            shown = om.UNK
        exp["a"] = {"known": known, "secret": secret, "value": shown}
    exp["b"] = missing("b")
    exp["c"] = missing("c")
    for k in "abc":
        exp[k]["deps"] = sorted(["self"] + (case["deps"] if k == "a" and route == "register" else []))
    return exp


def wrapped(case, dry):
    """What an invoke hands out today for an answer with secrets: the outermost secret of each property as a marked object."""
    v = dec(case["s"], dry)
    return {"out": {"plain": "p", "r": {SIG: SECRET_SIG, "value": v.v}}} if isinstance(v, Sec) else None


async def obs(o, self_res):
    known = await o.is_known()
    v = show(await o.future(with_unknowns=True))
    if not known and not om.has_unk(v):
        v = om.UNK
    deps = []
    for r in await o.resources():
        deps.append("self" if r is self_res else await r.urn.future())
    return {"known": known, "secret": await o.is_secret(), "value": v, "deps": sorted(deps)}


DEPS = [[], ["urn:pulumi:stk::proj::t:m:C::d1"], ["urn:pulumi:stk::proj::t:m:C::d1", "urn:pulumi:stk::proj::t:m:C::d2"]]


def run_cases(cs, dry, on_case):
    import pulumi
    from pulumi.runtime import rpc

    answers = {}

    def reg(e, req, resp):
        c = answers.get(req.name)
        if c is None:
            return resp
        resp.object.Clear()
        resp.object.CopyFrom(eng.to_struct({"a": wire(c["s"]), "extra": "ignored"}))
        if c["deps"]:
            resp.propertyDependencies["a"].urns.extend(c["deps"])
        return resp

    def read(e, req, resp):
        c = answers[req.name]
        resp.properties.CopyFrom(eng.to_struct({"a": wire(c["s"])}))
        return resp

    def inv(e, req, resp):
        if req.tok in answers:
            getattr(resp, "return").CopyFrom(eng.to_struct({"r": wire(answers[req.tok]["s"]), "plain": "p"}))
            return resp
        urn = eng.from_struct(req.args)["urn"]
        if urn == KREFURN:
            getattr(resp, "return").CopyFrom(eng.to_struct({"urn": urn, "id": "kid", "state": {}}))
            return resp
        c = answers[urn.split("::")[-1]]
        getattr(resp, "return").CopyFrom(eng.to_struct({"urn": urn, "id": "gid", "state": {"a": wire(c["s"])}}))
        return resp

    def call(e, req, resp):
        c = answers[req.tok]
        getattr(resp, "return").CopyFrom(eng.to_struct({"r": wire(c["s"]), "plain": "p"}))
        if c["deps"]:
            resp.returnDependencies["r"].urns.extend(c["deps"])
        return resp

    class KnownRes(pulumi.CustomResource):
        def __init__(self, name, urn):
            self.mcurn = urn
            super().__init__("known:mod:T", name, {}, pulumi.ResourceOptions(urn=urn))

    class Mod:
        def version(self):
            return None

        def construct(self, name, typ, urn):
            return KnownRes(name, urn)

    async def main(out):
        out.extra["engine"].out = out
        for i, c in enumerate(cs):
            n = f"n{i}"
            answers[n] = c
            props = {"a": "in-a", "b": "in-b", "c": None}
            try:
                if c["route"] == "register":
                    r = pulumi.CustomResource("t:m:C", n, props)
                elif c["route"] == "read":
                    r = pulumi.CustomResource("t:m:C", n, props, pulumi.ResourceOptions(id="rid"))
                elif c["route"] == "get":
                    r = pulumi.CustomResource("t:m:C", n, props, pulumi.ResourceOptions(urn=f"urn:pulumi:stk::proj::t:m:C::{n}"))
                elif c["route"] == "invoke":
                    one = pulumi.runtime.invoke(n, {})
                    got = {"out": show(one.value)}
                    if show(await one) != got["out"]:
                        got = {"awaited": show(await one), **got}
                    on_case(c, got)
                    continue
                else:
                    o = pulumi.runtime.call(n, {})
                    got = {"out": await obs(o, None)}
                    if not got["out"]["known"]:
                        got["out"]["value"] = None
                    on_case(c, got)
                    continue
                got = {k: await obs(r.__dict__[k], r) for k in "abc"}
            except Exception as ex:  # noqa
                got = {"error": f"{type(ex).__name__}: {ex}"}
            on_case(c, got)

    saved = dict(rpc._RESOURCE_MODULES) if hasattr(rpc, "_RESOURCE_MODULES") else None

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, respond={"RegisterResource": reg, "ReadResource": read, "Invoke": inv, "Call": call}, unknown_ids=set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)
        rpc.register_resource_module("known", "mod", Mod())

    try:
        return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)
    finally:
        if saved is not None:
            rpc._RESOURCE_MODULES.clear()
            rpc._RESOURCE_MODULES.update(saved)


def items(tier, seed):
    out = [{"group": "names", "dry": dry, "tier": tier} for dry in (True, False)]
    groups = [("single", 2), ("pair", 12), ("triple", 6), ("wrap2", 6)]
    for dry in (True, False):
        for route in ("register", "read", "get", "call", "invoke"):
            for g, shards in groups:
                if tier == "quick" and g == "pair" and route in ("read", "get", "invoke"):
                    continue
                for s in range(shards):
                    out.append({"dry": dry, "route": route, "group": g, "shard": s, "shards": shards, "tier": tier})
    out.sort(key=lambda i: i["group"] != "pair")
    return out


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True, default=str))


def work(st, item):
    if item["group"] == "names":
        from . import c04names
        return c04names.work(st, item, norm)
    cs = []
    for i, v in enumerate(values(item["dry"], item["group"])):
        if i % item["shards"] != item["shard"]:
            continue
        for d in DEPS if item["group"] == "single" else DEPS[i % 3: i % 3 + 1]:
            if d and item["route"] in ("read", "get", "invoke"):
                continue
            cs.append({"route": item["route"], "s": v, "deps": d})

    def on_case(c, got):
        want = norm(expect(c, item["dry"]))
        g = norm(got)
        st.case([c, item["dry"]], outcome=json.dumps(want)[:120], transitions=report.nodes(g), sample={"answer": wire(c["s"]), "route": c["route"], "preview": item["dry"], "observed": g})
        if g != want:
            if c["route"] == "invoke" and g == norm(wrapped(c, item["dry"])):
                st.add_violation("invoke:secret-marker", f"an invoke answered with {json.dumps(wire(c['s']))} results in {json.dumps(g['out'])}", {"case": c, "dry": item["dry"]})
                return
            st.add_violation("decode:" + json.dumps([c["route"], c["s"]], sort_keys=True), f"{json.dumps(c)} preview={item['dry']}: expected {json.dumps(want)}, observed {json.dumps(g)}", {"case": c, "dry": item["dry"]})

    out = run_cases(cs, item["dry"], on_case)
    if out.verdict != "ok":
        st.add_violation("decode-run", f"run ended with {out.verdict}: {out.exc!r}", {"item": item})


def replay(case):
    if "item" in case:
        from ..report import Stats
        s = Stats()
        work(s, case["item"])
        return s.violations
    got = []
    if "names" in case:
        from . import c04names
        c04names.run_cases([case["names"]], case["dry"], lambda c, g: got.append(g))
        want = norm(c04names.expect(case["names"], case["dry"]))
        return None if got and norm(got[0]) == want else [want, got]
    out = run_cases([case["case"]], case["dry"], lambda c, g: got.append(g))
    want = norm(expect(case["case"], case["dry"]))
    return None if got and norm(got[0]) == want else [want, got, out]
