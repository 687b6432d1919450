"""C17: references resolve to the registered module or package of the right version, whatever was registered when."""
import itertools
import json

from .. import core, engine as eng
from . import c12

LEVEL = "model_checking"
RULE = ("every registration history (ordered selection of up to 4, thorough 5, versions, incl. pre-releases, repeated and unversioned registrations, interleaved with registrations under other keys) x every reference version, "
        "for modules, packages and the providers handed to a provider server, against a registry model; every reference shape (nested types, names with separators, missing or empty id) through register, invoke and "
        "construct answers; states = distinct (history, lookup) pairs.")
ASSUMPTIONS = ["references carry well-formed versions", "resource names do not contain '::' (the engine rejects them)"]

VERSIONS = ["1.0.0", "1.0.2", "1.1.0", "1.2.1", "2.0.0", "2.0.0-beta.1", "1.1.0-alpha1", "0.3.0", "10.0.0", None]
LOOKUPS = ["", "0.1.0", "0.3.0", "0.3.1", "1.0.0", "1.0.1", "1.0.2", "1.1.0", "1.1.0-alpha1", "1.1.1", "1.2.0", "2.0.0", "2.0.0-beta.1", "2.0.1", "3.0.0", "9.0.0", "10.0.0"]


# --- model ------------------------------------------------------------------------------------


def key(v):
    """semver precedence of the versions used"""
    core_, _, pre = v.partition("+")[0].partition("-")
    nums = tuple(int(x) for x in core_.split("."))
    ids = tuple((0, int(p), "") if p.isdigit() else (1, 0, p) for p in pre.split(".")) if pre else ()
    return (nums, not pre, ids)


def register(reg, v):
    """True iff accepted: an unversioned registration matches every version"""
    if any(v is None or w is None or key(v) == key(w) for w in reg):
        return False
    reg.append(v)
    return True


def lookup(reg, want):
    ok = []
    for v in reg:
        if v is None:
            return None, True
        if want:
            (a, b, c), (x, y, z) = key(want)[0], key(v)[0]
            if not (a == x and y >= b and z >= c):
                continue
        ok.append(v)
    if not ok:
        return None, False
    return max(ok, key=key), True


# --- histories -----------------------------------------------------------------------------------


def histories(tier):
    n = 5 if tier == "thorough" else 4
    for k in range(0, n + 1):
        for h in itertools.permutations(VERSIONS, k):
            if k == n and None in h[1:-1] and tier != "thorough":
                continue
            yield list(h)
    for a, b in itertools.product(VERSIONS, repeat=2):
        yield [a, b, a]
        yield [a, a, b]
        yield [a, b, b, a]
    for a, b in itertools.permutations(["1.0.0", "1.0.0+build", "1.0.0-rc.2", "1.0.0-rc.10"], 2):
        yield [a, b]


def parse(v):
    from semver import VersionInfo

    return None if v is None else VersionInfo.parse(v)


COUNT = itertools.count()


def run_history(h, kind):
    """Registers the versions in order, interleaved with registrations under neighbouring keys, then looks every version up through a decoded reference."""
    import pulumi
    from pulumi.runtime import rpc

    n = next(COUNT)
    pkg = f"pk{n}"
    built = []

    class Reg:
        def __init__(self, v, where):
            self.v, self.where = v, where

        def version(self):
            return parse(self.v)

        def construct(self, name, typ, urn):
            built.append([self.where, self.v, name, typ, urn])
            return pulumi.resource.DependencyResource(urn)

        construct_provider = construct

    def reg(p, m, v, where):
        try:
            if kind == "module":
                pulumi.runtime.register_resource_module(p, m, Reg(v, where))
            else:
                pulumi.runtime.register_resource_package(p if m == "index" else p + m, Reg(v, where))
            return True
        except ValueError:
            return False

    accepted = []
    for i, v in enumerate(h):
        reg(pkg, f"other{i}", "9.9.9", "other")
        if kind == "module":
            reg(f"{pkg}x{i}", "index", "9.9.9", "other")
            pulumi.runtime.register_resource_package(pkg + f"p{i}", Reg("9.9.9", "package"))
        accepted.append(reg(pkg, "index", v, "own"))
    got = []
    typ = f"{pkg}:index:T" if kind == "module" else f"pulumi:providers:{pkg}"
    urn = f"urn:pulumi:stk::proj::{typ}::nm"
    for want in LOOKUPS:
        del built[:]
        ref = {eng.SIG: eng.RESOURCE_SIG, "urn": urn, "id": "theid"}
        if want:
            ref["packageVersion"] = want
        v = rpc.deserialize_properties(eng.to_struct({"r": ref}))["r"]
        if built:
            got.append(["built", built[0][0], built[0][1], built[0][2:] == ["nm", typ, urn] and len(built) == 1])
        else:
            got.append(["id", v])
    return accepted, got


def run_providers(hs, on):
    """The provider a provider server hands to a construct implementation, after each history of package registrations."""
    import pulumi
    from pulumi.provider import ConstructResult, Provider
    from pulumi.provider.server import ProviderServicer

    got = []

    class P(Provider):
        def construct(self, name, resource_type, inputs, options=None):
            p = options.providers
            p = p if isinstance(p, dict) else {x.package: x for x in p}
            got.append({k: (v.__dict__.get("mc") or ["dep", v.package, v]) for k, v in p.items()})
            return ConstructResult(urn="urn:pulumi:stk::proj::t:m:Comp::comp", state={})

    async def body(env, out):
        srv = ProviderServicer(P("1.0.0"), [], engine_address="")
        for h in hs:
            pkg = f"pk{next(COUNT)}"

            class Reg:
                def __init__(self, v):
                    self.v = v

                def version(self):
                    return parse(self.v)

                def construct_provider(self, name, typ, urn):
                    r = pulumi.resource.DependencyProviderResource(urn + "::made")
                    r.__dict__["mc"] = ["built", self.v, name, typ.replace(pkg, "pk"), urn.replace(pkg, "pk")]
                    return r

            for v in h:
                try:
                    pulumi.runtime.register_resource_package(pkg, Reg(v))
                except ValueError:
                    pass
            del got[:]
            try:
                await srv.Construct(c12.construct_request(providers={pkg: f"urn:pulumi:stk::proj::pulumi:providers:{pkg}::nm::pid"}), None)
                x = got[0][pkg]
                if x[0] == "dep":
                    x = ["dep", x[1] == pkg, (await x[2].urn.future()).replace(pkg, "pk"), await x[2].id.future()]
            except Exception as ex:  # noqa
                x = ["error", f"{type(ex).__name__}: {ex}"]
            on(h, x)

    return c12.run_server(body)


def expect_provider(h):
    reg = []
    for v in h:
        register(reg, v)
    v, ok = lookup(reg, "")
    u = "urn:pulumi:stk::proj::pulumi:providers:pk::nm"
    return ["built", v, "nm", "pulumi:providers:pk", u] if ok else ["dep", True, u, "pid"]


def expect_history(h, kind):
    reg, acc = [], []
    for v in h:
        acc.append(register(reg, v))

    def look(w):
        v, ok = lookup(reg, w)
        return ["built", "own", v, True] if ok else ["id", "theid"]

    return acc, [look(w) for w in LOOKUPS]


# --- shapes of references, end to end --------------------------------------------------------------


def shapes():
    out = []
    for qual, typ in [("", "aa:index:T"), ("aa:index:C$", "aa:index:T"), ("x:y:P$aa:index:C$", "aa:index:T"), ("", "aa:sub/mod:T"), ("", "aa:sub/other:T"), ("", "aa:sub:T"), ("", "aa:sub/none:T"), ("", "bb:index:T"), ("aa:index:T$", "bb:index:T"), ("", "pulumi:providers:aa"), ("x:y:P$", "pulumi:providers:aa"),
                      ("", "pulumi:providers:bb"), ("", "aa:index:U")]:
        for name in ["nm", "a/b", "a:b", "a$b", "sp ace", "é", "x::"[:1]]:
            for rid in ["theid", "", None]:
                for ver in [None, "", "1.0.0", "2.0.0"]:
                    out.append({"qual": qual, "typ": typ, "name": name, "id": rid, "ver": ver})
    return out


ROUTES = ("register", "invoke", "call", "nested")


def expect_shape(s):
    urn = f"urn:pulumi:stk::proj::{s['qual']}{s['typ']}::{s['name']}"
    p, m, t = s["typ"].split(":")
    have = {"aa:index": ["1.0.0", "1.5.0"], "aa:sub/mod": ["1.0.0"], "aa:sub/other": ["2.0.0"], "prov:aa": ["1.0.0", "2.1.0"]}
    k = f"prov:{t}" if (p, m) == ("pulumi", "providers") else f"{p}:{m}"
    v, ok = lookup(have.get(k, []), s["ver"] or "")
    if ok:
        return ["built", k, v, s["name"], s["typ"], urn]
    if s["id"] is None:
        return ["val", urn]
    if s["id"] == "":
        return ["val", None]
    return ["val", s["id"]]


def run_shapes(cs, on_case):
    import pulumi

    n = next(COUNT)
    a, b = f"aa{n}", f"bb{n}"
    by = {}

    class Built(pulumi.Resource):
        pass

    class Reg:
        def __init__(self, v, where):
            self.v, self.where = v, where

        def version(self):
            return parse(self.v)

        def construct(self, name, typ, urn):
            r = pulumi.resource.DependencyResource(urn)
            r.__dict__["mc"] = [self.where, self.v, name, typ.replace(a, "aa").replace(b, "bb"), urn.replace(a, "aa").replace(b, "bb")]
            return r

        construct_provider = construct

    pulumi.runtime.register_resource_module(a, "index", Reg("1.0.0", "aa:index"))
    pulumi.runtime.register_resource_module(a, "index", Reg("1.5.0", "aa:index"))
    pulumi.runtime.register_resource_module(a, "sub/mod", Reg("1.0.0", "aa:sub/mod"))
    pulumi.runtime.register_resource_module(a, "sub/other", Reg("2.0.0", "aa:sub/other"))
    pulumi.runtime.register_resource_package(a, Reg("2.1.0", "prov:aa"))
    pulumi.runtime.register_resource_package(a, Reg("1.0.0", "prov:aa"))

    def ref(s):
        q = (s["qual"] + s["typ"]).replace("aa", a).replace("bb", b)
        r = {eng.SIG: eng.RESOURCE_SIG, "urn": f"urn:pulumi:stk::proj::{q}::{s['name']}"}
        if s["id"] is not None:
            r["id"] = s["id"]
        if s["ver"] is not None:
            r["packageVersion"] = s["ver"]
        return r

    def reg(e, req, resp):
        s = by[req.name]
        resp.object.Clear()
        resp.object.CopyFrom(eng.to_struct({"r": [{"k": ref(s)}] if s["route"] == "nested" else ref(s)}))
        return resp

    def inv(e, req, resp):
        getattr(resp, "return").CopyFrom(eng.to_struct({"r": ref(by[req.tok])}))
        return resp

    async def main(out):
        e = out.extra["engine"]
        e.out = out
        for i, s in enumerate(cs):
            nm = f"n{i}"
            by[nm] = s
            try:
                if s["route"] in ("register", "nested"):
                    v = await pulumi.CustomResource("t:m:C", nm, {"r": None}).__dict__["r"].future()
                    if s["route"] == "nested":
                        v = v[0].get("k")
                elif s["route"] == "invoke":
                    v = pulumi.runtime.invoke(nm, {}).value.get("r")
                else:
                    v = (await pulumi.runtime.call(nm, {}).future()).get("r")
                got = ["built"] + v.__dict__["mc"] if isinstance(v, pulumi.Resource) else ["val", v.replace(a, "aa").replace(b, "bb") if isinstance(v, str) else v]
            except Exception as ex:  # noqa
                got = ["error", f"{type(ex).__name__}: {ex}"]
            on_case(s, got)

    def setup(out):
        e = eng.FakeEngine(respond={"RegisterResource": reg, "Invoke": inv, "Call": inv})
        out.extra["engine"] = e
        core.fresh_settings(e, None)

    return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)


# --- items -------------------------------------------------------------------------------------------

SHARDS = 8


def items(tier, seed):
    return [{"part": "hist", "kind": k, "tier": tier, "shard": s} for k in ("module", "package", "provider") for s in range(SHARDS)] + [{"part": "shape", "tier": tier, "route": r} for r in ROUTES]


def one(st, h, kind):
    got = run_history(h, kind)
    want = expect_history(h, kind)
    w, g = json.loads(json.dumps(want)), json.loads(json.dumps(got))
    st.case([h, kind], outcome=json.dumps(w)[:120], transitions=len(h) + len(g[1]), sample={"registered": h, "kind": kind, "accepted": g[0], "lookups": dict(zip(LOOKUPS, g[1]))})
    for x in g[1]:
        st.state([h, kind, x])
    if w != g:
        st.add_violation("registry:" + json.dumps([h, kind]), f"{kind}s registered {h}: expected accepted/lookups {json.dumps(w)}, observed {json.dumps(g)} for {LOOKUPS}", {"h": h, "kind": kind})


def providers(st, hs):
    def on(h, got):
        want = expect_provider(h)
        st.case([h, "provider"], outcome=json.dumps(want), transitions=len(h) + 1, sample={"registered": h, "provider handed to construct": got})
        if json.loads(json.dumps(got)) != want:
            st.add_violation("provider:" + json.dumps(h), f"packages registered {h}: construct should be handed {want}, was handed {got}", {"hp": h})

    o = run_providers(hs, on)
    if o.verdict != "ok":
        st.add_violation("provider-run", f"run ended with {o.verdict}: {o.exc!r}", {"hps": hs[:50]})


def shape_batch(st, cs):
    def on_case(s, got):
        want = expect_shape(s)
        st.case(s, outcome=json.dumps(want)[:80], transitions=2, sample={"reference": s, "observed": got})
        if want != got:
            st.add_violation("reference:" + json.dumps(s, sort_keys=True), f"{json.dumps(s)}: expected {want}, observed {got}", {"shape": s})

    o = run_shapes(cs, on_case)
    if o.verdict != "ok":
        st.add_violation("reference-run", f"run ended with {o.verdict}: {o.exc!r}", {"batch": cs})


def work(st, item):
    if item["part"] == "shape":
        cs = [dict(s, route=item["route"]) for s in shapes()]
        for i in range(0, len(cs), 60):
            shape_batch(st, cs[i:i + 60])
        return
    hs = [h for i, h in enumerate(histories(item["tier"])) if i % SHARDS == item["shard"]]
    if item["kind"] == "provider":
        return providers(st, [h for h in hs if len(h) < 4 or item["tier"] == "thorough"])
    for h in hs:
        one(st, h, item["kind"])


def replay(case):
    from ..report import Stats

    s = Stats()
    if "hp" in case or "hps" in case:
        providers(s, case.get("hps") or [case["hp"]])
    elif "h" in case:
        one(s, case["h"], case["kind"])
    else:
        shape_batch(s, case.get("batch") or [case["shape"]])
    return s.violations
