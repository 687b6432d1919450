"""C03: every input value is encoded on the wire exactly, with its secrets, unknowns, references and dependencies."""
import asyncio
import itertools
import json

from .. import core, engine as eng, outmodel as om, report
from ..engine import SIG, SECRET_SIG, RESOURCE_SIG, OUTPUT_SIG, ASSET_SIG, ARCHIVE_SIG, UNKNOWN

LEVEL = "model_checking"
RULE = ("all input bags built from the atom alphabet (primitives, futures, outputs of every value/known/secret/dependency kind, nested outputs, resources, "
        "assets, archives, args classes, illegal values) as top-level values, in every pair inside list / dict / args class / nested containers, and in triples of a reduced alphabet, "
        "x negotiated feature set x keep-output-values x preview/update; encoded by the real serializer and compared with an independent reference encoder (value, dependencies per property, error).")
ASSUMPTIONS = ["feature set answered by the fake monitor", "resources registered against the fake engine", "dict keys from a 4-key alphabet"]

OUTK = {  # kind -> (value, known, secret)
    "K": ("k", True, False), "S": ("s", True, True), "N": (None, True, False), "NS": (None, True, True), "D": ({"snake_key": ["x"]}, True, False),
    "DS": ({"a": "x"}, True, True), "U": (None, False, False), "US": (None, False, True), "DU": ({"a": om.UNK, "b": 1}, True, False), "LUS": (["p", om.UNK], True, True),
    "F": (False, True, False), "Z": (0, True, True), "E": ("", True, False), "EL": ([], True, True),
}
DEPS = {"": [], "c": ["cust"], "g": ["comp"], "m": ["remote"], "2": ["cust", "cust2"]}
KEYMAP = {"snake_key": "snakeKey", "q_r": "qR"}


def atoms(dry):
    out = [{"v": None}, {"v": "s"}, {"v": 1}, {"v": 1.5}, {"v": True}, {"v": ""}, {"v": 0}, {"v": False}, {"l": []}, {"d": {}}]
    for k in OUTK:
        if not dry and k in ("U", "US", "DU", "LUS"):
            continue
        out.append({"o": [k, ""]})
    for d in ("c", "g", "m", "2"):
        out.append({"o": ["K", d]})
    out += [{"o": ["S", "c"]}, {"o": ["N", "c"]}]
    if dry:
        out += [{"o": ["U", "c"]}, {"o": ["US", "g"]}, {"unk": 1}, {"r": "custU"}]
    out += [{"on": ["S", {"o": ["S", "c"]}]}, {"on": ["K", {"o": ["S", "c"]}]}, {"on": ["S", {"l": [{"o": ["K", "g"]}, {"v": 1}]}]},
            {"on": ["K", {"r": "cust"}]}, {"f": {"v": "fv"}}, {"f": {"o": ["S", "c"]}}, {"f": {"d": {"snake_key": {"v": 2}}}},
            {"r": "cust"}, {"r": "comp"}, {"r": "remote"}, {"as": "file"}, {"as": "str"}, {"as": "uri"}, {"ar": "file"}, {"ar": "uri"}, {"ar": "assets"},
            {"a": {"first_arg": {"o": ["S", "c"]}, "b": {"v": 1}}}, {"bad": "tuple"}, {"bad": "bytes"}, {"bad": "obj"}, {"bad": "set"}]
    if dry:
        out += [{"on": ["K", {"o": ["U", "c"]}]}]
    return out


def small_atoms(dry):
    out = [{"v": None}, {"v": "s"}, {"o": ["S", "c"]}, {"o": ["K", "g"]}, {"o": ["N", ""]}, {"r": "cust"}, {"f": {"o": ["S", ""]}}, {"on": ["K", {"o": ["S", "c"]}]}, {"as": "str"}]
    if dry:
        out += [{"o": ["U", "m"]}, {"o": ["DU", ""]}]
    return out


def wrap1(a):
    return [{"l": [a]}, {"d": {"snake_key": a}}, {"a": {"first_arg": a}}, {"l": [{"d": {"k": a}}]}, {"d": {"k": {"l": [a, {"v": "t"}]}}}, {"d": {"k": {"a": {"first_arg": {"l": [a]}}}}}, {"f": {"l": [a]}}]


def shared_cases(dry):
    """One output used several times: by itself, and under outputs made from it by apply (sh, sa)."""
    inner = [{"r": "cust"}, {"r": "remote"}, {"o": ["K", "c"]}, {"o": ["S", "2"]}, {"o": ["K", "g"]}, {"o": ["K", "m"]}, {"f": {"o": ["K", "c"]}}, {"a": {"first_arg": {"o": ["K", "c"]}}}]
    if dry:
        inner += [{"o": ["U", "c"]}, {"unk": 1}]
    for d in ("", "c", "g", "m", "2"):
        sh = {"sh": d}
        for x in inner:
            for w in ({"l": [x]}, {"d": {"k": x}}):
                sa = {"sa": [d, w]}
                yield {"p": sa, "q_r": sh}
                yield {"p": sh, "q_r": sa}
                yield {"p": {"l": [sa, sh]}, "q_r": sh}
                yield {"p": {"d": {"k": sa, "snake_key": {"l": [sh]}}}, "q_r": {"sa": [d, {"l": [{"v": 1}]}]}}
                yield {"p": sa, "q_r": {"sa": [d, {"l": [{"o": ["K", "2"]}]}]}}


def cases(dry, group):
    if group == "parallel":
        for d in ("c", "g", "2"):
            sh = {"sh": d}
            for x in ({"o": ["K", "m"]}, {"r": "remote"}, {"o": ["S", "2"]}, {"on": ["K", {"o": ["K", "m"]}]}):
                for first in ({"p": {"sa": [d, {"l": [x]}]}}, {"p": {"l": [sh, {"sa": [d, {"l": [x]}]}]}}):
                    for bags in ([first, {"p": sh}], [{"p": sh}, first], [first, first]):
                        for late in range(0, 14):
                            yield {"bags": bags, "late": late}
        return
    if group == "shared":
        yield from shared_cases(dry)
        return
    A = atoms(dry)
    if group == "single":
        for a in A:
            yield {"p": a}
            for w in wrap1(a):
                yield {"p": w}
    elif group == "pair":
        for a in A:
            for b in A:
                yield {"snake_key": a, "q_r": b}
                yield {"p": {"l": [a, b]}}
                yield {"p": {"d": {"snake_key": a, "k": b}}}
                yield {"p": {"a": {"first_arg": a, "b": b}}}
    elif group == "triple":
        S = small_atoms(dry)
        for a in S:
            for b in S:
                for c in S:
                    yield {"p": {"l": [a, {"d": {"k": b, "snake_key": {"l": [c]}}}]}, "q_r": b}
    elif group == "triple2":
        S = small_atoms(dry)
        for a in S:
            for b in S:
                for wa in wrap1(a):
                    for wb in wrap1(b):
                        yield {"p": {"l": [wa, wb]}, "q_r": wb}


FEATS = [list(f) for n in range(4) for f in itertools.combinations(eng.ALL_FEATURES, n)]


def items(tier, seed):
    out = []
    for dry in (True, False):
        for feats in FEATS:
            for keep in (False, True):
                out.append({"dry": dry, "feats": feats, "keep": keep, "group": "single", "shard": 0, "shards": 1})
                out.append({"dry": dry, "feats": feats, "keep": keep, "group": "shared", "shard": 0, "shards": 1})
                out.append({"dry": dry, "feats": feats, "keep": keep, "group": "parallel", "shard": 0, "shards": 1})
                if tier == "thorough" or (feats == FEATS[-1] or not feats or feats == ["secrets"]):
                    for s in range(4):
                        out.append({"dry": dry, "feats": feats, "keep": keep, "group": "pair", "shard": s, "shards": 4})
                    out.append({"dry": dry, "feats": feats, "keep": keep, "group": "triple", "shard": 0, "shards": 1})
                if tier == "thorough":
                    for s in range(4):
                        out.append({"dry": dry, "feats": feats, "keep": keep, "group": "triple2", "shard": s, "shards": 4})
    out.sort(key=lambda i: i["group"] != "pair")
    return out


# --- reference encoder -------------------------------------------------------------------------


class Bad(Exception):
    pass


COMP_CHILDREN = {"comp": ["compchild", "inner"], "inner": ["innerchild"]}
URNS = {}


def res_urn(n):
    t = {"cust": "t:m:C", "cust2": "t:m:C", "custU": "t:m:C", "comp": "t:m:Comp", "remote": "t:m:Remote", "compchild": "t:m:Comp$t:m:C",
         "inner": "t:m:Comp$t:m:Comp", "innerchild": "t:m:Comp$t:m:Comp$t:m:C"}[n]
    return f"urn:pulumi:stk::proj::{t}::{n}"


def expand(names):
    out = set()
    for n in names:
        if n in COMP_CHILDREN:
            out |= expand(COMP_CHILDREN[n])
        else:
            out.add(res_urn(n))
    return out


def has_unk(s):
    """Whether the value itself (not what an output in it stands for) contains an unknown."""
    (t, x), = s.items()
    if t == "unk":
        return True
    if t == "l":
        return any(has_unk(y) for y in x)
    if t == "d":
        return any(has_unk(y) for y in x.values())
    return False


class Enc:
    def __init__(self, dry, feats, keep):
        self.dry, self.feats, self.keep = dry, feats, keep

    def tr(self, k):
        return KEYMAP.get(k, k)

    def raw(self, v, deps):
        if isinstance(v, str) and v == om.UNK:
            return UNKNOWN
        if isinstance(v, dict):
            return {self.tr(k): self.raw(x, deps) for k, x in v.items()}
        if isinstance(v, list):
            return [self.raw(x, deps) for x in v]
        return v

    def out(self, value, known, secret, own, inner_deps, deps, keep):
        """value: encoded inner value (already without output values)"""
        alldeps = set(own) | set(inner_deps)
        deps |= alldeps
        if keep and "outputValues" in self.feats:
            r = {SIG: OUTPUT_SIG}
            if known:
                r["value"] = value
            if secret:
                r["secret"] = True
            ex = expand(alldeps)
            if ex:
                r["dependencies"] = sorted(ex)
            return r
        if not known:
            return UNKNOWN
        if secret and "secrets" in self.feats:
            return {SIG: SECRET_SIG, "value": value}
        return value

    def enc(self, s, deps, keep):
        (t, x), = s.items()
        if t == "v":
            return x
        if t == "l":
            return [self.enc(y, deps, keep) for y in x]
        if t == "d":
            return {self.tr(k): self.enc(y, deps, keep) for k, y in x.items()}
        if t == "a":
            # properties of an args class that are absent are not sent
            m = {"first_arg": "firstArg", "b": "b"}
            return {m[k]: self.enc(y, deps, keep) for k, y in x.items() if y != {"v": None}}
        if t == "unk":
            return UNKNOWN
        if t == "f":
            return self.enc(x, deps, keep)
        if t == "o":
            v, known, secret = OUTK[x[0]]
            known = known and not om.has_unk(v)
            return self.out(None if om.has_unk(v) else self.raw(v, deps), known, secret, DEPS[x[1]], (), deps, keep)
        if t == "on":
            _, known, secret = OUTK[x[0]]
            inner = set()
            val = self.enc(x[1], inner, False)
            return self.out(val, known, secret, [], inner, deps, keep)
        if t == "sh":
            return self.out("sv", True, False, DEPS[x], (), deps, keep)
        if t == "sa":
            inner = set()
            val = self.enc(x[1], inner, False)
            known = not has_unk(x[1])
            return self.out(val if known else None, known, False, DEPS[x[0]], inner, deps, keep)
        if t == "r":
            custom = x in ("cust", "cust2", "custU")
            deps.add(x)
            rid = UNKNOWN if (x == "custU" and self.dry) else f"{x}-id"
            if "resourceReferences" in self.feats:
                r = {SIG: RESOURCE_SIG, "urn": res_urn(x)}
                if custom:
                    r["id"] = rid
                return r
            return rid if custom else res_urn(x)
        if t == "as":
            return {"file": {SIG: ASSET_SIG, "path": "./p.txt"}, "str": {SIG: ASSET_SIG, "text": "txt"}, "uri": {SIG: ASSET_SIG, "uri": "http://u"}}[x]
        if t == "ar":
            return {"file": {SIG: ARCHIVE_SIG, "path": "./d"}, "uri": {SIG: ARCHIVE_SIG, "uri": "http://a"},
                    "assets": {SIG: ARCHIVE_SIG, "assets": {"f1": {SIG: ASSET_SIG, "text": "t1"}, "sub": {SIG: ARCHIVE_SIG, "assets": {"g": {SIG: ASSET_SIG, "path": "./g"}}}}}}[x]
        if t == "bad":
            raise Bad(x)
        raise AssertionError(t)


def expected(bag, dry, feats, keep):
    e = Enc(dry, feats, keep)
    obj, pd = {}, {}
    try:
        for k, s in bag.items():
            deps = set()
            r = e.enc(s, deps, keep)
            if r is not None:
                obj[e.tr(k)] = r
                pd[e.tr(k)] = sorted(deps)
    except Bad:
        return {"error": True}
    return {"object": obj, "deps": pd}


# --- real --------------------------------------------------------------------------------------


class Build:
    def __init__(self, loop, res):
        import pulumi

        self.p, self.loop, self.res = pulumi, loop, res
        self.shared = {}
        self.outputs = []  # (output, resources it depends on)
        self.objects = []  # (object, copy of it)

    def output(self, value, known, secret, deps):
        fs = [self.loop.create_future() for _ in range(4)]
        vals = [set(deps), value, known, secret]

        def fire(_=None):
            for f, v in zip(fs, vals):
                f.set_result(v)

        self.loop.call_soon(lambda: self.loop.call_soon(fire))
        o = self.p.Output(fs[0], fs[1], fs[2], fs[3])
        self.outputs.append((o, set(deps)))
        return o

    async def changed(self):
        """What serialization changed of the things it was given."""
        for o, deps in self.outputs:
            if await o.resources() != deps:
                return "dependencies of an output"
        for a, b in self.objects:
            if type(a) is not type(b) or len(a) != len(b) or any(x is not y for x, y in zip(a.values() if isinstance(a, dict) else a, b.values() if isinstance(b, dict) else b)):
                return "a collection"
        return None

    def raw(self, v):
        if isinstance(v, str) and v == om.UNK:
            from pulumi.output import UNKNOWN as U

            return U
        if isinstance(v, dict):
            return {k: self.raw(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.raw(x) for x in v]
        return v

    def b(self, s):
        p = self.p
        (t, x), = s.items()
        if t == "v":
            return x
        if t == "l":
            r = [self.b(y) for y in x]
            self.objects.append((r, list(r)))
            return r
        if t == "d":
            r = {k: self.b(y) for k, y in x.items()}
            self.objects.append((r, dict(r)))
            return r
        if t == "sh":
            if x not in self.shared:
                self.shared[x] = self.output("sv", True, False, [self.res[n] for n in DEPS[x]])
            return self.shared[x]
        if t == "sa":
            v = self.b(x[1])
            return self.b({"sh": x[0]}).apply(lambda _: v)
        if t == "a":
            return om.args_cls()(**{k: self.b(y) for k, y in x.items()})
        if t == "unk":
            return self.raw(om.UNK)
        if t == "f":
            v = self.b(x)
            if isinstance(v, (dict, list)):
                async def co():
                    await asyncio.sleep(0)
                    return v
                return co()
            f = self.loop.create_future()
            self.loop.call_soon(lambda: f.set_result(v))
            return f
        if t == "o":
            v, known, secret = OUTK[x[0]]
            return self.output(self.raw(v), known, secret, [self.res[n] for n in DEPS[x[1]]])
        if t == "on":
            _, known, secret = OUTK[x[0]]
            return self.output(self.b(x[1]), known, secret, [])
        if t == "r":
            return self.res[x]
        if t == "as":
            return {"file": lambda: p.FileAsset("./p.txt"), "str": lambda: p.StringAsset("txt"), "uri": lambda: p.RemoteAsset("http://u")}[x]()
        if t == "ar":
            return {"file": lambda: p.FileArchive("./d"), "uri": lambda: p.RemoteArchive("http://a"),
                    "assets": lambda: p.AssetArchive({"f1": p.StringAsset("t1"), "sub": p.AssetArchive({"g": p.FileAsset("./g")})})}[x]()
        if t == "bad":
            return {"tuple": (1, 2), "bytes": b"x", "obj": object(), "set": {1}}[x]
        raise AssertionError(t)


def make_resources():
    import pulumi

    class Comp(pulumi.ComponentResource):
        def __init__(self, name, opts=None, remote=False):
            super().__init__("t:m:Remote" if remote else "t:m:Comp", name, {}, opts, remote)

    R = {}
    for n in ("cust", "cust2", "custU"):
        R[n] = pulumi.CustomResource("t:m:C", n, {})
    R["comp"] = Comp("comp")
    R["compchild"] = pulumi.CustomResource("t:m:C", "compchild", {}, pulumi.ResourceOptions(parent=R["comp"]))
    R["inner"] = Comp("inner", pulumi.ResourceOptions(parent=R["comp"]))
    R["innerchild"] = pulumi.CustomResource("t:m:C", "innerchild", {}, pulumi.ResourceOptions(parent=R["inner"]))
    R["remote"] = Comp("remote", None, True)
    return R


def run_bags(bags, dry, feats, keep, on_case):
    from pulumi.runtime import rpc

    async def main(out):
        e = out.extra["engine"]
        e.out = out
        res = make_resources()
        names = {id(v): k for k, v in res.items()}
        await asyncio.gather(*[r.urn.future() for r in res.values()])

        async def one(bag, bld, real, late=0):
            for _ in range(late):
                await asyncio.sleep(0)
            pd = {}
            try:
                st = await rpc.serialize_properties(real, pd, lambda k: KEYMAP.get(k, k), None, keep)
                return {"object": eng.from_struct(st), "deps": {k: sorted({names.get(id(r), "?") for r in v}) for k, v in pd.items()}}
            except (ValueError, TypeError, AssertionError) as ex:
                return {"error": True}

        for bag in bags:
            bld = Build(out.loop, res)
            if "late" in bag:
                # several bags that share outputs, the second some steps after the first
                real = [{k: bld.b(s) for k, s in b.items()} for b in bag["bags"]]
                got = await asyncio.gather(*[one(b, bld, r, bag["late"] * i) for i, (b, r) in enumerate(zip(bag["bags"], real))], return_exceptions=True)
                got = [{"raised": repr(g)} if isinstance(g, BaseException) else g for g in got]
            else:
                real = {k: bld.b(s) for k, s in bag.items()}
                got = await one(bag, bld, real)
            bad = await bld.changed()
            on_case(bag, {"changed": bad} if bad else got)

    def setup(out):
        e = eng.FakeEngine(features=feats, dry_run=dry, unknown_ids={"custU"} if dry else set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)


def wanted(bag, dry, feats, keep):
    if "late" in bag:
        return [expected(b, dry, feats, keep) for b in bag["bags"]]
    return expected(bag, dry, feats, keep)


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True), parse_int=float)


def work(st, item):
    bags = [b for i, b in enumerate(cases(item["dry"], item["group"])) if i % item["shards"] == item["shard"]]

    def on_case(bag, got):
        want = norm(wanted(bag, item["dry"], item["feats"], item["keep"]))
        g = norm(got)
        st.case([bag, item["dry"], item["feats"], item["keep"]], outcome=json.dumps(want)[:100], transitions=report.nodes(g),
                sample={"bag": bag, "dry_run": item["dry"], "features": item["feats"], "wire": g})
        if g != want:
            st.add_violation("wire:" + json.dumps(bag, sort_keys=True), f"{json.dumps(bag)} preview={item['dry']} features={item['feats']} keep_output_values={item['keep']}: expected {json.dumps(want)}, got {json.dumps(g)}",
                             {"bag": bag, "dry": item["dry"], "feats": item["feats"], "keep": item["keep"]})

    out = run_bags(bags, item["dry"], item["feats"], item["keep"], on_case)
    if out.verdict != "ok":
        st.add_violation("wire-run", f"serialization run ended with {out.verdict}: {out.exc!r}", {"item": item})


def replay(case):
    if "item" in case:
        class S:
            bad = []
            def case(self, *a, **k): pass
            def add_violation(self, *a): self.bad.append(a)
        s = S(); s.bad = []
        work(s, case["item"])
        return s.bad
    got = []
    run_bags([case["bag"]], case["dry"], case["feats"], case["keep"], lambda b, g: got.append(g))
    want = norm(wanted(case["bag"], case["dry"], case["feats"], case["keep"]))
    return None if got and norm(got[0]) == want else [want, got]
