"""C13: configuration accessors against a reference, over every history of configuration writes within the bound."""
import itertools
import json
import math
import os

from .. import core, engine as eng, report

LEVEL = "model_checking"
RULE = ("(values) every stored text x every accessor (get/require x plain/secret x str/bool/int/float/object) x default (none, ordinary, falsy) x bag name x source of the value (set_config, set_all_config, PULUMI_CONFIG_<key>, PULUMI_CONFIG) and pairs of sources; "
        "(hist) every sequence of configuration writes up to the bound, reading everything after each; compared with a reference store and reference parsers; states = distinct (case, result) pairs.")
ASSUMPTIONS = ["stored values are strings, as the engine sends them", "numbers are read as Python's int() and float() read them"]

TEXTS = ["", "true", "True", "TRUE", "false", "False", " true", "1", "0", "-1", "+7", "007", "1_0", " 5 ", "1.0", "1e3", "nan", "inf", "-inf", "0x10", "٣", "null", "{}", "[]", '{"a":[1,null]}', '"s"', "{bad", "[1,]", "None", "1.5",
         "9223372036854775808", "s p\naß", "no", "0.0", '""', "-0", "1e400"]
KINDS = ("str", "bool", "int", "float", "object")
DEFS = {"str": ["dflt", ""], "bool": [True, False], "int": [7, 0], "float": [2.5, 0.0], "object": [{"d": [1]}, {}, 0]}
SUFFIX = {"str": "", "bool": "_bool", "int": "_int", "float": "_float", "object": "_object"}
ETYPE = {"bool": "bool", "int": "int", "float": "float", "object": "JSON object"}


class Malformed(Exception):
    pass


def parse(kind, t):
    if kind == "str":
        return t
    if kind == "bool":
        if t in ("true", "True"):
            return True
        if t in ("false", "False"):
            return False
        raise Malformed()
    try:
        if kind == "int":
            return int(t)
        if kind == "float":
            return float(t)
        return json.loads(t)
    except Exception:
        raise Malformed() from None


def want(stored, op, kind, secret, dflt, full):
    """-> ["value", v] | ["secret", v] | ["missing", key] | ["type", key, value, expected]"""
    if stored is None:
        if op == "require":
            return ["missing", full]
        if secret and dflt is not None:
            return ["secret", tag(dflt)]
        return ["value", tag(dflt)]
    try:
        v = parse(kind, stored)
    except Malformed:
        return ["type", full, stored, ETYPE[kind]]
    return ["secret" if secret else "value", tag(v)]


def tag(v):
    """JSON image that tells types apart"""
    if isinstance(v, bool) or v is None:
        return {"b": v}
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, float):
        return {"f": repr(v)}
    if isinstance(v, str):
        return {"s": v}
    if isinstance(v, list):
        return {"l": [tag(x) for x in v]}
    if isinstance(v, dict):
        return {"d": {k: tag(x) for k, x in v.items()}}
    return {"?": repr(v)}


def accessors():
    for kind in KINDS:
        for secret in (False, True):
            yield ("require", kind, secret, None)
            yield ("get", kind, secret, None)
            if not (secret and kind == "str"):
                for d in DEFS[kind]:
                    yield ("get", kind, secret, d)


async def read(cfg, key, op, kind, secret, dflt):
    import pulumi

    name = op + ("_secret" if secret else "") + SUFFIX[kind]
    try:
        f = getattr(cfg, name)
        r = f(key, dflt) if dflt is not None else f(key)
    except pulumi.ConfigMissingError as e:
        ok = isinstance(e, pulumi.RunError) and e.key in str(e)
        return ["missing", e.key] if ok else ["bad-error", repr(e)]
    except pulumi.ConfigTypeError as e:
        ok = isinstance(e, pulumi.RunError) and e.key in str(e)
        return ["type", e.key, e.value, e.expect_type] if ok else ["bad-error", repr(e)]
    except Exception as e:  # noqa
        return ["raised", f"{type(e).__name__}: {e}"]
    if isinstance(r, pulumi.Output):
        v, sec, known, res = await r.future(), await r.is_secret(), await r.is_known(), await r.resources()
        return ["secret" if sec and known and not res else f"output secret={sec} known={known} deps={len(res)}", tag(v)]
    return ["value", tag(r)]


# -- stores ---------------------------------------------------------------------------------------
def envkey(full):
    return "PULUMI_CONFIG_" + "".join(c.upper() if ("a" <= c <= "z") else c if (c == "_" or "A" <= c <= "Z" or "0" <= c <= "9") else "_" for c in full)


class Model:
    def __init__(self):
        self.cfg, self.sec, self.env, self.bag = {}, set(), {}, {}

    def apply(self, op):
        k = op[0]
        if k == "set":
            self.cfg = {**self.cfg, op[1]: op[2]}
        elif k == "all":
            self.cfg = dict(op[1])
            if op[2] is not None:
                self.sec = set(op[2])
        elif k == "env":
            if op[2] is None:
                self.env.pop(envkey(op[1]), None)
            else:
                self.env[envkey(op[1])] = op[2]
        elif k == "bag":
            self.bag = dict(op[1] or {})

    def get(self, full):
        if full in self.cfg:
            return self.cfg[full]
        if envkey(full) in self.env:
            return self.env[envkey(full)]
        return self.bag.get(full)


def do(op):
    from pulumi import runtime

    k = op[0]
    if k == "set":
        runtime.set_config(op[1], op[2])
    elif k == "all":
        arg, keys = dict(op[1]), list(op[2]) if op[2] is not None else None
        if keys is None:
            runtime.set_all_config(arg)
        else:
            runtime.set_all_config(arg, keys)
            keys.append("proj:late")
        arg["proj:k"] = "changed by the caller afterwards"
    elif k == "env":
        if op[2] is None:
            os.environ.pop(envkey(op[1]), None)
        else:
            os.environ[envkey(op[1])] = op[2]
    elif k == "bag":
        if op[1] is None:
            os.environ.pop("PULUMI_CONFIG", None)
        else:
            os.environ["PULUMI_CONFIG"] = json.dumps(op[1])


def clear_env():
    for k in list(os.environ):
        if k.startswith("PULUMI_CONFIG"):
            del os.environ[k]


def in_loop(body):
    async def main(out):
        import pulumi  # noqa
        from pulumi import runtime

        clear_env()
        runtime.set_all_config({}, [])
        try:
            await body()
        finally:
            clear_env()

    def setup(out):
        core.fresh_settings(eng.FakeEngine(), None)
    return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)


SOURCES = ("set", "all", "env", "bag")


def src_op(src, full, text):
    if src == "set":
        return ["set", full, text]
    if src == "all":
        return ["all", {full: text}, [full]]
    if src == "env":
        return ["env", full, text]
    return ["bag", {full: text}]


def value_cases(tier):
    bags = [None, "other", "a:b"]
    keys = ["k", "K-x.é"]
    for t in TEXTS:
        for src in SOURCES:
            for b in bags:
                for k in keys:
                    yield {"ops": [src_op(src, f"{b or 'proj'}:{k}", t)], "bag": b, "key": k}
    for b in bags:
        for k in keys:
            yield {"ops": [], "bag": b, "key": k}
            # near misses: values under other keys must not be taken
            yield {"ops": [["all", {f"{b or 'proj'}:{k}x": "1", f"x{b or 'proj'}:{k}": "1", k: "1", (b or 'proj'): "1"}, []]], "bag": b, "key": k}
    pairs = TEXTS if tier == "thorough" else ["", "1", "true", "null", "{bad"]
    for s1, s2 in itertools.permutations(SOURCES, 2):
        for t1, t2 in itertools.product(pairs, repeat=2):
            if t1 != t2:
                yield {"ops": [src_op(s1, "proj:k", t1), src_op(s2, "proj:k", t2)], "bag": None, "key": "k"}


async def run_case(c):
    import pulumi
    from pulumi import runtime

    clear_env()
    runtime.set_all_config({}, [])
    m = Model()
    for op in c["ops"]:
        do(op)
        m.apply(op)
    cfg = pulumi.Config(c["bag"]) if c["bag"] is not None else pulumi.Config()
    full = f"{c['bag'] or 'proj'}:{c['key']}"
    res = []
    for a in accessors():
        w = want(m.get(full), *a, full)
        g = await read(cfg, c["key"], *a)
        res.append((a, w, g))
    return res


OPS = [["set", "proj:k", "1"], ["set", "proj:j", "x"], ["all", {"proj:k": "2"}, None], ["all", {"proj:k": "3", "proj:j": "4"}, ["proj:k"]], ["all", {}, []], ["all", {"proj:j": "5"}, ["proj:j", "proj:k"]],
       ["env", "proj:k", "6"], ["env", "proj:k", None], ["bag", {"proj:k": "7", "proj:j": "8"}], ["bag", None], ["set", "proj:k", "null"]]


async def run_hist(ops):
    import pulumi
    from pulumi import runtime
    from pulumi.runtime import config as rc

    clear_env()
    runtime.set_all_config({}, [])
    m = Model()
    cfg = pulumi.Config()
    out = []
    for op in ops:
        do(op)
        m.apply(op)
        for k in ("k", "j"):
            full = f"proj:{k}"
            for a in (("get", "str", False, None), ("require", "int", True, None), ("get", "object", False, 9)):
                out.append((["read", op, k, a], want(m.get(full), *a, full), await read(cfg, k, *a)))
            out.append((["is_secret", op, k], full in m.sec, rc.is_config_secret(full)))
    return out


def items(tier, seed):
    it = [{"g": "values", "tier": tier, "shard": s, "shards": 8} for s in range(8)]
    n = 3 if tier == "quick" else 5
    for a in range(len(OPS)):
        for b in range(len(OPS)) if tier == "thorough" else [None]:
            it.append({"g": "hist", "first": a, "second": b, "n": n})
    return it


def hists(item):
    if item["second"] is None:
        for rest in itertools.product(range(len(OPS)), repeat=item["n"] - 1):
            yield [OPS[i] for i in (item["first"],) + rest]
    else:
        for rest in itertools.product(range(len(OPS)), repeat=item["n"] - 2):
            yield [OPS[i] for i in (item["first"], item["second"]) + rest]


def work(st, item):
    async def body():
        if item["g"] == "values":
            for i, c in enumerate(value_cases(item["tier"])):
                if i % item["shards"] != item["shard"]:
                    continue
                for a, w, g in await run_case(c):
                    st.case([c, a, g], outcome=json.dumps(w)[:60], sample={"writes": c["ops"], "accessor": a, "result": g})
                    if g != w:
                        st.add_violation("value:" + json.dumps([a[:3], c["ops"]], sort_keys=True), f"{c} {a}: expected {w}, got {g}", {"g": "values", "c": c})
        else:
            for ops in hists(item):
                bad = None
                n = 0
                for what, w, g in await run_hist(ops):
                    n += 1
                    if g != w and bad is None:
                        bad = (what, w, g)
                st.case(["hist", ops], outcome="history", transitions=n)
                if bad:
                    st.add_violation("hist:" + json.dumps(ops), f"{ops}: {bad[0]}: expected {bad[1]}, got {bad[2]}", {"g": "hist", "ops": ops})

    out = in_loop(body)
    if out.verdict != "ok":
        st.add_violation("run", f"{item}: {out.verdict} {out.exc!r}", {"g": "item", "item": item})


def replay(case):
    bad = []

    async def body():
        if case["g"] == "values":
            bad.extend(x for x in await run_case(case["c"]) if x[1] != x[2])
        elif case["g"] == "hist":
            bad.extend(x for x in await run_hist(case["ops"]) if x[1] != x[2])
    if case["g"] == "item":
        s = report.Stats()
        work(s, case["item"])
        return s.violations
    out = in_loop(body)
    return bad or (out.verdict != "ok" and out)
