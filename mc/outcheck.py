"""Enumeration of Output expressions x resolution orders x deployment mode (shared by C01 and C02)."""
import itertools
import json

from . import core, outmodel as om

DRY_KINDS = ["K", "S", "N", "D", "DS", "L", "U", "US", "UV", "DU", "LU", "X"]
UP_KINDS = ["K", "S", "N", "D", "DS", "L", "X"]
FNS = ["id", "none", "boom", "await", "wrap", "rec", "unk", "out:K", "out:S", "out:U", "out:US", "out:X", "nest:S", "nest:U", "all:S", "all:U", "fout:S"]
FNS_UP = [f for f in FNS if f != "unk" and not f.endswith("U") and f != "out:US"]


def unary(dry, small=False):
    fns = FNS if dry else FNS_UP
    if small:
        fns = [f for f in fns if f in ("id", "boom", "wrap", "await", "out:K", "out:S", "out:U", "nest:S", "rec")]
    ops = [lambda e, f=f: ["apply", e, f] for f in fns]
    if dry:
        ops += [lambda e, f=f: ["applyu", e, f] for f in (("id", "wrap") if small else ("id", "wrap", "const", "out:S"))]
    ops += [lambda e: ["secret", e], lambda e: ["unsecret", e], lambda e: ["item", e, "a"], lambda e: ["from", {"x": e}]]
    if not small:
        ops += [lambda e: ["attr", e, "a"], lambda e: ["item", e, 0], lambda e: ["item", e, "b"], lambda e: ["all", e],
                lambda e: ["alld", ["k", e]], lambda e: ["from", {"l": [{"x": e}, {"v": "t"}]}],
                lambda e: ["from", {"d": {"o": {"l": [{"x": e}]}, "e": {"v": []}}}]]
    return ops


BIN = [
    lambda a, b: ["all", a, b],
    lambda a, b: ["alld", ["k1", a], ["k2", b]],
    lambda a, b: ["concat", a, b],
    lambda a, b: ["from", {"l": [{"x": a}, {"x": b}]}],
    lambda a, b: ["from", {"d": {"p": {"x": a}, "q": {"l": [{"v": "t"}, {"x": b}]}}}],
    lambda a, b: ["from", {"a": {"first_arg": {"x": a}, "b": {"x": b}}}],
]


def leaves(dry, start):
    return [["leaf", k, start] for k in (DRY_KINDS if dry else UP_KINDS)]


def inputs(dry, start):
    return leaves(dry, start) + [["plain", "x"], ["fut", ["plain", "f"]], ["fut", ["leaf", "S", start]], ["plain", ["i", {"j": "k"}]]]


# JSON names of generator functions, so work items stay JSON-able
def gen(dry, group, tier):
    U, Us = unary(dry), unary(dry, True)
    L1, I1, I2 = leaves(dry, 1), inputs(dry, 1), inputs(dry, 2)
    if group == "leaf":
        yield from L1
        yield from (["from", {"x": i}] for i in I1)
        yield ["all"]
        yield ["from", {"v": {}}]
        yield ["from", {"v": []}]
    elif group == "u1":
        for u in U:
            for l in L1:
                yield u(l)
        for i in I1:
            yield ["secret", i]
    elif group == "b1":
        for b in BIN:
            for x in I1:
                for y in I2:
                    yield b(x, y)
    elif group == "t1":
        I3 = inputs(dry, 3)
        for x in I1[::2]:
            for y in I2[1::2]:
                for z in I3[::3]:
                    yield ["all", x, y, z]
                    yield ["concat", x, y, z]
    elif group == "u2":
        for u in U:
            for w in U:
                for l in L1:
                    yield u(w(l))
    elif group == "u3":
        for u in Us:
            for w in Us:
                for x in Us:
                    for l in L1:
                        yield u(w(x(l)))
    elif group == "ub":
        for u in Us if tier == "quick" else U:
            for b in BIN:
                for x in I1:
                    for y in I2:
                        yield u(b(x, y))
    elif group == "bu":
        for b in BIN:
            for w in Us if tier == "quick" else U:
                for x in leaves(dry, 1):
                    for y in I2:
                        yield b(w(x), y)
    elif group == "buu":
        for b in BIN:
            for w in Us:
                for w2 in Us:
                    for x in leaves(dry, 1):
                        for y in leaves(dry, 2):
                            yield b(w(x), w2(y))
    elif group == "uub":
        for u in Us:
            for u2 in Us:
                for b in BIN:
                    for x in I1:
                        for y in I2:
                            yield u(u2(b(x, y)))
    elif group == "alias":
        # the same Output object used twice is the same leaf id; distinct leaves sharing a dependency
        for x in L1:
            yield ["all", x, x]
            yield ["from", {"d": {"p": {"x": x}, "q": {"d": {"r": {"x": x}}}}}]


PLAN = {
    # group: (mode, budget)
    "quick": [("leaf", "split", 9), ("leaf", "late", 9), ("leaf", "now", 0), ("u1", "late", 9), ("u1", "now", 0), ("u1", "split", 2),
              ("b1", "late", 9), ("b1", "now", 0), ("b1", "split", 1), ("alias", "late", 9), ("t1", "late", 9), ("u2", "late", 2), ("u2", "now", 0),
              ("u3", "late", 0), ("ub", "late", 1), ("bu", "late", 1)],
    "thorough": [("leaf", "split", 9), ("leaf", "late", 9), ("leaf", "now", 0), ("u1", "late", 9), ("u1", "now", 0), ("u1", "split", 9),
                 ("b1", "late", 9), ("b1", "now", 0), ("b1", "split", 3), ("alias", "split", 3), ("t1", "late", 9), ("t1", "split", 1), ("u2", "late", 9), ("u2", "split", 1), ("u2", "now", 0),
                 ("u3", "late", 9), ("u3", "now", 0), ("ub", "late", 9), ("ub", "now", 0), ("bu", "late", 9), ("bu", "split", 1), ("buu", "late", 1), ("uub", "late", 0)],
}


def items(tier, seed):
    out = []
    for dry in (True, False):
        for group, mode, budget in PLAN[tier]:
            shards = {"leaf": 1, "u1": 1, "alias": 1}.get(group, 16)
            for s in range(shards):
                out.append({"dry": dry, "group": group, "mode": mode, "budget": budget, "shard": s, "shards": shards, "tier": tier})
    # big ones first
    order = {"uub": 0, "buu": 1, "ub": 2, "u3": 3, "bu": 4, "u2": 5, "b1": 6}
    out.sort(key=lambda i: order.get(i["group"], 9))
    return out


def run_one(expr, dry, mode, chooser, early=False):
    async def main(out):
        real = om.Real(out.loop, mode)
        out.extra["real"] = real
        o = real.ev(expr, "")
        return await om.real_obs(o)

    return core.run_loop(main, chooser, early=early, settle=False, timeout=30,
                         setup=lambda out: core.fresh_settings(None, dry_run=dry))


def check(expr, dry, mode, chooser):
    """-> (out, list of (aspect, message))"""
    m = om.Model(dry)
    want = om.model_obs(m.ev(expr, ""))
    out = run_one(expr, dry, mode, chooser)
    bad = []
    if out.verdict != "ok":
        return out, want, None, [("value", f"observing the output never settled: {out.verdict} {out.exc!r}")]
    got = out.value
    if got != want:
        bad.append(("value", f"expected {json.dumps(want, sort_keys=True)}, observed {json.dumps(got, sort_keys=True, default=str)}"))
    k = lambda c: json.dumps(c, sort_keys=True, default=str)  # noqa
    wc, gc = sorted(map(k, m.calls)), sorted(map(k, out.extra["real"].calls))
    if wc != gc:
        bad.append(("calls", f"expected callback invocations {wc}, observed {gc}"))
    return out, want, got, bad


def work(st, item, aspect):
    i = 0
    for expr in gen(item["dry"], item["group"], item["tier"]):
        i += 1
        if i % item["shards"] != item["shard"]:
            continue
        first = True
        for ch, res in core.explore(lambda c: check(expr, item["dry"], item["mode"], c), {"order": item["budget"]}):
            out, want, got, bad = res
            obs = want if aspect == "value" else sorted(map(str, out.extra["real"].calls)) if "real" in out.extra else None
            st.case([expr, item["dry"], item["mode"], ch.choices], outcome=json.dumps(obs, sort_keys=True, default=str)[:70],
                    transitions=out.sched.submitted + 1, nontrivial=first,
                    sample={"expr": expr, "dry_run": item["dry"], "order": ch.choices, "observed": got})
            first = False
            for a, msg in bad:
                if a == aspect:
                    st.add_violation(f"{aspect}:{shape(expr)}:{item['dry']}", f"{json.dumps(expr)} dry_run={item['dry']} mode={item['mode']} schedule={ch.choices}: {msg}",
                                     {"expr": expr, "dry": item["dry"], "mode": item["mode"], "choices": ch.choices})


def shape(expr):
    return json.dumps(expr)


def replay(case, aspect):
    ch = core.Chooser(case["choices"])
    out, want, got, bad = check(case["expr"], case["dry"], case["mode"], ch)
    return [b for b in bad if b[0] == aspect]
