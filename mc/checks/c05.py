"""C05: resource registration requests under every order in which the engine may answer."""
import itertools

from .. import core, engine as eng, progs

LEVEL = "model_checking"
RULE = ("every program of the stated node/relation grammar (2 nodes: all kinds x all relations; 3 and 4 nodes: reduced relation sets) x preview/update x every order of RPC completions "
        "(plus, for 2-node programs, completions delivered while callbacks are still runnable, up to the deviation bound) x both iteration orders of resource sets; "
        "every set of two or three resources that share names (only type and parents differ) used in every way by another one; each request is compared with a reference request and with what had been answered when it was sent; states = distinct (program, completion order) pairs.")
ASSUMPTIONS = ["the engine computes one output property 'o' per resource: known in updates, absent in previews", "requests reach the engine when issued; only completions are reordered",
               "programs create their resources synchronously"]

K0 = ["custom", "comp", "remote", "prov", "read", "get"]


def rels(full=True):
    R = [None, ("parent",), ("dep", "list"), ("dep", "outlist"), ("p", "out"), ("p", "res"), ("p", "urn"), ("provider",), ("inside", "id")]
    if full:
        R += [("inside", "out"), ("inside", "urn"), ("dep", "one"), ("dep", "listout"), ("dep", "fut"), ("dep", "tuple"), ("p", "id"), ("p", "apply"), ("p", "all"), ("p", "sec"), ("p", "list"), ("p", "fut"), ("p", "co"), ("p", "secapply"), ("p", "applyurn")]
    return R


def prop(form, j, kinds):
    out = ["out", j] if kinds[j] != "comp" else ["urn", j]
    ident = ["id", j] if kinds[j] not in ("comp", "remote") else ["urn", j]
    return {"out": out, "res": ["res", j], "urn": ["urn", j], "id": ident, "apply": ["apply", out], "applyurn": ["apply", ["urn", j]], "all": ["all", out, ident], "sec": ["sec", out],
            "list": ["list", ["res", j], out, ["v", "c"]], "fut": ["fut", out], "co": ["co", ident], "secapply": ["apply", ["sec", ident]]}[form]


def attach(nd, r, j, kinds):
    """Adds relation r to earlier node j; returns False when it does not make sense."""
    if r is None:
        return True
    if r[0] == "parent":
        if "parent" in nd or kinds[j] == "get":
            return False
        nd["parent"] = j
    elif r[0] == "dep":
        d = nd.get("dep")
        if nd["k"] == "get":
            return False
        if d is None:
            nd["dep"] = [r[1], j]
        elif d[0] == r[1] and d[0] not in ("one",):
            nd["dep"] = d + [j]
        else:
            return False
    elif r[0] == "p":
        if nd["k"] == "comp":
            return False
        nd.setdefault("props", {})["abcd"[len(nd["props"])]] = prop(r[1], j, kinds)
    elif r[0] == "inside":
        if "inside" in nd:
            return False
        nd["inside"] = prop(r[1], j, kinds)
    elif r[0] == "provider":
        if kinds[j] != "prov" or nd["k"] not in ("custom", "read", "remote", "comp") or "provider" in nd:
            return False
        nd["provider"] = j
    return True


def valid(prog):
    for i, nd in enumerate(prog):
        if nd["k"] == "get" and (nd.get("dep") or nd.get("parent") is not None or nd.get("props")):
            return False
    ref = progs.Ref(prog, False)
    try:
        return not ref.cyclic()
    except RecursionError:
        return False


def grow(base, kinds_new, R):
    if any("inside" in n for n in base):
        return  # later nodes may not refer to a resource that does not exist yet
    kinds = [n["k"] for n in base]
    for k in kinds_new:
        for combo in itertools.product(R, repeat=len(base)):
            nd = {"k": k}
            if all(attach(nd, r, j, kinds) for j, r in enumerate(combo)):
                prog = base + [nd]
                if valid(prog):
                    yield prog


R_SMALL = [None, ("parent",), ("dep", "list"), ("p", "out"), ("p", "res")]
R_TINY = [None, ("parent",), ("dep", "list"), ("p", "out")]


def groups(tier):
    """(name, generator of programs, explore budget, early)"""
    th = tier == "thorough"

    def g2():
        for k0 in K0:
            yield [{"k": k0}]
            yield from grow([{"k": k0}], K0, rels())

    def g3():
        for k0 in K0:
            for b in grow([{"k": k0}], ["custom", "comp", "remote", "read"] if th else ["custom", "comp", "remote"], rels() if th else rels(False)):
                yield from grow(b, ["custom", "remote"] + (["comp", "read", "prov"] if th else []), rels(False))

    def g4():
        for k0 in ("comp", "custom"):
            for b in grow([{"k": k0}], ["custom", "comp"] if th else ["custom"], R_SMALL if th else R_TINY):
                for c in grow(b, ["custom", "remote"] if th else ["custom"], R_SMALL if th else R_TINY):
                    yield from grow(c, ["custom"], R_SMALL if th else R_TINY)

    return {"g2": (g2, {"early": 2 if th else 1}, True), "g3": (g3, {"early": 1} if th else {}, False), "g4": (g4, {}, False)}


SHARDS = 64


def items(tier, seed):
    return [{"g": g, "shard": s, "tier": tier} for g in ("same", "g2", "g3", "g4") for s in range(SHARDS)]


def relevant(prog, dry):
    """preview and update differ only through unknowns; both are run for every program"""
    return True


def explore_prog(st, prog, dry, budget, early, hash_sign, gname):
    nodes = len(prog)
    ref = progs.Ref(prog, dry)
    exp = [ref.request(i) + (ref.created(i),) for i in range(nodes)]
    idx = {progs.name(i): i for i in range(nodes)}

    for ch, out in core.explore(lambda ch: run_one(prog, dry, ch, early, hash_sign, exp, idx), budget):
        bad = out.extra["bad"]
        order = tuple(out.sched.delivered)
        case = {"prog": prog, "dry": dry, "choices": ch.choices, "early": early, "hs": hash_sign}
        st.case([prog, dry, hash_sign, order], f"{gname} {out.verdict} {len(out.extra['engine'].events)} rpcs", nontrivial=len(prog) > 1, transitions=len(order), sample={"program": prog, "preview": dry, "completion order": order})
        for k, m in bad:
            st.add_violation(k, m + f"\nprogram={prog} preview={dry} completions={order}", case)


LBL = {"get": "Invoke", "read": "ReadResource"}


def run_one(prog, dry, ch, early, hash_sign, exp, idx):
    bad = []
    n = len(prog)
    lbl = [f"{LBL.get(nd['k'], 'RegisterResource')} {progs.name(i)}" for i, nd in enumerate(prog)]
    root = "RegisterResource proj-stk"

    def on_idle(out):
        e = out.extra["engine"]
        deliv = set(out.sched.delivered)
        sent = {ev.key for ev in e.events}
        for i in range(n):
            if exp[i][2] and progs.name(i) not in sent and root in deliv and all(lbl[j] in deliv for j in exp[i][1]):
                bad.append((f"late:{prog[i]['k']}", f"{progs.name(i)} not sent although everything it depends on ({[lbl[j] for j in exp[i][1]]}) has been answered"))

    out = progs.execute(prog, dry, ch, early=early, hash_sign=hash_sign, auto=("RegisterResourceOutputs",), on_idle=on_idle)
    out.extra["bad"] = bad
    if out.verdict != "ok":
        bad.append((f"verdict:{out.verdict}", f"program ended with {out.verdict} {out.exc!r}"))
        return out
    if out.unhandled:
        bad.append(("unhandled", f"unhandled exceptions in the event loop: {[str(u.get('exception')) for u in out.unhandled]}"))
    seen = {}
    for ev in out.extra["engine"].events:
        if ev.key not in idx:
            continue
        i = idx[ev.key]
        want = LBL.get(prog[i]["k"], "RegisterResource")
        if ev.kind != want:
            bad.append((f"kind:{want}", f"{ev.key}: {ev.kind} sent instead of {want}"))
            continue
        seen[i] = seen.get(i, 0) + 1
        e, needs, _ = exp[i]
        if ev.kind == "RegisterResource":
            v = progs.req_view(ev.req)
        elif ev.kind == "ReadResource":
            v = progs.read_view(ev.req)
        else:
            v = {}
        for f in v:
            if v[f] != e[f]:
                bad.append((f"request:{prog[i]['k']}:{f}", f"{ev.key}: request field {f} is {v[f]!r}, expected {e[f]!r}"))
        missing = [lbl[j] for j in needs if lbl[j] not in ev.delivered]
        if missing:
            bad.append((f"early:{prog[i]['k']}", f"{ev.key} sent before {missing} was answered"))
    for i in range(n):
        if seen.get(i, 0) != (1 if exp[i][2] else 0):
            bad.append((f"count:{prog[i]['k']}", f"{progs.name(i)} sent {seen.get(i, 0)} times"))
    uns = {k: v for k, v in out.extra["settled"].items() if v != "ok"}
    if uns:
        bad.append(("unsettled", f"outputs not resolved at the end: {uns}"))
    if out.extra.get("pending_at_end"):
        bad.append(("pending", f"program ended with unanswered requests {out.extra['pending_at_end']}"))
    return out


# ------------------------------------------------------------------------------------------------
# resources that share names: only the URN tells them apart

MEMBERS = [(par, typ, nm, kind) for par in (None, "p", "q") for typ, kind in (("t:m:A", "custom"), ("t:m:B", "custom"), ("t:m:C", "comp")) for nm in ("n", "m")]
FORMS = ["dep", "depout", "each", "one", "ref", "refs", "parents", "both"]


def same_cases(tier):
    combos = list(itertools.combinations(range(len(MEMBERS)), 2))
    three = itertools.combinations([i for i, m in enumerate(MEMBERS) if m[2] == "n" or m[0] == "q"], 3)
    if tier == "quick":
        three = itertools.islice(three, 0, None, 4)
    for ms in itertools.chain(combos, three, itertools.combinations(range(0, len(MEMBERS), 2), 4) if tier == "thorough" else ()):
        for form in FORMS:
            for dry in (False, True):
                yield {"ms": list(ms), "form": form, "dry": dry, "pn": "n" if sum(ms) % 2 else ""}


def same_run(c, ch):
    import asyncio
    import pulumi
    from pulumi.runtime.stack import run_in_stack

    h = {}

    class R(pulumi.CustomResource):
        def __init__(self, typ, name, props, opts):
            super().__init__(typ, name, {"o": None, **props}, opts)

    def prog():
        pn = c["pn"]
        pars = {None: None, "p": pulumi.ComponentResource("t:m:P", pn or "p", {}), "q": pulumi.ComponentResource("t:m:Q", pn or "q", {})}
        ms = []
        for k in c["ms"]:
            par, typ, nm, kind = MEMBERS[k]
            o = pulumi.ResourceOptions(parent=pars[par])
            if kind == "custom":
                ms.append(R(typ, nm, {"v": k}, o))
            else:
                m = pulumi.ComponentResource(typ, nm, {}, o)
                R("t:m:K", "n", {"v": k}, pulumi.ResourceOptions(parent=m))
                ms.append(m)
        f = c["form"]
        out = lambda m: m.o if isinstance(m, R) else m.urn  # noqa
        props, kw = {}, {}
        if f in ("dep", "both"):
            kw["depends_on"] = ms
        if f == "depout":
            kw["depends_on"] = pulumi.Output.all(*[pulumi.Output.from_input(m.urn).apply(lambda _, m=m: m) for m in ms])
        if f in ("each", "both"):
            props = {f"k{i}": out(m) for i, m in enumerate(ms)}
        if f == "one":
            props = {"k": [out(m) for m in ms]}
        if f == "ref":
            props = {f"k{i}": m for i, m in enumerate(ms)}
        if f == "refs":
            props = {"k": {"a": ms}}
        if f == "parents":
            kw["depends_on"] = [pars["p"], pars["q"]]
        R("t:m:Z", "zz", props, pulumi.ResourceOptions(**kw))

    def setup(out):
        e = h["e"] = eng.FakeEngine(out, dry_run=c["dry"], chooser=ch, respond={"RegisterResource": same_respond})
        core.fresh_settings(e, dry_run=c["dry"])

    async def main(out):
        await run_in_stack(prog)

    with eng.Wire(lambda a: h["e"]):
        out = core.run_loop(main, ch, settle=False, timeout=60, setup=setup)
    return out, h["e"], same_judge(c, out, h["e"])


def same_respond(e, req, resp):
    if not e.dry_run and req.custom:
        resp.object.update({"o": f"{req.type}/{req.name}/{req.parent}"})
    return resp


def same_judge(c, out, e):
    if out.verdict != "ok":
        return [("same:verdict", f"program ended with {out.verdict} {out.exc!r}")]
    root = "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk"
    pu = {None: root, "p": eng.urn_of("t:m:P", c["pn"] or "p", root), "q": eng.urn_of("t:m:Q", c["pn"] or "q", root)}
    urns, stands, out_of, refs = [], [], [], []
    below = {"p": set(), "q": set()}
    for k in c["ms"]:
        par, typ, nm, kind = MEMBERS[k]
        u = eng.urn_of(typ, nm, pu[par])
        s = {u} if kind == "custom" else {eng.urn_of("t:m:K", "n", u)}
        urns.append(u)
        stands.append(s)
        if par:
            below[par] |= s
        out_of.append(u if kind == "comp" else eng.UNKNOWN if c["dry"] else f"{typ}/{nm}/{pu[par]}")
        r = {eng.SIG: eng.RESOURCE_SIG, "urn": u}
        if kind == "custom":
            r["id"] = eng.UNKNOWN if c["dry"] else f"{nm}-id"
        refs.append(r)
    f = c["form"]
    allm = set().union(*stands)
    # an output of a component depends on the component itself; the engine is told about it and what is below it
    want_deps = below["p"] | below["q"] if f == "parents" else allm
    want_obj = {"each": {f"k{i}": v for i, v in enumerate(out_of)}, "one": {"k": out_of}, "ref": {f"k{i}": v for i, v in enumerate(refs)}, "refs": {"k": {"a": refs}}}
    want_obj["both"] = want_obj["each"]
    zz = [ev for ev in e.events if ev.kind == "RegisterResource" and ev.key == "zz"]
    bad = []
    got = sorted((ev.urn for ev in e.events if ev.kind == "RegisterResource"))
    want = sorted([root, pu["p"], pu["q"]] + urns + [next(iter(s)) for s, u in zip(stands, urns) if u not in s] + [eng.urn_of("t:m:Z", "zz", root)])
    if got != want:
        bad.append(("same:registered", f"registered {got}, expected {want}"))
    if len(zz) != 1:
        return bad
    v = progs.req_view(zz[0].req)
    if set(v["deps"]) != want_deps or len(v["deps"]) != len(want_deps):
        bad.append(("same:deps", f"dependencies {v['deps']}, expected {sorted(want_deps)}"))
    if v["object"] != want_obj.get(f, {}):
        bad.append(("same:object", f"properties {v['object']}, expected {want_obj.get(f, {})}"))
    pd = {k: set(d) for k, d in v["pd"].items()}
    wpd = {k: {x for x in xs} for k, xs in ({f"k{i}": s for i, s in enumerate(stands)} if f in ("each", "both", "ref") else {"k": allm} if f in ("one", "refs") else {}).items()}
    if pd != wpd:
        bad.append(("same:pd", f"property dependencies {pd}, expected {wpd}"))
    return bad


def same_work(st, item):
    for i, c in enumerate(same_cases(item["tier"])):
        if i % SHARDS != item["shard"]:
            continue
        for ch, (out, e, bad) in core.explore(lambda ch: same_run(c, ch), {"order": 1 if item["tier"] == "thorough" else 0, "*": 1 if item["tier"] == "thorough" else 0}):
            st.case(["same", c, ch.choices], f"same {out.verdict} {len(e.events)}", transitions=len(e.events), sample={"case": c})
            for k, m in bad:
                st.add_violation(k, m + f"\ncase={c}", {"same": c, "choices": ch.choices})


def work(st, item):
    if item["g"] == "same":
        return same_work(st, item)
    gen, budget, early = groups(item["tier"])[item["g"]]
    for k, prog in enumerate(gen()):
        if k % SHARDS != item["shard"]:
            continue
        for dry in (False, True):
            for hs in ((1, -1) if item["g"] == "g2" else (1,)):
                explore_prog(st, prog, dry, budget, early, hs, item["g"])


def replay(case):
    if "same" in case:
        return same_run(case["same"], core.Chooser(case["choices"]))[2]
    prog, dry = case["prog"], case["dry"]
    ref = progs.Ref(prog, dry)
    exp = [ref.request(i) + (ref.created(i),) for i in range(len(prog))]
    idx = {progs.name(i): i for i in range(len(prog))}
    return run_one(prog, dry, core.Chooser(case["choices"]), case["early"], case["hs"], exp, idx).extra["bad"]
