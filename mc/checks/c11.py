"""C11: expansion of dependencies on components, and absence of self-made deadlocks."""
import itertools

from .. import core, progs

LEVEL = "model_checking"
RULE = ("every program of n resources: kind assignment x parent tree x relation between every pair (none, explicit dependency, input using the URN, input holding the resource, both) x iteration order of resource sets x order of "
        "answers (within the order budget); cyclic ones included; (late) children of a component created inside callbacks while somebody waits for the component. Checked: termination, dependencies sent = expansion minus only such edges "
        "as would close a cycle with what is really waited for, nothing sent before what it depends on; states = distinct (program, completion order) pairs.")
ASSUMPTIONS = ["excluded: programs in which an input needs the value of a resource (other than one of the enclosing ones) that itself must wait for the resource being created"]

LBL = {"get": "Invoke", "read": "ReadResource"}


def gen(n, K, R, first_comp=True):
    for kinds in itertools.product(K, repeat=n):
        if "comp" not in kinds:
            continue
        for par in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
            edges = [(i, j) for i in range(n) for j in range(i)]
            if all(p is None for p in par):
                continue
            for es in itertools.product(R, repeat=len(edges)):
                prog = build(n, kinds, par, edges, es)
                if prog:
                    yield prog


def build(n, kinds, par, edges, es):
    prog = []
    for i in range(n):
        nd = {"k": kinds[i]}
        if par[i] is not None:
            nd["parent"] = par[i]
        for (a, j), e in zip(edges, es):
            if a != i:
                continue
            if e in ("dep", "both"):
                nd["dep"] = nd.get("dep", ["list"]) + [j]
            if e in ("purn", "both"):
                nd.setdefault("props", {})["abcd"[j]] = ["urn", j]
            if e == "pres":
                nd.setdefault("props", {})["abcd"[j]] = ["list", ["res", j]]
            if e == "pap":
                nd.setdefault("props", {})["abcd"[j]] = ["apply", ["urn", j]]
        if nd.get("props") and nd["k"] == "comp":
            return None
        prog.append(nd)
    return prog


def late_progs():
    """Two components with early and late children (created when something else is answered), and resources waiting for them."""
    for waits in (["list", 0], ["list", 3], ["list", 0, 3], ["outlist", 0]):
        for trig in ("urn", "id", "out"):
            for late_kind in ("custom", "comp", "remote"):
                for par in (0, 3):
                    for second in (None, 1, 2):
                        prog = [{"k": "comp"}, {"k": "custom", "parent": 0}, {"k": "custom"}, {"k": "comp", "parent": 0}, {"k": "custom", "parent": 3}, {"k": "custom", "dep": waits},
                                {"k": late_kind, "parent": par, "inside": [trig, 2]}]
                        if second is not None:
                            prog.append({"k": "custom", "parent": 0, "inside": ["urn", second]})
                        yield prog


def ancestors(prog, i):
    out = []
    p = prog[i].get("parent")
    while p is not None:
        out.append(p)
        p = prog[p].get("parent")
    return out


def value_refs(r):
    if r[0] in ("urn", "id", "out", "res"):
        return {r[1]}
    out = set()
    for x in r[1:]:
        if isinstance(x, list):
            out |= value_refs(x)
    return out


def closure(g, src):
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        for y in g[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def analyse(prog, dry):
    n = len(prog)
    ref = progs.Ref(prog, dry)
    reqs = [ref.request(i)[0] for i in range(n)]
    urn2i = {ref.urn(i): i for i in range(n)}
    soft = [{urn2i[u] for u in reqs[i]["deps"]} - {i} for i in range(n)]
    hard = [set() for _ in range(n)]
    val = [set() for _ in range(n)]
    for i, nd in enumerate(prog):
        if nd.get("parent") is not None:
            hard[i].add(nd["parent"])
        anc = set(ancestors(prog, i))
        for r in nd.get("props", {}).values():
            vs = value_refs(r)
            hard[i] |= vs
            val[i] |= vs - anc
        if nd.get("inside") is not None:
            vs = value_refs(nd["inside"])
            val[i] |= vs - anc
            hard[i] |= vs
    g = [soft[i] | hard[i] for i in range(n)]
    inscope = all(i not in closure(g, j) and i != j for i in range(n) for j in val[i])
    return {"ref": ref, "reqs": reqs, "urn2i": urn2i, "hard": hard, "soft": soft, "inscope": inscope, "cyclic": any(i in closure(g, i) for i in range(n))}


def strip(v):
    """dependency lists inside output values are judged separately"""
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k != "dependencies"}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def vdeps(v, out):
    if isinstance(v, dict):
        if isinstance(v.get("dependencies"), list):
            out |= set(v["dependencies"])
        for x in v.values():
            vdeps(x, out)
    if isinstance(v, list):
        for x in v:
            vdeps(x, out)
    return out


def run_one(prog, dry, ch, hs, info):
    n = len(prog)
    out = progs.execute(prog, dry, ch, hash_sign=hs, auto=("RegisterResourceOutputs",))
    bad = []
    out.extra["bad"] = bad
    late = {i for i, nd in enumerate(prog) if nd.get("inside") is not None}
    if out.verdict != "ok":
        bad.append((f"verdict:{out.verdict}", f"program ended with {out.verdict} {out.exc!r}"))
        return out
    got, idx = {}, {progs.name(i): i for i in range(n)}
    for ev in out.extra["engine"].events:
        if ev.kind == "RegisterResource" and ev.key in idx:
            if idx[ev.key] in got:
                bad.append(("count", f"{ev.key} registered twice"))
            got[idx[ev.key]] = (progs.req_view(ev.req), ev.delivered)
    act = [set() for _ in range(n)]
    for i in range(n):
        if i not in got:
            bad.append(("count", f"{progs.name(i)} not registered"))
            continue
        v, _ = got[i]
        for u in v["deps"]:
            if u not in info["urn2i"]:
                bad.append(("unknown-urn", f"{progs.name(i)} depends on {u}"))
            else:
                act[i].add(info["urn2i"][u])
    real = [act[i] | info["hard"][i] for i in range(n)]
    for i in got:
        v, delivered = got[i]
        e = info["reqs"][i]
        for f in ("type", "name", "parent", "custom", "remote"):
            if v[f] != e[f]:
                bad.append((f"request:{f}", f"{progs.name(i)}: {f} is {v[f]!r}, expected {e[f]!r}"))
        if strip(v["object"]) != strip(e["object"]):
            bad.append(("request:object", f"{progs.name(i)}: inputs {v['object']}, expected {e['object']}"))
        exp = info["soft"][i]
        extra = act[i] - exp
        if extra:
            bad.append(("extra", f"{progs.name(i)} depends on {sorted(extra)} which it should not"))
        for j in exp - act[i]:
            if j in late:
                continue
            if i not in closure(real, j):
                bad.append(("dropped", f"{progs.name(i)} lost its dependency on {progs.name(j)}, which would not have closed a cycle; sent {act}"))
        allpd = set()
        for k, us in v["pd"].items():
            if not set(us) <= set(e["pd"].get(k, [])):
                bad.append(("pd-extra", f"{progs.name(i)}: property {k} depends on {us}, expected at most {e['pd'].get(k)}"))
            allpd |= set(us)
            # what one property depends on is dropped from it only when the whole request drops it
            for u in set(e["pd"].get(k, [])) - set(us):
                j = info["urn2i"][u]
                if j in act[i] and j not in late:
                    bad.append(("pd-dropped", f"{progs.name(i)}: property {k} lost its dependency on {u}"))
        if set(v["pd"]) != set(e["pd"]):
            bad.append(("pd-keys", f"{progs.name(i)}: property dependencies for {sorted(v['pd'])}, expected {sorted(e['pd'])}"))
        if not allpd <= set(v["deps"]):
            bad.append(("pd-notin", f"{progs.name(i)}: property dependencies {allpd} not among the dependencies {v['deps']}"))
        od, oe = vdeps(v["object"], set()), vdeps(e["object"], set())
        if not od <= oe:
            bad.append(("output-deps", f"{progs.name(i)}: output values depend on {od}, expected at most {oe}"))
        for u in oe - od:
            j = info["urn2i"][u]
            if j in act[i] and j not in late:
                bad.append(("output-deps-lost", f"{progs.name(i)}: output values lost their dependency on {u}"))
        for j in act[i] | info["hard"][i]:
            if f"RegisterResource {progs.name(j)}" not in delivered:
                bad.append(("early", f"{progs.name(i)} sent before {progs.name(j)} was answered"))
    if any(i in closure([a | ({prog[k]['parent']} if prog[k].get('parent') is not None else set()) for k, a in enumerate(act)], i) for i in range(n)):
        bad.append(("cycle-sent", f"the dependencies sent form a cycle: {act}"))
    uns = {k: v for k, v in out.extra["settled"].items() if v != "ok"}
    if uns:
        bad.append(("unsettled", f"outputs not resolved at the end: {uns}"))
    return out


def groups(tier):
    th = tier == "thorough"
    return {
        "dep3": (lambda: gen(3, ("comp", "custom", "remote"), ("", "dep")), {}, (1, -1), (False, True)),
        "mix3": (lambda: gen(3, ("comp", "custom", "remote"), ("", "dep", "purn", "pres", "both", "pap")), {} if th else {"order": 1}, (1, -1), (False, True) if th else (False,)),
        "dep4": (lambda: gen(4, ("comp", "custom"), ("", "dep")), {"order": 1} if th else {"order": 0}, (1, -1) if th else (1,), (False,)),
        "late": (late_progs, {} if th else {"order": 2}, (1, -1) if th else (1,), (False,)),
        **({"dep5": (lambda: gen5(), {"order": 0}, (1,), (False,)), "mix4": (lambda: gen4mix(), {"order": 0}, (1, -1), (False,))} if th else {}),
    }


def gen5():
    """five resources: trees of components with leaves, at most three dependency edges"""
    n = 5
    for kinds in itertools.product(("comp", "custom"), repeat=n):
        if kinds.count("comp") not in (2, 3) or kinds[0] != "comp":
            continue
        for par in itertools.product(*[[None] + [j for j in range(i) if kinds[j] == "comp"] for i in range(n)]):
            edges = [(i, j) for i in range(n) for j in range(i)]
            for k in (2, 3):
                for chosen in itertools.combinations(edges, k):
                    yield build(n, kinds, par, edges, ["dep" if e in chosen else "" for e in edges])


def gen4mix():
    n = 4
    for kinds in itertools.product(("comp", "custom", "remote"), repeat=n):
        if kinds[0] != "comp":
            continue
        for par in itertools.product(*[[None] + [j for j in range(i) if kinds[j] == "comp"] for i in range(n)]):
            edges = [(i, j) for i in range(n) for j in range(i)]
            for k in (1, 2, 3):
                for chosen in itertools.combinations(edges, k):
                    for rel in itertools.product(("dep", "purn", "pres"), repeat=k):
                        m = dict(zip(chosen, rel))
                        p = build(n, kinds, par, edges, [m.get(e, "") for e in edges])
                        if p:
                            yield p


SHARDS = 32


def items(tier, seed):
    return [{"g": g, "shard": s, "tier": tier} for g in groups(tier) for s in range(SHARDS)]


def work(st, item):
    g, budget, signs, drys = groups(item["tier"])[item["g"]]
    for k, prog in enumerate(g()):
        if k % SHARDS != item["shard"]:
            continue
        for dry in drys:
            if dry and any(nd.get("inside") and nd["inside"][0] != "urn" for nd in prog):
                continue
            info = analyse(prog, dry)
            if not info["inscope"]:
                st.notes["programs outside the assumption"] += 1
                continue
            if info["cyclic"]:
                st.notes["programs with cyclic dependencies"] += 1
            for hs in signs:
                for ch, out in core.explore(lambda ch: run_one(prog, dry, ch, hs, info), budget):
                    order = tuple(out.sched.delivered)
                    st.case([prog, dry, hs, order], f"{item['g']} {out.verdict} cyclic={info['cyclic']} {len(order)}", transitions=len(order), sample={"program": prog, "preview": dry, "completion order": order})
                    for key, m in out.extra["bad"]:
                        st.add_violation(key, m + f"\nprogram={prog} preview={dry} set order={hs} completions={order}", {"prog": prog, "dry": dry, "hs": hs, "choices": ch.choices})


def replay(case):
    return run_one(case["prog"], case["dry"], core.Chooser(case["choices"]), case["hs"], analyse(case["prog"], case["dry"])).extra["bad"]
