"""C09: options given to a resource, or inherited from what encloses it, reach the engine."""
import itertools

from .. import core, engine as eng
from . import c09calls

LEVEL = "model_checking"
RULE = ("(inherit) every chain of 0-2 enclosing resources x protect/provider/providers setting at every level x leaf kind (custom of either package, read, remote component, invoke); "
        "(transform) every distribution of 0-2 transformations over stack/component/component/leaf x what each returns; (fields) every option field alone and in pairs x resource kind; (calls) calls of methods and invokes x provider/version/URL wherever set x argument tuples with what they depend on; "
        "requests compared with a reference; states = distinct (program, requests) pairs.")
ASSUMPTIONS = ["two provider packages", "giving one resource both 'provider' and a 'providers' entry of the same package is only judged for that resource itself (deprecated by the SDK)"]

# provider settings of one level: name -> (provider, providers)
PROV = {
    "-": (None, None),
    "t1": ("T1", None),
    "u1": ("U1", None),
    "[t2]": (None, ["T2"]),
    "[t2,u2]": (None, ["T2", "U2"]),
    "{u2}": (None, {"u": "U2"}),
    "t1[u2]": ("T1", ["U2"]),
    "t1[t2]": ("T1", ["T2"]),
    "[]": (None, []),
}
PROT = (None, True, False)
PKG = {"T1": "t", "T2": "t", "U1": "u", "U2": "u"}


def emap(parent, s):
    prov, provs = PROV[s]
    m = dict(parent)
    own = {}
    for p in provs.values() if isinstance(provs, dict) else (provs or []):
        own[PKG[p]] = p
    if prov is not None:
        own.setdefault(PKG[prov], prov)
    m.update(own)
    return m, own


def leaf_expect(levels, leaf):
    """levels: [(kind, prot, provset)], leaf: (kind, prot, provset) -> dict or 'ValueError'"""
    m, prot = {}, False
    for kind, p, s in levels:
        m, _ = emap(m, s)
        if p is not None:
            prot = p
    kind, p, s = leaf
    prov, _ = PROV[s]
    mm, own = emap(m, s)
    if p is not None:
        prot = p
    pkg = kind[-1]
    if kind.startswith("remote"):
        _, provs = PROV[s]
        sent = dict(own)
        if prov is not None:
            sent[PKG[prov]] = prov
        # a provider of its own keeps a remote component from inheriting one
        if prov is None and pkg in m and pkg not in sent:
            sent[pkg] = m[pkg]
        return {"protect": prot, "providers": sent, "provider": None}
    if prov is not None:
        if kind.startswith(("custom", "read")) and PKG[prov] != pkg:
            return "ValueError"
        use = prov
    else:
        use = own.get(pkg) or m.get(pkg)
    return {"protect": prot, "provider": use, "providers": {}}


def run(body, dry, engine=True, unknown=False):
    def setup(out):
        def inv(e, req, resp):
            return resp

        e = eng.FakeEngine(dry_run=dry)
        out.extra["engine"] = e
        core.fresh_settings(e, e, dry_run=dry)

    async def main(out):
        from pulumi.runtime import stack as rt_stack

        out.extra["engine"].out = out
        await rt_stack.run_in_stack(lambda: body(out))

    return core.run_loop(main, core.Chooser(), setup=setup, settle=False)


def provider_ref(e, n, dry):
    urn = f"urn:pulumi:stk::proj::pulumi:providers:{PKG[n]}::{n}"
    return f"{urn}::{eng.UNKNOWN if dry else n + '-id'}"


def build_inherit(levels, leaf, out):
    import pulumi as p

    P = {}

    def prov(n):
        if n not in P:
            P[n] = p.ProviderResource(PKG[n], n)
        return P[n]

    def kw(level, parent):
        kind, prot, s = level
        d = {}
        if parent is not None:
            d["parent"] = parent
        if prot is not None:
            d["protect"] = prot
        pr, prs = PROV[s]
        if pr is not None:
            d["provider"] = prov(pr)
        if prs is not None:
            d["providers"] = {k: prov(v) for k, v in prs.items()} if isinstance(prs, dict) else [prov(x) for x in prs]
        return d

    parent = None
    for i, lv in enumerate(levels):
        opts = p.ResourceOptions(**kw(lv, parent))
        before = dict(opts.__dict__)
        if lv[0].startswith("comp"):
            parent = p.ComponentResource(f"{lv[0][-1]}:m:Comp", f"l{i}", None, opts)
        else:
            parent = p.CustomResource(f"{lv[0][-1]}:m:C", f"l{i}", None, opts)
        if dict(opts.__dict__) != before:
            out.extra["mutated"] = True
    k = leaf[0]
    d = kw(leaf, parent)
    pkg = k[-1]
    if k.startswith("invoke"):
        d.pop("protect", None)
        d.pop("providers", None)
        o = p.InvokeOptions(**d)
        before = dict(o.__dict__)
        p.runtime.invoke(f"{pkg}:m:fn", {"x": 1}, o)
        if dict(o.__dict__) != before:
            out.extra["mutated"] = True
        return
    if k.startswith("read"):
        d["id"] = "rid"
    o = p.ResourceOptions(**d)
    before = dict(o.__dict__)
    try:
        if k.startswith("remote"):
            p.ComponentResource(f"{pkg}:m:R", "leaf", None, o, True)
        else:
            p.CustomResource(f"{pkg}:m:C", "leaf", None, o)
    except ValueError as e:
        out.extra["error"] = e
    if dict(o.__dict__) != before:
        out.extra["mutated"] = True


def check_inherit(levels, leaf, dry):
    out = run(lambda out: build_inherit(levels, leaf, out), dry)
    exp = leaf_expect(levels, leaf)
    if out.verdict != "ok":
        return [(f"inherit:{out.verdict}:{type(out.exc).__name__}", repr(out.exc))], out
    bad = []
    if out.extra.get("mutated"):
        bad.append(("inherit:mutated", "the options object passed by the caller was modified"))
    if exp == "ValueError":
        if "error" not in out.extra:
            bad.append(("inherit:mismatch-accepted", "a provider of another package was accepted"))
        return bad, out
    if "error" in out.extra:
        return bad + [("inherit:spurious-error", repr(out.extra["error"]))], out
    e = out.extra["engine"]
    ev = [x for x in e.events if x.key == "leaf" or (leaf[0].startswith("invoke") and x.kind == "Invoke")]
    if len(ev) != 1:
        return bad + [("inherit:count", f"{len(ev)} requests for the leaf")], out
    req = ev[0].req
    want_p = provider_ref(e, exp["provider"], dry) if exp["provider"] else ""
    if req.provider != want_p:
        bad.append((f"inherit:provider:{leaf[0]}", f"provider sent: {req.provider!r}, expected {want_p!r}"))
    if leaf[0].startswith(("custom", "remote")):
        if bool(req.protect) != exp["protect"]:
            bad.append((f"inherit:protect:{leaf[0]}", f"protect sent: {req.protect}, expected {exp['protect']}"))
        wantps = {k: provider_ref(e, v, dry) for k, v in exp["providers"].items()}
        if dict(req.providers) != wantps:
            bad.append((f"inherit:providers:{leaf[0]}", f"providers sent: {dict(req.providers)}, expected {wantps}"))
    return bad, out


def gen_inherit(tier):
    leaves = [(k, pr, s) for k in ("custom-t", "custom-u", "read-t", "remote-t") for pr in (PROT if k.startswith(("custom-t", "remote")) else (None,)) for s in PROV]
    leaves += [(k, None, s) for k in ("invoke-t", "invoke-u") for s in ("-", "t1", "u1")]
    leaves = [lf for lf in leaves if not (lf[2] == "t1[t2]" and lf[0] == "custom-u")]  # a conflict and a mismatch at once
    lv1 = [(k, pr, s) for k in ("comp-t", "comp-u") for pr in PROT for s in PROV if s != "t1[t2]"]
    lv1 += [("custom-t", None, s) for s in ("-", "t1", "[t2]", "[t2,u2]")]
    for leaf in leaves:
        if leaf[0].startswith("invoke") and leaf[2] != "-" and PKG[PROV[leaf[2]][0]] != leaf[0][-1]:
            continue
        yield [], leaf
        for a in lv1:
            yield [a], leaf
    # two levels: protection and providers are explored separately (they are independent), then jointly for the plain leaf
    s2 = [s for s in PROV if s != "t1[t2]"]
    for s, s1 in itertools.product(s2, repeat=2):
        for k0, k1 in itertools.product(("comp-t", "comp-u"), repeat=2):
            for leaf in [(k, None, ls) for k in ("custom-t", "custom-u", "read-t", "remote-t", "invoke-t", "invoke-u") for ls in (["-", "[u2]x"] if False else ["-"])] + [("custom-t", None, "{u2}"), ("remote-t", None, "{u2}"), ("custom-t", None, "t1")]:
                yield [(k0, None, s), (k1, None, s1)], leaf
    for a, b, c in itertools.product(PROT, repeat=3):
        for k0, k1 in itertools.product(("comp-t", "custom-t"), repeat=2):
            for lk in ("custom-t", "remote-t"):
                yield [(k0, a, "-"), (k1, b, "-")], (lk, c, "-")
    if tier == "thorough":
        for a, b in itertools.product(lv1, repeat=2):
            for leaf in [("custom-t", None, "-"), ("custom-u", True, "-"), ("remote-t", None, "-"), ("read-t", None, "-"), ("invoke-u", None, "-"), ("remote-t", False, "[t2,u2]")]:
                yield [a, b], leaf
        for a, b, c in itertools.product(s2, repeat=3):
            for leaf in [("custom-t", None, "-"), ("custom-u", None, "-"), ("remote-t", None, "-")]:
                yield [("comp-t", None, a), ("comp-u", None, b), ("comp-t", None, c)], leaf


# -- transformations ---------------------------------------------------------------------------

ACT = ("none", "log", "protect", "rename")


def gen_transform(tier):
    per = [(), ("log",), ("none",), ("log", "log2"), ("protect",), ("opts",)]
    for combo in itertools.product(per, repeat=4):
        if tier != "thorough" and sum(len(c) for c in combo) > 4:
            continue
        yield combo
    # one and the same function, given more than once
    for combo in itertools.product([(), ("same",), ("same", "same"), ("log", "same")], repeat=4):
        if any("same" in c for c in combo):
            yield combo
    # a result that would move the resource
    for i in range(4):
        for act in ("move", "drop", "keep"):
            yield tuple((act,) if j == i else () for j in range(4))


def check_transform(combo, leafkind):
    """combo: transformations of (stack, outer component, inner component, leaf)"""
    import pulumi as p

    calls = []
    other = []

    def shared(args):
        calls.append(("*", "same", args.name, args.type_, sorted(args.props)))
        return p.ResourceTransformationResult({**args.props, "log": list(args.props.get("log", [])) + ["same"]}, args.opts)

    def mk(level, act):
        if act == "same":
            return shared

        def t(args):
            if args.name == "elsewhere":
                return None
            calls.append((level, act, args.name, args.type_, sorted(args.props)))
            if act == "none":
                return None
            props, opts = args.props, args.opts
            if act.startswith("log"):
                props = {**props, "log": list(props.get("log", [])) + [f"{level}{act}"]}
            elif act == "protect":
                opts = p.ResourceOptions.merge(opts, p.ResourceOptions(protect=True))
            elif act == "move":
                opts = p.ResourceOptions.merge(opts, p.ResourceOptions(parent=other[0]))
            elif act == "drop":
                opts = p.ResourceOptions(protect=opts.protect)
            elif act == "keep":
                opts = p.ResourceOptions(parent=opts.parent, protect=opts.protect)
            elif act == "opts":
                opts = p.ResourceOptions.merge(opts, p.ResourceOptions(version=f"v{level}"))
            return p.ResourceTransformationResult(props, opts)

        return t

    names = ["S", "O", "I", "L"]

    def body(out):
        other.append(p.ComponentResource("t:m:Comp", "elsewhere", None))
        for a in combo[0]:
            p.runtime.register_stack_transformation(mk("S", a))
        o = p.ComponentResource("t:m:Comp", "outer", None, p.ResourceOptions(transformations=[mk("O", a) for a in combo[1]] or None))
        i = p.ComponentResource("t:m:Comp", "inner", None, p.ResourceOptions(parent=o, transformations=[mk("I", a) for a in combo[2]] or None))
        lo = p.ResourceOptions(parent=i, transformations=[mk("L", a) for a in combo[3]] or None)
        if leafkind == "remote":
            p.ComponentResource("t:m:R", "leaf", {"a": "x"}, lo, True)
        elif leafkind == "prov":
            p.ProviderResource("t", "leaf", {"a": "x"}, lo)
        else:
            p.CustomResource("t:m:C", "leaf", {"a": "x"}, lo)

    out = run(body, False)
    # (wherever it is given, it runs for a resource that has a parent)
    if any(a in ("move", "drop") for acts in combo for a in acts):
        if out.verdict == "ok" or "parent" not in str(out.exc):
            return [("transform:moved", f"a transformation that changes the parent was accepted ({out.verdict}, {out.exc!r})")], out
        return [], out
    if out.verdict != "ok":
        return [(f"transform:{out.verdict}", repr(out.exc))], out
    bad = []
    chain = {"outer": [1, 0], "inner": [2, 1, 0], "leaf": [3, 2, 1, 0]}
    reqs = {ev.key: ev.req for ev in out.extra["engine"].events if ev.kind == "RegisterResource"}
    for nm, lv in chain.items():
        log, version, prot = [], "", False
        expcalls = []
        for x in lv:
            for a in combo[x]:
                expcalls.append((names[x], a) if a != "same" else ("*", a))
                if a.startswith("log"):
                    log.append(f"{names[x]}{a}")
                if a == "same":
                    log.append("same")
                if a == "opts":
                    version = f"v{names[x]}"
                if a == "protect":
                    prot = True
        # protection set by a transformation of an enclosing resource is also inherited
        par = {"inner": "outer", "leaf": "inner"}.get(nm)
        while par:
            if any(a == "protect" for x in chain[par] for a in combo[x]):
                prot = True
            par = {"inner": "outer"}.get(par)
        got = [(c[0], c[1]) for c in calls if c[2] == nm]
        if got != expcalls:
            bad.append(("transform:order", f"transformations applied to {nm}: {got}, expected {expcalls}"))
        req = reqs.get(nm)
        if req is None:
            bad.append(("transform:missing", f"{nm} not registered"))
            continue
        obj = eng.from_struct(req.object)
        if obj.get("log", []) != log:
            bad.append(("transform:props", f"{nm} inputs {obj}, expected log {log}"))
        if nm == "leaf" and obj.get("a") != "x":
            bad.append(("transform:props", f"leaf lost its inputs: {obj}"))
        if req.version != version:
            bad.append(("transform:opts", f"{nm} version {req.version!r}, expected {version!r}"))
        if req.protect != prot:
            bad.append(("transform:protect", f"{nm} protect {req.protect}, expected {prot}"))
    return bad, out


# -- option fields ---------------------------------------------------------------------------------


def fields():
    import pulumi as p

    return {
        "protect": ([True, False], lambda v: {"protect": v}),
        "delete_before_replace": ([True, False], lambda v: {"deleteBeforeReplace": v, "deleteBeforeReplaceDefined": True}),
        "ignore_changes": ([["some_prop", "b.c"], [], ["z", "some_prop", "a", "z"]], lambda v: {"ignoreChanges": [tr(x) for x in v]}),
        "replace_on_changes": ([["*"], ["some_prop"], ["z", "some_prop", "a", "z"]], lambda v: {"replaceOnChanges": [tr(x) for x in v]}),
        "additional_secret_outputs": ([["out_prop", "x"], [], ["z", "out_prop", "a", "z"]], lambda v: {"additionalSecretOutputs": [tr(x) for x in v]}),
        "version": (["1.2.3", ""], lambda v: {"version": v}),
        "plugin_download_url": (["https://x", ""], lambda v: {"pluginDownloadURL": v}),
        "import_": (["imp"], lambda v: {"importId": v}),
        "custom_timeouts": ([p.CustomTimeouts(create="1m"), p.CustomTimeouts(update="2m", delete="3m"), {"create": "4m", "delete": "5m"}, p.CustomTimeouts()]
                            + [mk(**{k: v for k, v in zip(("create", "update", "delete"), t) if v is not None})
                               for mk in (p.CustomTimeouts, dict) for t in itertools.product((None, "1m", "60s"), repeat=3) if mk is not dict or any(t)],
                            lambda v: {"customTimeouts": tuple((v.get(k) if isinstance(v, dict) else getattr(v, k)) or "" for k in ("create", "update", "delete"))}),
        "retain_on_delete": ([True, False], lambda v: {"retainOnDelete": v}),
        "aliases": ([["urn:a"]], lambda v: {"aliases": v}),
    }


def tr(k):
    return {"some_prop": "someProp", "out_prop": "outProp"}.get(k, k)


DEFAULTS = {"protect": False, "deleteBeforeReplace": False, "deleteBeforeReplaceDefined": False, "ignoreChanges": [], "replaceOnChanges": [], "additionalSecretOutputs": [], "version": "", "pluginDownloadURL": "",
            "importId": "", "customTimeouts": ("", "", ""), "retainOnDelete": False, "aliases": [], "acceptSecrets": True, "acceptResources": True, "supportsPartialValues": True}


def reqfields(req, names):
    d = {}
    for n in names:
        v = getattr(req, n)
        if n == "customTimeouts":
            v = (v.create, v.update, v.delete)
        elif not isinstance(v, (bool, str)):
            v = list(v)
        d[n] = v
    return d


def gen_fields(tier):
    F = fields()
    for kind in ("custom", "comp", "remote", "read"):
        yield kind, {}
        for f in F:
            for i in range(len(F[f][0])):
                yield kind, {f: i}
        for f, g in itertools.combinations(F, 2):
            for i, j in itertools.product(range(len(F[f][0])), range(len(F[g][0]))):
                yield kind, {f: i, g: j}
        yield kind, {f: 0 for f in F}
        if tier == "thorough":
            for f, g, h in itertools.combinations(F, 3):
                yield kind, {f: 0, g: 0, h: 0}
                yield kind, {f: -1, g: -1, h: -1}


def check_fields(kind, sel):
    import pulumi as p

    F = fields()

    class Res(p.CustomResource):
        def translate_input_property(self, prop):
            return tr(prop)

    class Comp(p.ComponentResource):
        def translate_input_property(self, prop):
            return tr(prop)

    def body(out):
        kw = {f: F[f][0][i] for f, i in sel.items()}
        props = {"some_prop": "x"}
        if kind == "read":
            Res("t:m:C", "leaf", props, p.ResourceOptions(id="rid", **kw))
        elif kind == "custom":
            Res("t:m:C", "leaf", props, p.ResourceOptions(**kw))
        else:
            Comp("t:m:C", "leaf", props, p.ResourceOptions(**kw), kind == "remote")

    out = run(body, False)
    if out.verdict != "ok":
        return [(f"fields:{out.verdict}:{kind}", repr(out.exc))], out
    ev = [x for x in out.extra["engine"].events if x.key == "leaf"]
    if len(ev) != 1:
        return [("fields:count", f"{len(ev)} requests")], out
    req = ev[0].req
    bad = []
    want = dict(DEFAULTS)
    for f, i in sel.items():
        want.update(F[f][1](F[f][0][i]))
    if kind == "read":
        want = {k: v for k, v in want.items() if k in ("version", "pluginDownloadURL", "additionalSecretOutputs", "acceptSecrets", "acceptResources")}
        if req.id != "rid":
            bad.append(("fields:id", f"id {req.id!r}"))
        obj = eng.from_struct(req.properties)
    else:
        obj = eng.from_struct(req.object)
    if obj != {"someProp": "x"}:
        bad.append(("fields:props", f"inputs {obj}"))
    got = reqfields(req, want)
    for k in want:
        if got[k] != want[k]:
            bad.append((f"fields:{k}", f"{k} sent as {got[k]!r}, expected {want[k]!r}"))
    return bad, out


SHARDS = 24


def items(tier, seed):
    return [{"m": m, "shard": s, "tier": tier} for m in ("inherit", "transform", "fields", "calls") for s in range(SHARDS)]


def cases(m, tier):
    if m == "inherit":
        for levels, leaf in gen_inherit(tier):
            for dry in (False, True) if tier == "thorough" or len(levels) < 2 else (False,):
                yield {"m": m, "a": [levels, leaf, dry]}
    elif m == "calls":
        for c in c09calls.cases(tier):
            if c09calls.valid(c):
                for dry in (False, True):
                    yield {"m": m, "a": [c, dry]}
    elif m == "transform":
        for combo in gen_transform(tier):
            for lk in ("custom", "remote", "prov"):
                yield {"m": m, "a": [combo, lk]}
    else:
        for kind, sel in gen_fields(tier):
            yield {"m": m, "a": [kind, sel]}


def check(case):
    m, a = case["m"], case["a"]
    if m == "inherit":
        return check_inherit([tuple(x) for x in a[0]], tuple(a[1]), a[2])
    if m == "transform":
        return check_transform([tuple(x) for x in a[0]], a[1])
    if m == "calls":
        return c09calls.check(*a)
    return check_fields(*a)


def work(st, item):
    for k, case in enumerate(cases(item["m"], item["tier"])):
        if k % SHARDS != item["shard"]:
            continue
        bad, out = check(case)
        st.case(case, f"{case['m']} {out.verdict} {len(out.extra['engine'].events)} requests", transitions=len(out.extra["engine"].events))
        for key, m in bad:
            st.add_violation(key, m + f"\ncase={case}", case)


def replay(case):
    return check(case)[0]
