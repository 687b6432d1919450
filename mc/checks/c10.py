"""C10: aliases sent for a resource, and computed URNs."""
import asyncio
import itertools

from .. import core, engine as eng

LEVEL = "model_checking"
RULE = ("(one) every alias specification: name x type x parent form x project x stack (each absent, given, or given as an output) x how the alias itself is given x the resource's own parent; "
        "(chain) every chain of up to three resources x alias lists x naming pattern x resource kind, with every order in which the engine answers at thorough; (urn) every argument form of create_urn; "
        "the aliases in the request are compared with a reference computed on plain strings; states = distinct (case, aliases) pairs.")
ASSUMPTIONS = ["an alias naming a parent other than the stack takes project and stack from that parent's URN (as the other SDKs do)", "names do not contain '::' (not valid in URNs)"]

STACKT = "pulumi:pulumi:Stack"


# -- reference ------------------------------------------------------------------------------------
def mkurn(name, typ, parent, project="proj", stack="stk"):
    """parent: None or URN"""
    if parent is None:
        return f"urn:pulumi:{stack}::{project}::{typ}::{name}"
    parts = parent.split("::")
    if parts[2].split("$")[-1] == STACKT and parts[2] == STACKT:
        return f"urn:pulumi:{stack}::{project}::{typ}::{name}"
    return f"{parts[0]}::{parts[1]}::{parts[2]}${typ}::{name}"


def collapse(spec, name, typ, parent, urns):
    """spec: dict or urn string; parent: own parent's URN or None; -> URN or None when unknown"""
    if isinstance(spec, str):
        return spec
    n = spec.get("name", name)
    t = spec.get("type", typ)
    if "parent" in spec:
        form = spec["parent"]
        if form == "unk":
            return None
        p = urns[form] if form else None
    else:
        p = parent
    pr = spec.get("project")
    st = spec.get("stack")
    return mkurn(n, t, p, pr[-1] if pr else "proj", st[-1] if st else "stk")


def inherit(cname, ctype, pname, palias):
    if palias is None:
        return None
    an = palias.split("::")[-1]
    n = an + cname[len(pname):] if cname.startswith(pname) else cname
    return mkurn(n, ctype, palias)


def expected(specs, name, typ, parent, urns, paliases, pname):
    own = [collapse(s, name, typ, parent, urns) for s in specs]
    out = list(own)
    for pa in paliases:
        out.append(inherit(name, typ, pname, pa))
        for o in own:
            if o is None:
                out.append(None)
                continue
            parts = o.split("::")
            out.append(inherit(parts[3], parts[2].split("$")[-1], pname, pa))
    return out


def dedup(xs):
    out = []
    for x in xs:
        if x is not None and x not in out:
            out.append(x)
    return out


# -- building ---------------------------------------------------------------------------------------
PARENTS = [..., None, "comp", "custom", "urnstr", "outurn", "stackres", "stackurn", "oldurn"]
URNS = {
    "comp": "urn:pulumi:stk::proj::t:m:PC::pcomp",
    "custom": "urn:pulumi:stk::proj::t:m:PC$t:m:PR::pcust",
    "urnstr": "urn:pulumi:stk::proj::t:m:PC$t:m:PR::pcust",
    "outurn": "urn:pulumi:stk::proj::t:m:PC::pcomp",
    "stackres": "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk",
    "stackurn": "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk",
    "oldurn": "urn:pulumi:old::oldproj::a:b:C$a:b:D::x",
}


class B:
    def __init__(self, loop):
        import pulumi as p
        from pulumi.runtime import get_root_resource

        self.loop = loop
        self.comp = p.ComponentResource("t:m:PC", "pcomp")
        self.custom = p.CustomResource("t:m:PR", "pcust", {}, p.ResourceOptions(parent=self.comp))
        self.stack = get_root_resource()

    def parent(self, f):
        import pulumi as p

        if f is None:
            return None
        return {"comp": lambda: self.comp, "custom": lambda: self.custom, "urnstr": lambda: URNS["urnstr"], "outurn": lambda: self.comp.urn, "stackres": lambda: self.stack,
                "stackurn": lambda: URNS["stackurn"], "oldurn": lambda: URNS["oldurn"], "unk": lambda: self.custom.id}[f]()

    def val(self, v):
        import pulumi as p

        return p.Output.from_input(v[1]) if v[0] == "out" else v[0]

    def alias(self, spec, wrap="plain"):
        import pulumi as p

        if isinstance(spec, str):
            a = spec
        else:
            kw = {}
            if "name" in spec:
                kw["name"] = spec["name"]
            if "type" in spec:
                kw["type_"] = spec["type"]
            if "parent" in spec:
                kw["parent"] = self.parent(spec["parent"])
            for f in ("project", "stack"):
                if f in spec:
                    kw[f] = self.val(spec[f])
            a = p.Alias(**kw)
        if wrap == "out":
            return p.Output.from_input(a)
        if wrap == "co":
            async def co():
                await asyncio.sleep(0)
                return a
            return co()
        if wrap == "fut":
            f = self.loop.create_future()
            f.set_result(a)
            return f
        if wrap == "late":
            return self.custom.urn.apply(lambda _: a)
        return a


def run(body, dry, chooser=None):
    def setup(out):
        e = eng.FakeEngine(dry_run=dry)
        out.extra["engine"] = e
        core.fresh_settings(e, e, dry_run=dry)

    async def main(out):
        from pulumi.runtime import stack as rt_stack

        out.extra["engine"].out = out
        await rt_stack.run_in_stack(lambda: body(out))

    return core.run_loop(main, chooser or core.Chooser(), setup=setup, settle=False)


def aliases_of(out, name):
    reqs = [ev.req for ev in out.extra["engine"].events if ev.key == name and ev.kind == "RegisterResource"]
    return list(reqs[0].aliases) if len(reqs) == 1 else None


def judge(name, got, want, bad, what):
    if got is None:
        bad.append((f"{what}:missing", f"{name} was not registered exactly once"))
        return
    w = dedup(want[0])
    k = len(dedup(want[0][: want[1]]))
    if sorted(got) != sorted(w):
        bad.append((f"{what}:aliases", f"{name}: aliases {got}, expected {w}"))
    elif sorted(got[:k]) != sorted(w[:k]):
        bad.append((f"{what}:order", f"{name}: aliases {got}, expected its own first: {w}"))
    elif got[:k] != w[:k]:
        bad.append((f"{what}:order", f"{name}: own aliases {got[:k]}, expected in declared order {w[:k]}"))


def gen_one(tier):
    for n, t, p, pr, s in itertools.product((None, "oldname"), (None, "a:b:Old"), PARENTS + ["unk"], (None, ["oldp"], ["out", "oldp"]), (None, ["olds"], ["out", "olds"])):
        spec = {}
        if n:
            spec["name"] = n
        if t:
            spec["type"] = t
        if p is not ...:
            spec["parent"] = p
        if pr:
            spec["project"] = pr
        if s:
            spec["stack"] = s
        for wrap in ("plain", "out", "co", "fut", "late"):
            for own in (None, "comp", "stackres"):
                for dry in (False, True):
                    if p == "unk" and not dry:
                        continue
                    yield {"m": "one", "specs": [spec], "wrap": wrap, "own": own, "dry": dry, "kind": "custom"}
    S = [{"name": "x1"}, {"type": "a:b:T2"}, {"parent": None}, {"parent": "unk"}, "urn:pulumi:s::p::a:b:C::lit", {"name": "x1", "type": "a:b:T2"}, {}]
    for a in itertools.chain(itertools.product(S, repeat=2), itertools.product(S, repeat=3)):
        for kind in ("custom", "comp", "remote", "prov"):
            yield {"m": "one", "specs": list(a), "wrap": "plain", "own": "comp", "dry": True, "kind": kind}


def make(kind, name, opts):
    import pulumi as p

    if kind == "custom":
        return p.CustomResource("t:m:R", name, {}, opts)
    if kind == "prov":
        return p.ProviderResource("t", name, {}, opts)
    return p.ComponentResource("t:m:R", name, None, opts, kind == "remote")


TYPE = {"custom": "t:m:R", "comp": "t:m:R", "remote": "t:m:R", "prov": "pulumi:providers:t"}


def check_one(c):
    import pulumi as p

    def body(out):
        b = B(out.loop)
        make(c["kind"], "leaf", p.ResourceOptions(parent=b.parent(c["own"]), aliases=[b.alias(s, c["wrap"]) for s in c["specs"]]))

    out = run(body, c["dry"])
    bad = []
    if out.verdict != "ok":
        return [(f"one:{out.verdict}", repr(out.exc))], out
    own = URNS[c["own"]] if c["own"] else None
    want = expected(c["specs"], "leaf", TYPE[c["kind"]], own, URNS, [], "")
    judge("leaf", aliases_of(out, "leaf"), (want, len(c["specs"])), bad, "one")
    return bad, out


ALIST = [[], [{"name": "oldn"}], [{"type": "a:b:Old"}], [{"parent": None}], [{"name": "oldn", "type": "a:b:Old"}], ["urn:pulumi:s0::p0::z:y:X::lit"], [{"name": "n1"}, {"name": "n2"}], [{"parent": "comp", "name": "moved"}], [{"name": "o", "stack": ["olds"], "parent": None}]]


def gen_chain(tier):
    for al in itertools.product(range(len(ALIST)), repeat=2):
        for kinds in (("comp", "custom"), ("custom", "custom"), ("comp", "remote"), ("remote", "comp")):
            for pat in ("p", "o", "s", "e", "d"):
                for wrap in ("plain", "co", "late"):
                    yield {"m": "chain", "al": al, "kinds": kinds, "pat": pat, "wrap": wrap, "dry": False}
    for al in itertools.product(range(len(ALIST)), repeat=3):
        for pat in ("pp", "po", "op", "oo", "dd"):
            yield {"m": "chain", "al": al, "kinds": ("comp", "comp", "custom"), "pat": pat, "wrap": "plain", "dry": False}
    if tier == "thorough":
        for al in itertools.product(range(len(ALIST)), repeat=3):
            for pat in itertools.product("posed", repeat=2):
                for kinds in (("comp", "comp", "remote"), ("custom", "comp", "custom")):
                    yield {"m": "chain", "al": al, "kinds": kinds, "pat": "".join(pat), "wrap": "late", "dry": True}
        for al in itertools.product(range(0, 6), repeat=4):
            for pat in ("ppp", "opo"):
                yield {"m": "chain", "al": al, "kinds": ("comp", "comp", "comp", "custom"), "pat": pat, "wrap": "plain", "dry": False}


def chain_names(pat):
    names = ["app"]
    for i, ch in enumerate(pat):
        prev = names[-1]
        # p: derived from the parent's name; o: unrelated; s: contains it but not as a prefix; e: equal to it; d: has it twice
        names.append({"p": f"{prev}-c{i}", "o": f"x{i}", "s": f"my-{prev}-{i}", "e": prev, "d": f"{prev}-{prev}-{i}"}[ch])
    return names


def check_chain(c, chooser=None):
    import pulumi as p

    names = chain_names(c["pat"])
    types = [f"t:m:L{i}" for i in range(len(names))]

    def body(out):
        b = B(out.loop)
        parent = None
        for i, nm in enumerate(names):
            o = p.ResourceOptions(parent=parent, aliases=[b.alias(s, c["wrap"]) for s in ALIST[c["al"][i]]])
            if c["kinds"][i] == "custom":
                parent = p.CustomResource(types[i], nm, {}, o)
            else:
                parent = p.ComponentResource(types[i], nm, None, o, c["kinds"][i] == "remote")

    out = run(body, c["dry"], chooser)
    bad = []
    if out.verdict != "ok":
        return [(f"chain:{out.verdict}", repr(out.exc))], out
    parent, pal, pname = None, [], ""
    reqs = [ev.req for ev in out.extra["engine"].events if ev.kind == "RegisterResource"]
    for i, nm in enumerate(names):
        specs = ALIST[c["al"][i]]
        want = expected(specs, nm, types[i], parent, URNS, pal, pname)
        mine = [r for r in reqs if r.type == types[i]]
        judge(nm, list(mine[0].aliases) if len(mine) == 1 else None, (want, len(specs)), bad, f"chain{i}")
        parent = mkurn(nm, types[i], parent)
        pal, pname = want, nm
    return bad, out


def gen_urn(tier):
    for nf, tf, p, pr, s in itertools.product(("plain", "out", "co"), ("plain", "out"), PARENTS, (None, ["oldp"], ["out", "oldp"]), (None, ["olds"], ["out", "olds"])):
        yield {"m": "urn", "n": nf, "t": tf, "p": None if p is ... else p, "pr": pr, "s": s}


def check_urn(c):
    import pulumi as p

    got = []

    def body(out):
        b = B(out.loop)

        def w(v, f):
            if f == "co":
                async def co():
                    return v
                return co()
            return p.Output.from_input(v) if f == "out" else v

        kw = {}
        if c["pr"]:
            kw["project"] = b.val(c["pr"])
        if c["s"]:
            kw["stack"] = b.val(c["s"])
        p.create_urn(w("nm", c["n"]), w("x:y:Z", c["t"]), b.parent(c["p"]), **kw).apply(got.append)

    out = run(body, False)
    if out.verdict != "ok":
        return [(f"urn:{out.verdict}", repr(out.exc))], out
    want = mkurn("nm", "x:y:Z", URNS[c["p"]] if c["p"] else None, c["pr"][-1] if c["pr"] else "proj", c["s"][-1] if c["s"] else "stk")
    return ([] if got == [want] else [("urn:value", f"create_urn gave {got}, expected {want}")]), out


SHARDS = 24
GEN = {"one": gen_one, "chain": gen_chain, "urn": gen_urn}
CHECK = {"one": check_one, "chain": check_chain, "urn": check_urn}


def items(tier, seed):
    return [{"m": m, "shard": s, "tier": tier} for m in GEN for s in range(SHARDS)]


def work(st, item):
    for k, c in enumerate(GEN[item["m"]](item["tier"])):
        if k % SHARDS != item["shard"]:
            continue
        if item["tier"] == "thorough" and item["m"] == "chain" and k % 5 == 0 and len(c["kinds"]) == 2:
            def one(ch):
                bad, out = check_chain(c, ch)
                out.extra["bad"] = bad
                return out
            for ch, out in core.explore(one, {}):
                record(st, {**c, "choices": ch.choices}, out.extra["bad"], out)
            continue
        bad, out = CHECK[c["m"]](c)
        record(st, c, bad, out)


def record(st, c, bad, out):
    reqs = [list(ev.req.aliases) for ev in out.extra["engine"].events if ev.kind == "RegisterResource"]
    st.case(c, f"{c['m']} {out.verdict} {len(reqs)} {[len(r) for r in reqs]}", transitions=len(out.sched.delivered), sample={"case": c, "aliases": reqs})
    for key, m in bad:
        st.add_violation(key, m + f"\ncase={c}", c)


def replay(c):
    if "choices" in c:
        return check_chain(c, core.Chooser(c["choices"]))[0]
    return CHECK[c["m"]](c)[0]
