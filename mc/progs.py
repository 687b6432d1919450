"""
Little Pulumi programs as data, their interpretation by the real SDK and by a reference model.

program = list of nodes; node = {
  "k": "custom" | "comp" | "remote" | "prov" | "read" | "get",
  "parent": index|None, "dep": form|None, "props": {key: ref}, "provider": index|None, "providers": [index],
}
dep forms: ["list", i...], ["one", i], ["outlist", i...] (Output[list]), ["listout", i...] ([Output[Resource]]), ["fut", i...] (awaitable)
refs: ["v", x] | ["out", i] (property 'o' of node i) | ["id", i] | ["urn", i] | ["res", i] | ["apply", ref] | ["all", ref...] | ["sec", ref] | ["list", ref...] | ["fut", ref] | ["co", ref]
"""
import asyncio
import json

from . import core, engine as eng
from .engine import SIG, SECRET_SIG, RESOURCE_SIG, UNKNOWN

PKG = "t"


def name(i):
    return f"n{i}"


def type_of(node, i):
    k = node["k"]
    return {"custom": "t:m:C", "read": "t:m:C", "comp": "t:m:Comp", "remote": "t:m:Remote", "prov": "pulumi:providers:t", "get": "t:m:C"}[k]


# ------------------------------------------------------------------------------------------------
# reference


class Ref:
    """Expected requests of a program."""

    def __init__(self, prog, dry, stack=True):
        self.prog, self.dry, self.stack = prog, dry, stack
        self.root = "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk" if stack else ""

    def urn(self, i):
        nd = self.prog[i]
        if nd["k"] == "get":
            return f"urn:pulumi:stk::proj::t:m:C::{name(i)}"
        p = nd.get("parent")
        return eng.urn_of(type_of(nd, i), name(i), self.urn(p) if p is not None else self.root)

    def custom(self, i):
        return self.prog[i]["k"] in ("custom", "prov", "read", "get")

    def known_id(self, i):
        return self.prog[i]["k"] in ("read", "get") or not self.dry

    def id(self, i):
        k = self.prog[i]["k"]
        if k == "read":
            return name(i) + "-rid"
        if k == "get":
            return name(i) + "-gid"
        return name(i) + "-id"

    def provider(self, i):
        """provider used for node i: its own, else the one its parent passes on"""
        nd = self.prog[i]
        if nd["k"] == "prov":
            return None
        if nd.get("provider") is not None:
            return nd["provider"]
        return self.provider(nd["parent"]) if nd.get("parent") is not None else None

    def needs(self, i):
        return self.request(i)[1]

    def created(self, i):
        nd = self.prog[i]
        return nd.get("inside") is None or self.ref(nd["inside"])[1]

    def cyclic(self):
        n = len(self.prog)
        g = {i: self.request(i)[1] for i in range(n)}
        done = set()
        while True:
            new = {i for i in range(n) if i not in done and g[i] <= done}
            if not new:
                return len(done) < n
            done |= new

    def children(self, i):
        return [j for j, nd in enumerate(self.prog) if nd.get("parent") == i]

    def expand(self, i):
        """resources that a dependency on i stands for"""
        if self.prog[i]["k"] == "comp":
            out = set()
            for j in self.children(i):
                out |= self.expand(j)
            return out
        return {i}

    def ref(self, r):
        """(encoded value or UNKNOWN, known, secret, deps)"""
        op = r[0]
        if op == "v":
            return r[1], True, False, set()
        if op == "out":
            # property 'o' is computed by the engine: known in updates only
            if self.prog[r[1]]["k"] in ("read", "get"):
                return f"{name(r[1])}-o", True, False, {r[1]}
            return (f"{name(r[1])}-o", True, False, {r[1]}) if not self.dry else (None, False, False, {r[1]})
        if op == "id":
            k = self.known_id(r[1])
            return (self.id(r[1]) if k else None), k, False, {r[1]}
        if op == "urn":
            return self.urn(r[1]), True, False, {r[1]}
        if op in ("apply", "boom"):
            v, k, s, d = self.ref(r[1])
            return (f"<{v}>" if k else None), k, s, d
        if op == "all":
            rs = [self.ref(x) for x in r[1:]]
            return [x[0] for x in rs], all(x[1] for x in rs), any(x[2] for x in rs), set().union(*[x[3] for x in rs])
        if op == "sec":
            v, k, s, d = self.ref(r[1])
            return v, k, True, d
        if op in ("fut", "co"):
            return self.ref(r[1])
        raise AssertionError(op)

    def enc(self, r):
        """(wire value, deps)"""
        op = r[0]
        if op == "res":
            j = r[1]
            w = {SIG: RESOURCE_SIG, "urn": self.urn(j)}
            if self.custom(j):
                w["id"] = self.id(j) if self.known_id(j) else UNKNOWN
            return w, {j}
        if op == "list":
            es = [self.enc(x) for x in r[1:]]
            return [e[0] for e in es], set().union(*[e[1] for e in es])
        if op == "v":
            return r[1], set()
        if op in ("fut", "co"):
            return self.enc(r[1])
        v, k, s, d = self.ref(r)
        if not k:
            return UNKNOWN, d
        if s:
            return {SIG: SECRET_SIG, "value": v}, d
        return v, d

    def enc_remote(self, r):
        op = r[0]
        if op in ("res", "v"):
            return self.enc(r)
        if op == "list":
            es = [self.enc_remote(x) for x in r[1:]]
            return [e[0] for e in es], set().union(*[e[1] for e in es])
        if op in ("fut", "co"):
            return self.enc_remote(r[1])
        v, k, s, d = self.ref(r)
        w = {SIG: eng.OUTPUT_SIG}
        if k:
            w["value"] = v
        if s:
            w["secret"] = True
        urns = sorted({self.urn(y) for x in d for y in self.expand(x)})
        if urns:
            w["dependencies"] = urns
        return w, d

    def request(self, i):
        nd = self.prog[i]
        p = nd.get("parent")
        exp = {"type": type_of(nd, i), "name": name(i), "parent": self.urn(p) if p is not None else self.root,
               "object": {}, "pd": {}, "deps": set(), "custom": self.custom(i), "remote": nd["k"] == "remote", "provider": "", "providers": {}}
        needs = set()
        if p is not None:
            needs.add(p)
        if nd.get("inside") is not None:
            needs |= self.ref(nd["inside"])[3]
        dep = nd.get("dep")
        for j in (dep[1:] if dep else []) + [j for d in nd.get("mdeps", ()) if d for j in d[1:]]:
            for x in self.expand(j):
                exp["deps"].add(self.urn(x))
                needs.add(x)
        for k, r in nd.get("props", {}).items():
            w, d = (self.enc_remote if nd["k"] == "remote" else self.enc)(r)
            if w is None:
                continue
            exp["object"][k] = w
            urns = {self.urn(y) for x in d for y in self.expand(x)}
            exp["pd"][k] = sorted(urns)
            exp["deps"] |= urns
            needs |= d | {y for x in d for y in self.expand(x)}
        prov = self.provider(i)
        if prov is not None and nd["k"] in ("custom", "read", "remote"):
            pref = f"{self.urn(prov)}::{self.id(prov) if self.known_id(prov) else UNKNOWN}"
            if nd["k"] == "remote":
                exp["providers"] = {"t": pref}
            else:
                exp["provider"] = pref
            needs.add(prov)
        exp["deps"] = sorted(exp["deps"])
        return exp, needs


# ------------------------------------------------------------------------------------------------
# real


class Interp:
    def __init__(self, prog, out):
        import pulumi

        self.p = pulumi
        self.prog = prog
        self.out = out
        self.res = []
        self.ran = []

    def ref(self, r):
        p, op = self.p, r[0]
        if op == "v":
            return r[1]
        if op == "out":
            return self.res[r[1]].o
        if op == "id":
            return self.res[r[1]].id
        if op == "urn":
            return self.res[r[1]].urn
        if op == "res":
            return self.res[r[1]]
        if op == "apply":
            return p.Output.from_input(self.ref(r[1])).apply(lambda v: f"<{v}>")
        if op == "boom":
            def boom(v):
                self.ran.append(v)
                raise ValueError("user callback failed")
            return p.Output.from_input(self.ref(r[1])).apply(boom)
        if op == "all":
            return p.Output.all(*[self.ref(x) for x in r[1:]])
        if op == "sec":
            return p.Output.secret(self.ref(r[1]))
        if op == "list":
            return [self.ref(x) for x in r[1:]]
        if op == "co":
            v = self.ref(r[1])

            async def co():
                await asyncio.sleep(0)
                return v

            return co()
        if op == "fut":
            v = self.ref(r[1])
            f = asyncio.get_event_loop().create_future()
            asyncio.get_event_loop().call_soon(lambda: f.set_result(v))
            return f
        raise AssertionError(op)

    def dep(self, form):
        if form is None:
            return None
        p, rs = self.p, [self.res[j] for j in form[1:]]
        if form[0] == "list":
            return rs
        if form[0] == "one":
            return rs[0]
        if form[0] == "outlist":
            return p.Output.from_input("x").apply(lambda _: list(rs))
        if form[0] == "listout":
            return [p.Output.from_input("x").apply(lambda _, r=r: r) for r in rs]
        if form[0] == "fut":
            async def co():
                return list(rs)
            return co()
        if form[0] == "tuple":
            return tuple(rs)
        raise AssertionError(form)

    def build(self):
        for i, nd in enumerate(self.prog):
            self.res.append(None)
            if nd.get("inside") is not None:
                self.p.Output.from_input(self.ref(nd["inside"])).apply(lambda _, i=i: self.create(i))
            else:
                self.create(i)
        return self.res

    def create(self, i):
            p, nd = self.p, self.prog[i]
            props = {k: self.ref(r) for k, r in nd.get("props", {}).items()}
            props["o"] = None
            kw = {}
            if nd.get("parent") is not None:
                kw["parent"] = self.res[nd["parent"]]
            if nd.get("dep"):
                kw["depends_on"] = self.dep(nd["dep"])
            if nd.get("provider") is not None:
                kw["provider"] = self.res[nd["provider"]]
            kw.update(nd.get("opts", {}))
            k = nd["k"]
            if k == "read":
                kw["id"] = name(i) + "-rid"
            if k == "get":
                kw["urn"] = f"urn:pulumi:stk::proj::t:m:C::{name(i)}"
            opts = p.ResourceOptions(**kw)
            if nd.get("mdeps"):
                opts = merge_all([opts] + [p.ResourceOptions(depends_on=self.dep(d)) if d else None for d in nd["mdeps"]], nd["style"], p.ResourceOptions)
            if k in ("custom", "read", "get"):
                r = p.CustomResource("t:m:C", name(i), props, opts)
            elif k == "prov":
                r = p.ProviderResource("t", name(i), props, opts)
            else:
                r = p.ComponentResource("t:m:Comp" if k == "comp" else "t:m:Remote", name(i), props, opts, k == "remote")
                self.res[i] = r
                if nd.get("regout"):
                    r.register_outputs({"z": self.ref(nd["regout"])})
            self.res[i] = r


def merge_all(opts, style, cls):
    """Merges a list of options (or None) in one of the ways the API offers."""
    if style == "left":
        r = opts[0]
        for o in opts[1:]:
            r = cls.merge(r, o)
        return r
    if style == "right":
        r = opts[-1]
        for o in reversed(opts[:-1]):
            r = cls.merge(o, r)
        return r
    if style == "inst":
        r = opts[0] if opts[0] is not None else cls()
        for o in opts[1:]:
            r = r.merge(o)
        return r
    raise AssertionError(style)


def outputs_of(res):
    import pulumi

    for i, r in enumerate(res):
        if r is None:
            continue
        for k, v in r.__dict__.items():
            if isinstance(v, pulumi.Output):
                yield f"{name(i)}.{k}", v


def respond_o(e, req, resp):
    if req.type != eng.ROOT_TYPE and not e.dry_run:
        resp.object.update({"o": f"{req.name}-o"})
    return resp


def respond_read(e, req, resp):
    resp.properties.update({"o": f"{req.name}-o"})
    return resp


def respond_invoke(e, req, resp):
    if req.tok == "pulumi:pulumi:getResource":
        urn = eng.from_struct(req.args)["urn"]
        n = urn.split("::")[-1]
        resp.Clear()
        getattr(resp, "return").CopyFrom(eng.to_struct({"urn": urn, "id": n + "-gid", "state": {"o": n + "-o"}}))
    return resp


def execute(prog, dry, chooser, early=False, faults=(), features=eng.ALL_FEATURES, hash_sign=1, export=None, body=None, auto=(), on_idle=None):
    """One execution of a program through the real stack runner."""

    async def main(out):
        from pulumi.runtime import stack as rt_stack

        e = out.extra["engine"]
        e.out = out
        out.sched.auto_labels = ("SupportsFeature",) + tuple(auto)
        out.sched.on_idle = on_idle and (lambda sched: on_idle(out))
        interp = Interp(prog, out)
        out.extra["interp"] = interp
        settled = {}
        out.extra["settled"] = settled

        def func():
            import pulumi

            interp.build()
            # observe every output: it must settle, one way or the other
            for nm, o in outputs_of(interp.res):
                for facet, aw in (("value", o.future()), ("known", o.is_known()), ("secret", o.is_secret()), ("deps", o.resources())):
                    key = f"{nm}.{facet}"
                    settled[key] = None

                    def done(f, key=key):
                        settled[key] = "cancelled" if f.cancelled() else ("exn " + type(f.exception()).__name__ if f.exception() else "ok")

                    aw.add_done_callback(done)
            if export:
                for k, r in export.items():
                    pulumi.export(k, interp.ref(r))
            if body:
                body(interp)

        await rt_stack.run_in_stack(func)

    def setup(out):
        e = eng.FakeEngine(features=features, dry_run=dry, faults=faults, chooser=chooser,
                           respond={"RegisterResource": respond_o, "ReadResource": respond_read, "Invoke": respond_invoke})
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    return core.run_loop(main, chooser, early=early, settle=True, setup=setup, hash_sign=hash_sign)


def req_view(req):
    return {"type": req.type, "name": req.name, "parent": req.parent, "object": eng.from_struct(req.object),
            "pd": {k: sorted(v.urns) for k, v in req.propertyDependencies.items()}, "deps": sorted(req.dependencies), "custom": req.custom,
            "remote": req.remote, "provider": req.provider, "providers": dict(req.providers)}


def read_view(req):
    return {"type": req.type, "name": req.name, "parent": req.parent, "object": eng.from_struct(req.properties),
            "deps": sorted(req.dependencies), "provider": req.provider}
