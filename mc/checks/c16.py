"""C16: typed input, output and resource classes translate declared names, and only those, at any nesting."""
import itertools
import json
import sys
import types as pytypes

from .. import core, engine as eng, outmodel as om, report

LEVEL = "model_checking"
RULE = ("every type expression up to the stated nesting over {str, int, float, bool, Any, string enum, int enum, Optional, list, map, typed class} x naming pattern (camel, swapped names, dict-method names, same name) "
        "x way of declaring the classes (annotations / explicit getters, plain / dict / dict with a translation) x form of the value (typed objects, dicts with Python keys, dicts with wire keys, outputs, secret outputs) "
        "x engine answer (echo, secret parts, absent optional parts, absent property, undeclared keys, unknown) x update/preview; request and observed attributes are compared with a reference translation.")
ASSUMPTIONS = ["properties are declared on the class itself", "enum values are among the declared ones", "a value conforms to its declared type"]

MOD = "mc_typed_case"
PATTERNS = {"camel": [("a_b", "aB"), ("c_d", "cD")], "swap": [("first", "second"), ("second", "first")], "dict": [("items", "items"), ("get_", "get"), ("keys", "keys"), ("values_", "values")],
            "same": [("plain", "plain"), ("from_", "from"), ("camelHere", "camelHere"), ("snake_wire", "snake_wire")], "chain": [("one", "two"), ("two", "three"), ("three_x", "one")]}
LEAVES = [["str"], ["int"], ["float"], ["bool"], ["any"], ["senum"], ["ienum"]]
VARIANTS = {"list": ["Sequence", "List"], "map": ["Mapping", "Dict"]}
DATAKEYS = ["a_b", "aB", "first", "second", "get", "p_q", "pQ", "x.y"]


# --- type expressions -------------------------------------------------------------------------


def build(depth, pats, leaves):
    """All type expressions of at most the given depth. An object has one property of the inner type, one str property and one optional int property."""
    if depth == 0:
        return [list(x) for x in leaves]
    inner = build(depth - 1, pats, leaves)
    out = [list(x) for x in leaves]
    for t in inner:
        out.append(["list", t])
        out.append(["map", t])
        if t[0] != "opt":
            out.append(["opt", t])
        for p in pats:
            out.append(["obj", p, t])
    return out


def has(t, kind):
    return t[0] == kind or any(isinstance(x, list) and has(x, kind) for x in t[1:])


def fields(t):
    """[(python name, wire name, type)] of an object type"""
    names = PATTERNS[t[1]]
    ts = [t[2], ["str"], ["opt", ["int"]], ["opt", ["map", ["str"]]]]
    return [(py, wire, ts[i]) for i, (py, wire) in enumerate(names)]


# --- values -----------------------------------------------------------------------------------
# A value is described by the wire form of a fully present value; absent parts are chosen by `var`.


def leaf(t, var, k):
    falsy = var == 1
    return {"str": "" if falsy else f"s{k}", "int": 0 if falsy else 7 + k, "float": 0.0 if falsy else 1.5, "bool": not falsy, "any": "" if falsy else f"any{k}", "senum": "red" if k % 2 else "blu-e", "ienum": 2 if k % 2 else 1}[t[0]]


class Node:
    """One value with its type: kind in leaf, list, map, obj, none"""

    def __init__(self, kind, t, x):
        self.kind, self.t, self.x = kind, t, x


def value(t, var, k=0):
    """var 0: everything present; 1: falsy leaves and empty containers; 2: optional parts absent; 3: two elements per container"""
    if t[0] == "opt":
        if var == 2:
            return Node("none", t, None)
        return value(t[1], var, k)
    if t[0] == "list":
        n = {0: 1, 1: 0, 2: 1, 3: 2}[var]
        return Node("list", t, [value(t[1], var, k + i) for i in range(n)])
    if t[0] == "map":
        keys = {0: DATAKEYS[:2], 1: [], 2: DATAKEYS[2:3], 3: DATAKEYS}[var]
        return Node("map", t, {kk: value(t[1], var, k + i) for i, kk in enumerate(keys)})
    if t[0] == "obj":
        return Node("obj", t, [(py, wire, value(ft, var, k)) for py, wire, ft in fields(t)])
    return Node("leaf", t, leaf(t, var, k))


def enc(n, form):
    """reference wire value; `form` says how typed objects are given, which decides what becomes of absent parts"""
    if n.kind == "none":
        return None
    if n.kind == "leaf":
        return float(n.x) if isinstance(n.x, int) and not isinstance(n.x, bool) else n.x
    if n.kind == "list":
        return [enc(x, form) for x in n.x]
    if n.kind == "map":
        return {k: enc(x, form) for k, x in n.x.items()}
    d = {w: enc(x, form) for _, w, x in n.x}
    if form == "inst":
        d = {k: v for k, v in d.items() if v is not None}
    return d


def strip_none(w):
    if isinstance(w, dict):
        return {k: strip_none(v) for k, v in w.items() if v is not None}
    if isinstance(w, list):
        return [strip_none(v) for v in w]
    return w


# --- source of the classes ----------------------------------------------------------------------


class Src:
    def __init__(self):
        self.lines = ["import enum, typing, pulumi", "from typing import *", "Output = pulumi.Output", "class SEnum(str, enum.Enum):", "  RED = 'red'", "  BLUE = 'blu-e'", "class IEnum(int, enum.Enum):", "  ONE = 1", "  TWO = 2"]
        self.n = 0

    def ann(self, t, cls, wrap, var):
        """annotation text; cls: list collecting (type, class name); wrap: Input[] around every position"""
        k = t[0]
        if k == "opt":
            return f"Optional[{self.ann(t[1], cls, wrap, var)}]"
        if k == "list":
            s = f"{VARIANTS['list'][var % 2]}[{self.ann(t[1], cls, wrap, var + 1)}]"
        elif k == "map":
            s = f"{VARIANTS['map'][var % 2]}[str, {self.ann(t[1], cls, wrap, var + 1)}]"
        elif k == "obj":
            name = self.cls_of(t, cls)
            s = f"pulumi.InputType['{name}']" if wrap else f"'{name}'"
        else:
            s = {"str": "str", "int": "int", "float": "float", "bool": "bool", "any": "Any", "senum": "'SEnum'", "ienum": "IEnum"}[k]
        return f"pulumi.Input[{s}]" if wrap else s

    def cls_of(self, t, cls):
        for tt, name in cls:
            if tt is t:
                return name
        self.n += 1
        name = f"K{self.n}"
        cls.append((t, name))
        return name

    def classes(self, cls, kind, style, wrap, var):
        """emits the classes collected in cls (more may be added on the way)"""
        i = 0
        while i < len(cls):
            t, name = cls[i]
            i += 1
            fs = [(py, w, self.ann(ft, cls, wrap, var), ft[0] == "opt") for py, w, ft in sorted(fields(t), key=lambda f: f[2][0] == "opt")]
            self.emit(name, fs, kind, style)

    def emit(self, name, fs, kind, style):
        L = self.lines
        L.append(f"@pulumi.{'input' if kind == 'in' else 'output'}_type")
        base = "(dict)" if "dict" in style else ""
        L.append(f"class {name}{base}:")
        tr = "tr" in style
        if "expl" not in style:
            for py, w, a, opt in fs:
                d = ", default=None" if opt and kind == "in" else ""
                if py == w and not d and kind == "out":
                    L.append(f"  {py}: {a}")
                else:
                    L.append(f"  {py}: {a} = pulumi.property('{w}'{d})")
        else:
            L.append("  def __init__(__self__, *, " + ", ".join(f"{py}: {a}" + (" = None" if opt else "") for py, w, a, opt in fs) + "):")
            for py, w, a, opt in fs:
                if opt:
                    L.append(f"    if {py} is not None:")
                    L.append(f"      pulumi.set(__self__, '{py}', {py})")
                else:
                    L.append(f"    pulumi.set(__self__, '{py}', {py})")
            for i, (py, w, a, opt) in enumerate(fs):
                L.append("  @property")
                L.append("  @pulumi.getter" + (f"(name='{w}')" if py != w else ("()" if i % 2 else "")))
                L.append(f"  def {py}(self) -> {a}:")
                L.append("    '''doc'''" if i % 2 else "    ...")
                if kind == "in":
                    L.append(f"  @{py}.setter")
                    L.append(f"  def {py}(self, value: {a}):")
                    L.append("    ...")
        if tr:
            L.append("  def _translate_property(self, prop):")
            L.append(f"    return {{{', '.join(repr(w) + ': ' + repr(py) for py, w, _, _ in fs)}}}.get(prop) or prop")


IN_STYLES = ("ann", "expl", "ann-wrap", "expl-wrap")
OUT_STYLES = ("ann", "expl", "ann-dict", "expl-dict", "ann-dict-tr", "expl-dict-tr")
FORMS = ("inst", "py", "wire", "inst-out", "py-out", "inst-sec")
RES_STYLES = ("ann", "expl", "inh")
ANSWERS = ("echo", "secret", "absent", "extra", "unknown")


def reduced(c):
    return c


# --- running --------------------------------------------------------------------------------------


def live(n, form, classes, mod):
    """the Python value handed to the SDK"""
    import pulumi

    if n.kind == "none":
        return None
    f = form.split("-")[0]
    if n.kind == "leaf":
        v = n.x
        if n.t[0] == "senum" and f != "wire":
            v = mod.SEnum(v)
        if n.t[0] == "ienum" and f != "wire":
            v = mod.IEnum(v)
    elif n.kind == "list":
        v = [live(x, form, classes, mod) for x in n.x]
    elif n.kind == "map":
        v = {k: live(x, form, classes, mod) for k, x in n.x.items()}
    elif f == "inst":
        name = [nm for tt, nm in classes if tt is n.t][0]
        v = getattr(mod, name)(**{py: live(x, form, classes, mod) for py, _, x in n.x if x.kind != "none"})
    else:
        v = {(py if f == "py" else w): live(x, form, classes, mod) for py, w, x in n.x}
    if form.endswith("-out"):
        return pulumi.Output.from_input(v)
    if form.endswith("-sec") and n.kind in ("leaf", "obj"):
        return pulumi.Output.secret(v)
    return v


def show(v, t, classes, mod):
    """observed Python value at declared type t"""
    if v is None:
        return None
    if t[0] == "opt":
        return show(v, t[1], classes, mod)
    if t[0] == "list" and isinstance(v, list):
        return [show(x, t[1], classes, mod) for x in v]
    if t[0] == "map" and type(v) is dict:
        return {k: show(x, t[1], classes, mod) for k, x in v.items()}
    if t[0] == "obj":
        name = [nm for tt, nm in classes if tt is t]
        cls = getattr(mod, name[0]) if name else None
        if cls is None or type(v) is not cls:
            return f"<{type(v).__name__} instead of the declared class>"
        return {"$obj": {py: show(getattr(v, py), ft, classes, mod) for py, _, ft in fields(t)}, "$keys": sorted(k for k in dict.keys(v) if dict.get(v, k) is not None) if isinstance(v, dict) else None}
    if t[0] == "senum":
        return ["SEnum", v.value] if type(v) is mod.SEnum else f"<{v!r}>"
    if t[0] == "ienum":
        return ["IEnum", int(v)] if type(v) is mod.IEnum else f"<{v!r}>"
    if t[0] == "any":
        return v
    return [type(v).__name__, v]


def dec(w, t, style, drop=True):
    """reference reading of a wire value at declared type t"""
    if w is None:
        return None
    if t[0] == "opt":
        return dec(w, t[1], style)
    if t[0] == "list":
        return [dec(x, t[1], style) for x in w]
    if t[0] == "map":
        return {k: dec(x, t[1], style) for k, x in w.items() if x is not None}
    if t[0] == "obj":
        o = {py: dec(w.get(wn), ft, style) for py, wn, ft in fields(t)}
        keys = None
        if "dict" in style:
            keys = sorted(py for py, wn, ft in fields(t) if w.get(wn) is not None)
        return {"$obj": o, "$keys": keys}
    if t[0] == "senum":
        return ["SEnum", w]
    if t[0] == "ienum":
        return ["IEnum", int(w)]
    if t[0] == "any":
        return w
    if t[0] == "int":
        return ["int", int(w)]
    return [type(w).__name__, w]


def mark(w, t, how):
    """the engine's answer derived from the echoed value"""
    if w is None:
        return None
    if t[0] == "opt":
        return mark(w, t[1], how)
    if t[0] == "list":
        return [mark(x, t[1], how) for x in w]
    if t[0] == "map":
        return {k: mark(x, t[1], how) for k, x in w.items()}
    if t[0] == "obj":
        d = {wn: mark(w.get(wn), ft, how) for _, wn, ft in fields(t) if wn in w}
        if how == "extra":
            d["undeclaredKey"] = {"a_b": "kept?"}
        if how == "secret":
            return {eng.SIG: eng.SECRET_SIG, "value": d}
        return d
    if how == "secret":
        return {eng.SIG: eng.SECRET_SIG, "value": w}
    if how == "unknown":
        return eng.UNKNOWN
    return w


def has_leaf(w):
    if isinstance(w, dict):
        return any(has_leaf(v) for v in w.values())
    if isinstance(w, list):
        return any(has_leaf(v) for v in w)
    return w is not None


def expected(c):
    t = c["t"]
    n = value(t, c["var"])
    f = c["form"]
    w = enc(n, f.split("-")[0])
    style = c["out"]
    req = w
    secret = f.endswith("-sec") and marked(n)
    ans = c["ans"]
    exp = {"sent": req}
    base = strip_none(w)
    for k in ("in", "out"):
        is_sec = False
        if ans == "absent":
            if k == "out":
                v, known = None, not c["dry"]
            else:
                v, known = (dec(base, t, style), True) if not c["dry"] else (None, False)
                is_sec = secret and not c["dry"]
                if w is None:
                    known = not c["dry"]
        elif base is None:
            v, known = None, not c["dry"]
        else:
            v = dec(base, t, style)
            known = True
            if ans == "unknown" and has_leaf(base):
                known = not c["dry"]
                v = None
            is_sec = ans == "secret" and has_secret(mark(base, t, "secret")) or secret and ans in ("echo", "extra")
        exp[k] = {"known": known, "secret": is_sec, "value": v if known else None}
        if ans == "unknown" and base is not None and not c["dry"] and has_leaf(base):
            exp[k] = None  # the engine never answers unknowns in an update
    route = c.get("route", "register")
    if route == "get":
        del exp["sent"]
        return exp
    if route == "read":
        exp["opts"] = {"additionalSecretOutputs": ["pQ", "oP"]}
        return exp
    exp["opts"] = {"ignoreChanges": ["pQ", "zz"], "additionalSecretOutputs": ["pQ", "oP"], "replaceOnChanges": ["pQ"]}
    return exp


def has_secret(w):
    if isinstance(w, dict):
        return eng.SIG in w or any(has_secret(v) for v in w.values())
    if isinstance(w, list):
        return any(has_secret(v) for v in w)
    return False


def marked(n):
    """whether the -sec form wraps anything"""
    if n.kind in ("leaf", "obj"):
        return True
    if n.kind == "list":
        return any(marked(x) for x in n.x)
    if n.kind == "map":
        return any(marked(x) for x in n.x.values())
    return False


def unsecret(w):
    if isinstance(w, dict):
        if w.get(eng.SIG) == eng.SECRET_SIG:
            return unsecret(w["value"])
        return {k: unsecret(v) for k, v in w.items()}
    if isinstance(w, list):
        return [unsecret(v) for v in w]
    return w


def prepare(cs):
    """source and per-case class tables"""
    src = Src()
    plans = []
    for i, c in enumerate(cs):
        wrap = "wrap" in c["in"]
        incls, outcls = [], []
        a_in = src.ann(c["t"], incls, wrap, i)
        src.classes(incls, "in", c["in"], wrap, i)
        a_out = src.ann(c["t"], outcls, False, i)
        src.classes(outcls, "out", c["out"], False, i)
        src.n += 1
        an, rn = f"A{src.n}", f"R{src.n}"
        src.emit(an, [("p_q", "pQ", a_in, True), ("o_p", "oP", "Any", True)], "in", c["in"])
        L = src.lines
        ps = [("p_q", "pQ"), ("o_p", "oP")]
        base = "pulumi.CustomResource"
        if c["res"] == "inh":
            # a base class declares one property, and the other one differently
            base = f"B{rn}"
            L.append(f"class {base}(pulumi.CustomResource):")
            for py, w, a in (("p_q", "pQ", a_out), ("o_p", "other", "bool")):
                L.append("  @property")
                L.append(f"  @pulumi.getter(name='{w}')")
                L.append(f"  def {py}(self) -> pulumi.Output[{a}]:")
                L.append("    ...")
            ps = ps[1:]
        L.append(f"class {rn}({base}):")
        if c["res"] == "ann":
            for py, w in ps:
                L.append(f"  {py}: pulumi.Output[{a_out}] = pulumi.property('{w}')")
        L.append("  def __init__(self, name, args, opts=None):")
        L.append("    super().__init__('t:m:R', name, args, opts)")
        if c["res"] in ("expl", "inh"):
            for py, w in ps:
                L.append("  @property")
                L.append(f"  @pulumi.getter(name='{w}')")
                L.append(f"  def {py}(self) -> pulumi.Output[{a_out}]:")
                L.append("    '''doc'''")
        if c.get("tables"):
            L.append("  def translate_input_property(self, prop):")
            L.append("    return 'T' + prop")
            L.append("  def translate_output_property(self, prop):")
            L.append("    return 'T' + prop")
        # a function result with one property of the type
        fn = f"F{src.n}"
        src.emit(fn, [("p_q", "pQ", a_out, False)], "out", c["out"])
        plans.append((c, incls, outcls, an, rn, fn))
    return "\n".join(src.lines) + "\n", plans


def run_cases(cs, on_case):
    import pulumi
    from pulumi.runtime.proto import resource_pb2 as rp

    dry = cs[0]["dry"]
    text, plans = prepare(cs)
    mod = pytypes.ModuleType(MOD)
    sys.modules[MOD] = mod
    exec(compile(text, MOD, "exec"), mod.__dict__)
    by = {}

    def reg(e, req, resp):
        c = by[req.name]
        w = strip_none(unsecret(eng.from_struct(req.object)).get("pQ"))
        resp.object.Clear()
        if c["ans"] == "absent":
            return resp
        a = mark(w, c["t"], c["ans"])
        d = {"pQ": a, "oP": a} if w is not None else {}
        if c["ans"] == "echo" and has_secret(eng.from_struct(req.object)) and w is not None:
            d = {k: {eng.SIG: eng.SECRET_SIG, "value": a} for k in d}
        if c["ans"] == "extra":
            if has_secret(eng.from_struct(req.object)) and w is not None:
                d = {k: {eng.SIG: eng.SECRET_SIG, "value": a} for k in d}
            d["unlisted"] = "x"
        resp.object.CopyFrom(eng.to_struct(d))
        return resp

    def read(e, req, resp):
        x = rp.RegisterResourceResponse()
        x.object.CopyFrom(req.properties)
        resp.properties.CopyFrom(reg(e, pytypes.SimpleNamespace(name=req.name, object=req.properties), x).object)
        return resp

    def inv(e, req, resp):
        urn = eng.from_struct(req.args)["urn"]
        nm = urn.split("::")[-1]
        c = by[nm]
        x = rp.RegisterResourceResponse()
        w = enc(value(c["t"], c["var"]), c["form"].split("-")[0])
        if w is not None and c["form"].endswith("-sec") and marked(value(c["t"], c["var"])):
            w = {eng.SIG: eng.SECRET_SIG, "value": w}
        o = eng.to_struct({"pQ": w} if w is not None else {})
        reg(e, pytypes.SimpleNamespace(name=nm, object=o), x)
        g = eng.to_struct({"urn": urn, "id": "gid", "state": {}})
        g["state"].CopyFrom(x.object)
        getattr(resp, "return").CopyFrom(g)
        return resp

    async def main(out):
        e = out.extra["engine"]
        e.out = out
        for i, (c, incls, outcls, an, rn, fn) in enumerate(plans):
            nm = f"n{i}"
            by[nm] = c
            route = c.get("route", "register")
            ropts = {"register": {}, "read": {"id": "rid"}, "get": {"urn": f"urn:pulumi:stk::proj::t:m:R::{nm}"}}[route]
            got = {}
            try:
                n = value(c["t"], c["var"])
                v = live(n, c["form"], incls, mod)
                A = getattr(mod, an)
                args = A() if v is None else A(p_q=v)
                if c["in"].startswith("ann"):
                    args.o_p = None
                else:
                    args.o_p = None
                if c.get("tr"):
                    seen = []
                    tr = [lambda a: seen.append(sorted(a.props))]
                else:
                    tr = None
                had = dict(args.__dict__)
                if "p_q" not in had:
                    args.__dict__["p_q"] = None
                    had["p_q"] = None
                r = getattr(mod, rn)(nm, args, pulumi.ResourceOptions(ignore_changes=["p_q", "zz"], additional_secret_outputs=["p_q", "o_p"], replace_on_changes=["p_q"], transformations=tr, **ropts))
                for k, py in (("in", "p_q"), ("out", "o_p")):
                    o = getattr(r, py)
                    if not isinstance(o, pulumi.Output):
                        got[k] = f"<{type(o).__name__}>"
                        continue
                    known = await o.is_known()
                    val = await o.future()
                    got[k] = {"known": known, "secret": await o.is_secret(), "value": show(val, c["t"], outcls, mod) if known else None}
                if args.__dict__ != had:
                    got["args-changed"] = sorted(args.__dict__)
                if route == "get":
                    on_case(c, got)
                    continue
                kind = "ReadResource" if route == "read" else "RegisterResource"
                req = [ev.req for ev in e.events if ev.kind == kind and ev.req.name == nm][0]
                obj = eng.from_struct(req.object if route == "register" else req.properties)
                got["sent"] = unsecret(obj.get("pQ"))
                if set(obj) - {"pQ"}:
                    got["more"] = sorted(set(obj) - {"pQ"})
                if bool(has_secret(obj)) != bool(c["form"].endswith("-sec") and marked(n)):
                    got["secret-sent"] = has_secret(obj)
                if route == "read":
                    got["opts"] = {"additionalSecretOutputs": list(req.additionalSecretOutputs)}
                    on_case(c, got)
                    continue
                got["opts"] = {"ignoreChanges": list(req.ignoreChanges), "additionalSecretOutputs": list(req.additionalSecretOutputs), "replaceOnChanges": list(req.replaceOnChanges)}
                if set(req.propertyDependencies) - {"pQ"}:
                    got["deps-keys"] = sorted(req.propertyDependencies)
            except Exception as ex:  # noqa
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                got["error"] = f"{type(ex).__name__}: {ex} ({tb.name})"[:300]
            on_case(c, got)

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, respond={"RegisterResource": reg, "ReadResource": read, "Invoke": inv}, unknown_ids=set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    try:
        return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)
    finally:
        sys.modules.pop(MOD, None)


# --- function results, and outputs passed on as inputs ---------------------------------------------


def run_fns(cs, on_case):
    """invoke and call with a typed result; the result of the invoke (a dict-based output type) is passed on as an input of the declared type"""
    import pulumi

    dry = cs[0]["dry"]
    text, plans = prepare(cs)
    mod = pytypes.ModuleType(MOD)
    sys.modules[MOD] = mod
    exec(compile(text, MOD, "exec"), mod.__dict__)
    by = {}

    def ans(req):
        c = by[req.tok]
        w = strip_none(enc(value(c["t"], c["var"]), "inst"))
        return {"pQ": mark(w, c["t"], "extra" if c["ans"] == "extra" else "echo")} if w is not None else {"x": 1}

    def inv(e, req, resp):
        getattr(resp, "return").CopyFrom(eng.to_struct(ans(req)))
        return resp

    async def main(out):
        e = out.extra["engine"]
        e.out = out
        for i, (c, incls, outcls, an, rn, fn) in enumerate(plans):
            tok = f"t:m:f{i}"
            by[tok] = c
            got = {}
            t = c["t"]
            try:
                n = value(t, c["var"])
                A = getattr(mod, an)
                v = live(n, c["form"], incls, mod)
                arg = {"x": v} if v is not None and not (n.kind in ("list", "map") and has(t, "obj") and c["form"].split("-")[0] != "inst") else {}
                F = getattr(mod, fn)
                if c["kind"] == "invoke":
                    res = pulumi.runtime.invoke(tok, arg, None, F).value
                else:
                    o = pulumi.runtime.call(tok, arg, None, F)
                    res = await o.future()
                got["type"] = type(res) is F
                got["value"] = show(res.p_q, t, outcls, mod)
                req = [ev.req for ev in e.events if ev.kind in ("Invoke", "Call") and ev.req.tok == tok][0]
                if c["form"] == "inst" and arg:
                    got["sent"] = eng.from_struct(req.args).get("x")
                if c["pass"]:
                    args = A(p_q=res.p_q) if res.p_q is not None else A()
                    args.__dict__.setdefault("p_q", None)
                    args.o_p = None
                    r = getattr(mod, rn)(f"n{i}", args)
                    await r.urn.future()
                    req = [ev.req for ev in e.events if ev.kind == "RegisterResource" and ev.req.name == f"n{i}"][0]
                    got["passed"] = strip_none(eng.from_struct(req.object).get("pQ"))
            except Exception as ex:  # noqa
                got["error"] = f"{type(ex).__name__}: {ex}"[:300]
            on_case(c, got)

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, respond={"Invoke": inv, "Call": inv}, unknown_ids=set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    try:
        return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)
    finally:
        sys.modules.pop(MOD, None)


def expected_fn(c):
    t = c["t"]
    n = value(t, c["var"])
    w = strip_none(enc(n, "inst"))
    exp = {"type": True, "value": dec(w, t, c["out"])}
    if c["form"] == "inst" and w is not None:
        exp["sent"] = enc(n, "inst")
    if c["pass"]:
        exp["passed"] = w
    return exp


# --- enumeration --------------------------------------------------------------------------------------


def cases(group, tier):
    deep = tier == "thorough"
    if group == "full":
        # small types, every combination of everything
        ts = build(2, ["camel"], [["str"], ["int"], ["any"]]) + [["obj", p, ["str"]] for p in PATTERNS] + [["obj", p, ["obj", q, ["int"]]] for p in PATTERNS for q in ("camel", "swap")] + [["senum"], ["ienum"], ["float"], ["bool"]]
        for i, t in enumerate(ts):
            for var, a, o, f, r, ans, dry in itertools.product(range(4), IN_STYLES, OUT_STYLES, FORMS, RES_STYLES, ANSWERS, (False, True)):
                key = (IN_STYLES.index(a) + OUT_STYLES.index(o) + FORMS.index(f) + RES_STYLES.index(r) + ANSWERS.index(ans) + var + i)
                if not deep and key % 17:
                    continue
                yield {"t": t, "var": var, "in": a, "out": o, "form": f, "res": r, "ans": ans, "dry": dry}
    else:
        # every type up to the depth, the other dimensions rotating
        ts = build(4 if deep else 3, ["camel", "swap", "dict"], LEAVES)
        n = 0
        for i, t in enumerate(ts):
            for j in range(8 if deep else 12):
                n += 1
                k = i + 7 * j
                c = {"t": t, "var": (k + j) % 4, "in": IN_STYLES[k % 4], "out": OUT_STYLES[(k // 2) % 6], "form": FORMS[(k // 3) % 6], "res": RES_STYLES[k % 3], "ans": ANSWERS[(k // 5) % 5], "dry": bool((k // 7) % 2), "route": ("register", "read", "get")[(k // 11) % 3]}
                if not has(t, "any"):
                    c["tables"] = bool(k % 3 == 0)
                yield c


def ok(c):
    f = c["form"].split("-")[0]
    if c["ans"] == "unknown" and not c["dry"]:
        return False
    if c["ans"] == "secret" and c["form"].endswith("-sec"):
        return False
    if f == "wire" and ambiguous(c["t"]):
        return False  # wire names that are also Python names of other properties are read as Python names
    if f == "wire" and c["in"] == "x":
        return False
    return True


def ambiguous(t):
    if t[0] == "obj":
        pys = {py for py, w in PATTERNS[t[1]] if py != w}
        if any(w in pys for py, w in PATTERNS[t[1]]):
            return True
    return any(isinstance(x, list) and ambiguous(x) for x in t[1:])


def fn_cases(tier):
    ts = build(3 if tier == "thorough" else 2, ["camel", "swap", "dict"], [["str"], ["int"], ["any"], ["senum"]])
    for i, t in enumerate(ts):
        for var in range(4):
            for o in OUT_STYLES:
                for kind in ("invoke", "call"):
                    pas = "dict" in o and kind == "invoke"
                    yield {"t": t, "var": var, "in": IN_STYLES[(i + var) % 4], "out": o, "form": ("inst", "inst", "py", "wire")[(i + var) % 4] if not ambiguous(t) else "inst", "res": "ann", "ans": ("echo", "extra")[(i + var) % 2], "dry": False, "kind": kind, "pass": pas}


SHARDS = 24


def items(tier, seed):
    out = [{"group": g, "tier": tier, "shard": s} for g in ("full", "deep", "fn") for s in range(SHARDS)]
    return out


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True, default=str))


def judge(c, got):
    if "kind" in c:
        want = norm(expected_fn(c))
        return want, norm(got)
    return norm(expected(c)), norm(got)


def batch(st, cs):
    def on_case(c, got):
        want, g = judge(c, got)
        for k in ("in", "out"):
            if want.get(k, 0) is None:
                want.pop(k), g.pop(k, None)
        st.case(c, outcome=json.dumps(want, sort_keys=True)[:100], transitions=report.nodes(g), sample={"case": c, "observed": g})
        if g != want:
            st.add_violation("typed:" + json.dumps(c, sort_keys=True), f"{json.dumps(c)}: expected {json.dumps(want)}, observed {json.dumps(g)}", {"case": c})

    run = run_fns if "kind" in cs[0] else run_cases
    out = run(cs, on_case)
    if out.verdict != "ok":
        st.add_violation("typed-run", f"run ended with {out.verdict}: {out.exc!r}", {"batch": cs})


def work(st, item):
    gen = fn_cases(item["tier"]) if item["group"] == "fn" else (c for c in cases(item["group"], item["tier"]) if ok(c))
    mine = [c for i, c in enumerate(gen) if i % SHARDS == item["shard"]]
    for dry in (False, True):
        part = [c for c in mine if c["dry"] == dry]
        for i in range(0, len(part), 40):
            batch(st, part[i:i + 40])


def replay(case):
    from ..report import Stats

    s = Stats()
    batch(s, case["batch"] if "batch" in case else [case["case"]])
    return s.violations
