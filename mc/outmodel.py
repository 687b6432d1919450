"""
Expression language over pulumi.Output, its reference semantics, and its interpretation by the real SDK.

Expressions (JSON lists):
  ["leaf", kind, id]            an Output resolved by the environment at a time the explorer picks
  ["plain", v]                  prompt value
  ["fut", e]                    an awaitable that yields the (python) value of e
  ["apply", e, fn] / ["applyu", e, fn]   apply / apply(run_with_unknowns=True)
  ["all", e...]  ["alld", [k, e]...]  ["concat", e...]
  ["from", struct]              Output.from_input of a nested structure with expressions inside
  ["secret", e] ["unsecret", e] ["attr", e, k] ["item", e, k]
Structures: {"l": [..]} | {"d": {k: ..}} | {"a": {..}} (args class) | {"x": expr} | {"v": plain}
"""
import asyncio

UNK = "<UNK>"


class Rec:
    """a value with attributes (for attribute lifting)"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Rec" + repr(sorted(self.__dict__.items()))


class DepMark:
    def __init__(self, name):
        self.name = name


class Boom(Exception):
    pass


# kind -> (value, known, secret); values may contain UNK
LEAVES = {
    "K": ("k", True, False),
    "S": ("s", True, True),
    "N": (None, True, False),
    "D": ({"a": "x", "b": {"c": "y"}}, True, False),
    "DS": ({"a": "x", "b": {"c": "y"}}, True, True),
    "L": (["p", "q"], True, False),
    "U": (None, False, False),
    "US": (None, False, True),
    "UV": ("hid", False, False),
    "DU": ({"a": UNK, "b": {"c": "y"}}, True, False),
    "LU": (["p", UNK], True, True),
    "X": ("!", True, False),  # fails
}
LEAF_DEPS = lambda i: {f"r{i}"} if i % 3 else {f"r{i}", "shared"}  # noqa


def has_unk(v):
    if isinstance(v, str):
        return v == UNK
    if isinstance(v, dict):
        return any(has_unk(x) for x in v.values())
    if isinstance(v, list):
        return any(has_unk(x) for x in v)
    return False


class O:  # model output
    __slots__ = ("v", "known", "secret", "deps", "exn")

    def __init__(self, v, known, secret, deps, exn=None):
        self.v, self.secret, self.deps, self.exn = v, secret, frozenset(deps), exn
        self.known = bool(known) and not has_unk(v) and exn is None


class Await:  # model awaitable
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class ArgsV:  # model args-class instance
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Raise(Exception):
    pass


class Model:
    def __init__(self, dry):
        self.dry = dry
        self.calls = []  # (path, arg) expected callback invocations
        self.n_leaf = 0

    # --- reference semantics -----------------------------------------------------------------
    def ev(self, e, path=""):
        """expression -> model value (O, Await, or plain)"""
        op = e[0]
        if op == "leaf":
            v, k, s = LEAVES[e[1]]
            if e[1] == "X":
                return O(None, False, False, LEAF_DEPS(e[2]), "Boom")
            return O(v, k, s, LEAF_DEPS(e[2]))
        if op == "plain":
            return e[1]
        if op == "fut":
            return Await(self.ev(e[1], path + ".f"))
        if op in ("apply", "applyu"):
            o = self.ev(e[1], path + ".0")
            return self.apply(o, lambda v: self.fn(e[2], v, path), op == "applyu")
        if op == "all":
            os = [self.from_input(self.ev(x, f"{path}.{i}")) for i, x in enumerate(e[1:])]
            return self.join(os, lambda vs: vs)
        if op == "alld":
            os = [self.from_input(self.ev(x, f"{path}.{i}")) for i, (k, x) in enumerate(e[1:])]
            ks = [k for k, _ in e[1:]]
            return self.join(os, lambda vs: dict(zip(ks, vs)) if ks else [])
        if op == "concat":
            os = [self.from_input(self.from_input(self.ev(x, f"{path}.{i}"))) for i, x in enumerate(e[1:])]
            return self.apply(self.join(os, lambda vs: vs), lambda v: self.cat(v), False)
        if op == "from":
            return self.from_input(self.struct(e[1], path))
        if op == "secret":
            o = self.from_input(self.ev(e[1], path + ".0"))
            return O(o.v, o.known, True, o.deps, o.exn)
        if op == "unsecret":
            o = self.ev(e[1], path + ".0")
            return O(o.v, o.known, False, o.deps, o.exn)
        if op in ("attr", "item"):
            o = self.ev(e[1], path + ".0")
            return self.apply(o, lambda v: self.get(v, op, e[2]), True)
        raise AssertionError(op)

    def struct(self, s, path):
        (t, x), = s.items()
        if t == "l":
            return [self.struct(y, f"{path}.l{i}") for i, y in enumerate(x)]
        if t == "d":
            return {k: self.struct(y, f"{path}.d{k}") for k, y in x.items()}
        if t == "a":
            return ArgsV({k: self.struct(y, f"{path}.a{k}") for k, y in x.items()})
        if t == "x":
            return self.ev(x, path + ".x")
        return x

    def cat(self, v):
        if not all(isinstance(x, str) for x in v):
            raise Raise("TypeError")
        return "".join(v)

    def get(self, v, op, k):
        if isinstance(v, O):  # lifting goes through an Output found inside
            return self.apply(v, lambda w: self.get(w, op, k), True)
        if v == UNK if isinstance(v, str) else False:
            return UNK
        if op == "item":
            if isinstance(v, dict) and k in v:
                return v[k]
            if isinstance(v, list) and isinstance(k, int) and k < len(v):
                return v[k]
            if isinstance(v, str) and isinstance(k, int) and k < len(v):
                return v[k]
            raise Raise("lookup")
        if isinstance(v, dict) and "$rec" in v and k in v["$rec"]:
            return v["$rec"][k]
        raise Raise("attr")

    def fn(self, name, v, path):
        self.calls.append([path, show(v)])
        if name == "id":
            return v
        if name == "const":
            return "c"
        if name == "none":
            return None
        if name == "boom":
            raise Raise("Boom")
        if name == "await":
            return Await("w")
        if name == "wrap":
            return {"w": v}
        if name == "rec":
            return {"$rec": {"a": v, "z": "q"}}
        if name == "unk":
            return [UNK, "1"]
        if name.startswith("out:"):
            return self.ev(["leaf", name[4:], 7])
        if name.startswith("nest:"):
            return {"n": [self.ev(["leaf", name[5:], 8]), "m"]}
        if name.startswith("all:"):
            return self.ev(["all", ["leaf", name[4:], 7], ["plain", "z"]])
        if name.startswith("fout:"):
            return Await(self.ev(["leaf", name[5:], 7]))
        raise AssertionError(name)

    def apply(self, o, f, rwu):
        if o.exn:
            return O(None, False, False, o.deps, o.exn)
        v = o.v
        if self.dry:
            if not o.known and not rwu:
                return O(None, False, o.secret, o.deps)
            if not o.known and rwu and not has_unk(v):
                v = UNK
        try:
            t = f(v)
        except Raise as r:
            return O(None, False, False, o.deps, str(r))
        if isinstance(t, Await):
            t = t.e
            # the awaitable's own result is taken as is
            return O(t, True, o.secret, o.deps)
        if isinstance(t, O):
            return O(t.v, t.known, o.secret or t.secret, o.deps | t.deps, t.exn)
        return O(t, True, o.secret, o.deps)

    def from_input(self, x):
        if isinstance(x, O):
            return self.apply(x, self.from_input, True)
        if isinstance(x, ArgsV):
            o = self.join([self.from_input(v) for v in x.d.values()], lambda vs: dict(zip(x.d.keys(), vs)))
            # rebuilding the args object requires known contents during preview
            return self.apply(o, lambda d: {"$args": d}, False)
        if isinstance(x, dict) and x and not ("$rec" in x or "$args" in x):
            ks = list(x)
            return self.join([self.from_input(x[k]) for k in ks], lambda vs: dict(zip(ks, vs)))
        if isinstance(x, list) and x:
            return self.join([self.from_input(v) for v in x], lambda vs: vs)
        if isinstance(x, Await):
            if isinstance(x.e, O):
                # an awaitable yielding an output
                return self.apply(O(x.e, True, False, ()), self.from_input, True)
            return self.apply(O(x.e, True, False, ()), self.from_input, True)
        return O(x, True, False, ())

    def join(self, os, build):
        deps = frozenset().union(*[o.deps for o in os]) if os else frozenset()
        exn = next((o.exn for o in os if o.exn), None)
        secret = any(o.secret for o in os)
        if exn:
            return O(None, False, secret, deps, exn)
        return O(build([o.v for o in os]), all(o.known for o in os), secret, deps)


def show(v):
    """canonical JSON-able form of a model value"""
    if isinstance(v, O):
        return "<Output>"
    if isinstance(v, Await):
        return "<Await>"
    if isinstance(v, ArgsV):
        return {"$args": {k: show(x) for k, x in v.d.items()}}
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, list):
        return [show(x) for x in v]
    return v


def model_obs(o):
    if not isinstance(o, O):
        raise AssertionError("top expression must be an Output")
    if o.exn:
        return {"exn": True}
    v = o.v
    if not o.known and not has_unk(v):
        v = UNK
    return {
        "known": o.known,
        "secret": bool(o.secret),
        "deps": sorted(o.deps),
        "value": show(v),
        "plain": None if has_unk(v) else show(v),
    }


# ---------------------------------------------------------------------------------------------
# interpretation by the real SDK


def show_real(v):
    import pulumi
    from pulumi.output import Unknown

    if isinstance(v, Unknown):
        return UNK
    if isinstance(v, pulumi.Output):
        return "<Output>"
    if asyncio.iscoroutine(v) or isinstance(v, asyncio.Future):
        return "<Await>"
    if isinstance(v, Rec):
        return {"$rec": {k: show_real(x) for k, x in v.__dict__.items()}}
    if type(v).__name__ == "ModelArgs":
        return {"$args": {"first_arg": show_real(v.first_arg), "b": show_real(v.b)}}
    if isinstance(v, dict):
        return {k: show_real(x) for k, x in v.items()}
    if isinstance(v, list):
        return [show_real(x) for x in v]
    return v


_args_cls = None


def args_cls():
    global _args_cls
    if _args_cls is None:
        import pulumi

        @pulumi.input_type
        class ModelArgs:
            def __init__(self, *, first_arg, b=None):
                pulumi.set(self, "first_arg", first_arg)
                if b is not None:
                    pulumi.set(self, "b", b)

            @property
            @pulumi.getter(name="firstArg")
            def first_arg(self):
                return pulumi.get(self, "first_arg")

            @property
            @pulumi.getter
            def b(self):
                return pulumi.get(self, "b")

        _args_cls = ModelArgs
    return _args_cls


class Real:
    def __init__(self, loop, mode):
        """mode: "late"   leaves resolve when the explorer delivers them (all four facets at once)
        "split"  value / known / secret / deps of a leaf are delivered separately
        "now"    leaves are resolved from the start"""
        import pulumi
        from pulumi.output import UNKNOWN

        self.p = pulumi
        self.U = UNKNOWN
        self.loop = loop
        self.mode = mode
        self.calls = []
        self.marks = {}

    def mark(self, name):
        if name not in self.marks:
            self.marks[name] = DepMark(name)
        return self.marks[name]

    def val(self, v):
        if isinstance(v, str) and v == UNK:
            return self.U
        if isinstance(v, dict):
            return {k: self.val(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.val(x) for x in v]
        return v

    def leaf(self, kind, i):
        v, k, s = LEAVES[kind]
        loop = self.loop
        fv, fk, fs, fd = (loop.create_future() for _ in range(4))
        deps = {self.mark(n) for n in LEAF_DEPS(i)}

        def sv():
            if kind == "X":
                fv.set_exception(Boom("leaf"))
            else:
                fv.set_result(self.val(v))

        def sk():
            if kind == "X":
                fk.set_exception(Boom("leaf"))
            else:
                fk.set_result(k)

        def ss():
            if kind == "X":
                fs.set_exception(Boom("leaf"))
            else:
                fs.set_result(s)

        def sd():
            fd.set_result(deps)

        if self.mode == "now":
            for f in (sv, sk, ss, sd):
                f()
        elif self.mode == "late":
            j = loop.run_in_executor(None, lambda: None)
            j.add_done_callback(lambda _: [f() for f in (sd, sv, sk, ss)])
        else:
            for f in (sv, sk, ss, sd):
                j = loop.run_in_executor(None, lambda: None)
                j.add_done_callback(lambda _, f=f: f())
        return self.p.Output(fd, fv, fk, fs)

    def ev(self, e, path=""):
        op = e[0]
        O_ = self.p.Output
        if op == "leaf":
            return self.leaf(e[1], e[2])
        if op == "plain":
            return self.val(e[1])
        if op == "fut":
            inner = self.ev(e[1], path + ".f")
            return self.later(inner)
        if op == "apply":
            return self.ev(e[1], path + ".0").apply(lambda v: self.fn(e[2], v, path))
        if op == "applyu":
            return self.ev(e[1], path + ".0").apply(lambda v: self.fn(e[2], v, path), True)
        if op == "all":
            return O_.all(*[self.ev(x, f"{path}.{i}") for i, x in enumerate(e[1:])])
        if op == "alld":
            return O_.all(**{k: self.ev(x, f"{path}.{i}") for i, (k, x) in enumerate(e[1:])})
        if op == "concat":
            return O_.concat(*[self.ev(x, f"{path}.{i}") for i, x in enumerate(e[1:])])
        if op == "from":
            return O_.from_input(self.struct(e[1], path))
        if op == "secret":
            return O_.secret(self.ev(e[1], path + ".0"))
        if op == "unsecret":
            return O_.unsecret(self.ev(e[1], path + ".0"))
        if op == "attr":
            return getattr(self.ev(e[1], path + ".0"), e[2])
        if op == "item":
            return self.ev(e[1], path + ".0")[e[2]]
        raise AssertionError(op)

    def later(self, v):
        if self.mode == "now":
            async def co():
                return v
            return co()
        fut = self.loop.create_future()
        j = self.loop.run_in_executor(None, lambda: None)
        j.add_done_callback(lambda _: fut.set_result(v))
        return fut

    def struct(self, s, path):
        (t, x), = s.items()
        if t == "l":
            return [self.struct(y, f"{path}.l{i}") for i, y in enumerate(x)]
        if t == "d":
            return {k: self.struct(y, f"{path}.d{k}") for k, y in x.items()}
        if t == "a":
            return args_cls()(**{k: self.struct(y, f"{path}.a{k}") for k, y in x.items()})
        if t == "x":
            return self.ev(x, path + ".x")
        return self.val(x)

    def fn(self, name, v, path):
        self.calls.append([path, show_real(v)])
        if name == "id":
            return v
        if name == "const":
            return "c"
        if name == "none":
            return None
        if name == "boom":
            raise Boom("callback")
        if name == "await":
            return self.later("w")
        if name == "wrap":
            return {"w": v}
        if name == "rec":
            return Rec(a=v, z="q")
        if name == "unk":
            return [self.U, "1"]
        if name.startswith("out:"):
            return self.leaf(name[4:], 7)
        if name.startswith("nest:"):
            return {"n": [self.leaf(name[5:], 8), "m"]}
        if name.startswith("all:"):
            return self.ev(["all", ["leaf", name[4:], 7], ["plain", "z"]])
        if name.startswith("fout:"):
            return self.later(self.leaf(name[5:], 7))
        raise AssertionError(name)


async def real_obs(out):
    """Observes an Output through the accessors; every facet must settle."""
    facets = {}

    async def get(name, aw):
        try:
            facets[name] = ("ok", await aw)
        except Exception as e:  # noqa
            facets[name] = ("exn", type(e).__name__)

    await asyncio.gather(
        get("value", out.future(with_unknowns=True)),
        get("plain", out.future()),
        get("known", out.is_known()),
        get("secret", out.is_secret()),
        get("deps", out.resources()),
    )
    if facets["value"][0] == "exn" or facets["plain"][0] == "exn":
        if facets["value"][0] != facets["plain"][0]:
            return {"inconsistent": {k: repr(v) for k, v in facets.items()}}
        return {"exn": True}
    bad = [k for k, v in facets.items() if v[0] == "exn"]
    if bad:
        return {"facet-exn": bad}
    v = show_real(facets["value"][1])
    known = facets["known"][1]
    if not known and not has_unk(v):
        v = UNK
    return {
        "known": known,
        "secret": bool(facets["secret"][1]),
        "deps": sorted(r.name for r in facets["deps"][1]),
        "value": v,
        "plain": None if (not known and v == UNK) else show_real(facets["plain"][1]),
    }
