"""Provider objects used by C18 (importable, so that some of them are serialized by reference)."""
import collections
import contextlib
import copy
import enum
import sys
import types

from pulumi.dynamic import CheckFailure, CheckResult, CreateResult, DiffResult, ReadResult, ResourceProvider, UpdateResult

LOG = []
COUNTS = []
OLD_BLOB = ["!this is the provider of the old state, which an update does not use!"]


def perform(self, m, *args):
    import mc.checks.c18objs as o

    o.LOG.append([m] + [copy.deepcopy(a) if not callable(a) else a for a in args])
    beh = self.beh[m]
    if getattr(self, "stateful", False):
        self.count += 1
        self.state[self.label] = self.state.get(self.label, 0) + 1
        o.COUNTS[:] = [self.label, self.count]
    if "raise" in beh:
        raise Exception(beh["raise"])
    news = args[-1]

    def bag(r):
        if r == "$olds":
            return args[-2]
        if r == "$arg":
            return news
        if r == "$unkres":
            from pulumi.output import Unknown
            return {"u": Unknown(), "v": 1.0}
        return r

    if m == "check":
        return CheckResult(bag(beh["inputs"]), None if beh["failures"] is None else [CheckFailure(*f) for f in beh["failures"]])
    if m == "diff":
        return DiffResult(beh["changes"], beh["replaces"], beh["stables"], beh["dbr"])
    if m == "create":
        return CreateResult(beh["id"], bag(beh["outs"]))
    if m == "read":
        return ReadResult(args[0] if beh["id"] == "$id" else beh["id"], bag(beh["outs"]))
    if m == "update":
        return UpdateResult(bag(beh["outs"]))
    return None


class RefProvider(ResourceProvider):
    """serialized by reference: the class is importable"""

    def check(self, olds, news):
        return perform(self, "check", olds, news)

    def diff(self, id_, olds, news):
        return perform(self, "diff", id_, olds, news)

    def create(self, props):
        return perform(self, "create", props)

    def read(self, id_, props):
        return perform(self, "read", id_, props)

    def update(self, id_, olds, news):
        return perform(self, "update", id_, olds, news)

    def delete(self, id_, props):
        return perform(self, "delete", id_, props)


SRC = """
class ValProvider(ResourceProvider):
    pass
def check(self, olds, news):
    from mc.checks.c18objs import perform
    return perform(self, "check", olds, news)
def diff(self, id_, olds, news):
    from mc.checks.c18objs import perform
    return perform(self, "diff", id_, olds, news)
def create(self, props):
    from mc.checks.c18objs import perform
    return perform(self, "create", props)
def read(self, id_, props):
    from mc.checks.c18objs import perform
    return perform(self, "read", id_, props)
def update(self, id_, olds, news):
    from mc.checks.c18objs import perform
    return perform(self, "update", id_, olds, news)
def delete(self, id_, props):
    from mc.checks.c18objs import perform
    return perform(self, "delete", id_, props)
"""
_CODE = compile(SRC, "user_program", "exec")
_CLASSES = {}


def val_class(impl):
    """a class of the user's main program, serialized by value"""
    k = tuple(impl)
    if k not in _CLASSES:
        ns = {"__name__": "__main__", "ResourceProvider": ResourceProvider}
        exec(_CODE, ns)
        c = ns["ValProvider"]
        for m in impl:
            setattr(c, m, ns[m])
        _CLASSES[k] = c
    return _CLASSES[k]


def make(kind, impl, beh, label="", stateful=False):
    p = RefProvider() if kind == "ref" else val_class(impl)()
    p.beh = beh
    p.label = label
    p.stateful = stateful
    p.count = 0
    p.state = {}
    return p


# --- objects for the round trip -------------------------------------------------------------------


class Color(enum.Enum):
    RED = 1
    BLUE = 2


Point = collections.namedtuple("Point", "x y")

OSRC = """
import functools
LIMIT = 7
def helper(x):
    return x + LIMIT
class Base(ResourceProvider):
    scale = 3
    def probe(self):
        return "base"
class Plain(Base):
    def probe(self):
        return ["plain", self.scale, helper(1)]
class WithClosure(Base):
    def __init__(self, n):
        super().__init__()
        self.f = lambda x: x * n + LIMIT
    def probe(self):
        return self.f(5)
class Recursive(Base):
    def probe(self):
        def fact(n):
            return 1 if n < 2 else n * fact(n - 1)
        return fact(5)
class Sub(Plain):
    table = {"b": 1, "a": [2, (3, 4)]}
    def probe(self):
        return super().probe() + [self.table["a"][1]]
class Prop(Base):
    @property
    def p(self):
        return self.v * 2
    @staticmethod
    def s(x):
        return x + 1
    @classmethod
    def c(cls):
        return cls.scale
    def probe(self):
        return [self.p, self.s(1), self.c()]
class Cached(Base):
    def probe(self):
        return functools.reduce(lambda a, b: a + b, self.v)
"""


def _ns():
    ns = {"__name__": "__main__", "ResourceProvider": ResourceProvider}
    exec(compile(OSRC, "user_program", "exec"), ns)
    return ns


NS = _ns()


def build(cls="Plain", *a, **attrs):
    p = NS[cls](*a)
    for k, v in attrs.items():
        setattr(p, k, v)
    return p


def cyc():
    p = build()
    p.d = {"x": [1]}
    p.d["me"] = p.d
    p.l = []
    p.l.append(p.l)
    return p


def selfref():
    p = build()
    p.me = p
    return p


def shared():
    p = build()
    x = [1, 2]
    p.a, p.b = x, {"x": x}
    return p


def gen():
    yield 1


OBJECTS = {
    "plain": lambda: build(),
    "dict": lambda: build(d={"b": 1, "a": {"z": None, "y": [True, 2.5, b"x"]}}),
    "dictorder": lambda: build(d={"a": {"y": [True, 2.5, b"x"], "z": None}, "b": 1}),
    "intkeys": lambda: build(d={2: "b", 1: "a", -3: {}}),
    "mixedkeys": lambda: build(d={2: "b", "one": 1, None: 0}),
    "enumkeys": lambda: build(d={Color.RED: 1, Color.BLUE: 2}),
    "typekeys": lambda: build(d={int: "i", str: "s"}),
    "tuplekeys": lambda: build(d={(1, "a"): 1, ("b", 2): 2}),
    "nested-mixed": lambda: build(d={"k": [{1: {"x": 1}, "1": {2: 2, None: 3}}]}),
    "dictvalues": lambda: build(d={"k": {"a": 1}, "l": {"a": 2}}, e=[{"x": 1}, {"x": 2}]),
    "tuple": lambda: build(t=(1, ("a", [2]), frozenset({3}))),
    "namedtuple": lambda: build(p=Point(1, [2])),
    "ordered": lambda: build(o=collections.OrderedDict([("z", 1), ("a", 2)])),
    "defaultdict": lambda: build(o=collections.defaultdict(list, {"z": [1], "a": [2]})),
    "bigdict": lambda: build(d={f"k{i}": i for i in range(2500)}),
    "big": lambda: build(n=10**40, s="é\n\0", f=float("inf")),
    "closure": lambda: build("WithClosure", 3),
    "closure2": lambda: build("WithClosure", 4),
    "recursive": lambda: build("Recursive"),
    "sub": lambda: build("Sub"),
    "prop": lambda: build("Prop", v=4),
    "cached": lambda: build("Cached", v=[1, 2, 3]),
    "cycle": cyc,
    "shared": shared,
    "selfref": selfref,
    "set": lambda: build(s={3, 1, 2}),
    "ref": lambda: Probed(),
    "generator": lambda: build(g=gen()),
    "unpicklable": lambda: build(g=Refuses()),
    "deep-unpicklable": lambda: build(d={"a": [{"b": Refuses()}]}),
}
UNPICKLABLE = {"generator", "unpicklable", "deep-unpicklable"}
UNORDERED = set()


class Refuses:
    def __reduce_ex__(self, proto):
        raise TypeError("not this one")


class Probed(RefProvider):
    def __init__(self):
        self.v = {"b": 1, "a": 2}

    def probe(self):
        return ["ref", self.v]


def same(a, b, seen=None):
    """structural equality that copes with cycles and functions"""
    seen = seen or set()
    if (id(a), id(b)) in seen:
        return True
    seen = seen | {(id(a), id(b))}
    if type(a).__name__ != type(b).__name__:
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k], seen) for k, v in a.items()) and (not isinstance(a, collections.OrderedDict) or list(a) == list(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, types.FunctionType):
        return a(5) == b(5)
    if isinstance(a, ResourceProvider):
        return same(a.__dict__, b.__dict__, seen)
    return a == b


@contextlib.contextmanager
def quiet():
    yield
