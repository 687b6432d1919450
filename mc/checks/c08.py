"""C08: merging options is a left-biased fold that keeps everything that was given."""
import copy
import itertools

from .. import core, progs
from . import c05

LEVEL = "model_checking"
RULE = ("every sequence of up to 3 option bags with up to 2 populated fields each (all fields, all values of a per-field alphabet incl. unset/falsy, lists/tuples/maps) x every way of merging them "
        "(static left fold, static right fold, instance chain, None operands); plus all triples of depends_on forms merged and observed in the registration request under every completion order; states = distinct (bags, style) cases.")
ASSUMPTIONS = ["depends_on outputs are known"]

STYLES = ("left", "right", "inst")


class Tag:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


def res_fields():
    """field -> (kind, values)"""
    import pulumi

    def t1(args):
        return None

    def t2(args):
        return None

    provs = [fake_provider(n) for n in ("a", "b", "a")]
    return {
        "parent": ("scalar", [provs[0], provs[1]]),
        "protect": ("scalar", [True, False]),
        "delete_before_replace": ("scalar", [True, False]),
        "provider": ("scalar", [provs[0], provs[1]]),
        "version": ("scalar", ["1.0", "2.0", ""]),
        "plugin_download_url": ("scalar", ["u1", "u2", ""]),
        "custom_timeouts": ("scalar", [pulumi.CustomTimeouts(create="1m"), pulumi.CustomTimeouts(delete="2m")]),
        "id": ("scalar", ["i1", "i2"]),
        "import_": ("scalar", ["m1", "m2", ""]),
        "urn": ("scalar", ["urn1", "urn2"]),
        "retain_on_delete": ("scalar", [True, False]),
        "ignore_changes": ("list", [["p"], ["q", "p"], []]),
        "replace_on_changes": ("list", [["p"], ["q"], []]),
        "aliases": ("list", [["al"], (pulumi.Alias(name="x"),), []]),
        "additional_secret_outputs": ("list", [["s1"], ["s2", "s1"], []]),
        "transformations": ("list", [[t1], [t2], []]),
        "providers": ("providers", [[provs[0]], [provs[1]], [provs[2]], {"b": provs[1]}, {"a": provs[0], "b": provs[1]}, (provs[0], provs[1]), []]),
    }


def fake_provider(pkg):
    import pulumi

    p = object.__new__(pulumi.ProviderResource)
    p.package = pkg
    return p


def inv_fields():
    provs = [fake_provider(n) for n in ("a", "b")]
    return {"parent": ("scalar", provs), "provider": ("scalar", provs), "version": ("nonempty", ["1.0", "2.0"]), "plugin_download_url": ("scalar", ["u1", "u2", ""])}


def fold(kind, vals):
    vals = [v for v in vals if v is not None]
    if kind in ("scalar", "nonempty"):
        return vals[-1] if vals else (None if kind == "scalar" else "")
    if not vals:
        return None
    if kind == "list":
        return [x for v in vals for x in v]
    d = {}
    for v in vals:
        for p in v.values() if isinstance(v, dict) else v:
            d[p.package] = p
    return d or None


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys() ^ b.keys()) == [] and all(a[k] is b[k] for k in a)
    return a is b or (type(a) is type(b) and a == b)


def as_providers(x):
    if isinstance(x, (list, tuple)):
        return {p.package: p for p in x} or None
    if isinstance(x, dict):
        return dict(x) or None
    return x


def snapshot(o):
    return None if o is None else {k: (copy.copy(v) if isinstance(v, (list, dict)) else v) for k, v in o.__dict__.items() if k != "merge"}


def check_merge(cls, fields, bags, style):
    """bags: list of None or {field: value index}"""
    bad = []
    opts = [None if b is None else cls(**{f: fields[f][1][i] for f, i in b.items()}) for b in bags]
    before = [snapshot(o) for o in opts]
    try:
        r = progs.merge_all(opts, style, cls)
    except Exception as e:  # noqa
        return [(f"raises:{cls.__name__}", f"merge raised {e!r}")]
    if not isinstance(r, cls):
        return [(f"type:{cls.__name__}", f"merge returned {r!r}")]
    for f, (kind, vals) in fields.items():
        exp = fold(kind, [None if b is None or f not in b else vals[b[f]] for b in bags])
        got = getattr(r, f)
        if kind == "providers":
            got = as_providers(got)
        if kind == "nonempty" and got is None:
            got = ""
        if kind == "list" and got is not None:
            got = list(got)
        if not same(got, exp):
            bad.append((f"{cls.__name__}.{f}", f"merged {f} is {got!r}, expected {exp!r}"))
    for i, (o, b) in enumerate(zip(opts, before)):
        if o is not None and not r is o:
            a = snapshot(o)
            for k in set(a) | set(b):
                if not same(a.get(k), b.get(k)):
                    bad.append((f"mutated:{cls.__name__}.{k}", f"operand {i} changed: {k} was {b.get(k)!r}, now {a.get(k)!r}"))
    # the result must not share growing state with its operands: merging again leaves it alone
    s1 = snapshot(r)
    cls.merge(r, cls(**{f: fields[f][1][0] for f in fields if f != "provider"}))
    s2 = snapshot(r)
    for k in s1:
        if not same(s1[k], s2[k]):
            bad.append((f"shared:{cls.__name__}.{k}", f"merging the result again changed it: {k}"))
    return bad


def bags_single(fields, f, n):
    vals = [None] + list(range(len(fields[f][1])))
    for combo in itertools.product(vals, repeat=n):
        yield [{} if i is None else {f: i} for i in combo]


def gen(which, tier):
    fields = FIELDS[which]()
    names = list(fields)
    for f in names:
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for bags in bags_single(fields, f, n):
                yield bags
                for k in range(n):
                    if not bags[k]:
                        yield bags[:k] + [None] + bags[k + 1 :]
    for f, g in itertools.combinations(names, 2):
        for pat in itertools.product([(None, None), (0, None), (None, 0), (0, 1), (1, 0), (1, None)], repeat=3 if tier == "thorough" else 2):
            yield [{**({f: a} if a is not None else {}), **({g: b} if b is not None else {})} for a, b in pat]
    # everything set, one field missing in one of the operands
    for f in names:
        for k in range(3):
            bags = [{x: (i + j) % 2 for j, x in enumerate(names)} for i in range(3)]
            del bags[k][f]
            yield bags


def FIELD(which):
    return FIELDS[which]()


FIELDS = {"res": res_fields, "inv": inv_fields}
DEPS = [None, ["list", 0], ["list", 1, 2], ["one", 2], ["outlist", 0, 1], ["listout", 1], ["fut", 2], ["tuple", 0, 2], ["list"]]


def items(tier, seed):
    return [{"m": "res", "tier": tier, "shard": s, "of": 8} for s in range(8)] + [{"m": "inv", "tier": tier, "shard": 0, "of": 1}] + [{"m": "deps", "tier": tier, "shard": s, "of": 24} for s in range(24)]


def cls_of(which):
    import pulumi

    return pulumi.ResourceOptions if which == "res" else pulumi.InvokeOptions


def with_loop(f):
    """ResourceOptions may create futures, so a loop has to exist."""
    res = {}

    async def main(out):
        res["v"] = f()

    def setup(out):
        core.fresh_settings(None)

    o = core.run_loop(main, core.Chooser(), setup=setup, settle=False)
    if o.verdict != "ok":
        return [(f"verdict:{o.verdict}", repr(o.exc))]
    return res["v"]


def dep_prog(deps, style):
    return [{"k": "custom"}, {"k": "comp"}, {"k": "custom", "parent": 1}, {"k": "custom", "mdeps": deps, "style": style}]


def work(st, item):
    tier = item["tier"]
    if item["m"] == "deps":
        k = 0
        for n in (2, 3):
            for deps in itertools.product(DEPS, repeat=n):
                for style in STYLES:
                    k += 1
                    if k % item["of"] != item["shard"]:
                        continue
                    prog = dep_prog(list(deps), style)
                    for dry in (False, True) if tier == "thorough" else (False,):
                        c05.explore_prog(st, prog, dry, {} if tier == "thorough" else {"order": 0}, False, 1, f"deps{n}")
        return
    fields = FIELDS[item["m"]]()
    cls = cls_of(item["m"])

    def run():
        for k, bags in enumerate(gen(item["m"], tier)):
            if k % item["of"] != item["shard"]:
                continue
            for style in STYLES:
                bad = check_merge(cls, fields, bags, style)
                st.case([item["m"], bags, style], f"{item['m']} {len(bags)}", nontrivial=sum(bool(b) for b in bags) > 1, transitions=len(bags), sample={"bags": bags, "style": style})
                for key, m in bad:
                    st.add_violation(key, m + f"\nbags={bags} style={style}", {"m": item["m"], "bags": bags, "style": style})
        return []

    for key, m in with_loop(run):
        st.add_violation(key, m, None)


def replay(case):
    if "prog" in case:
        return c05.replay(case)
    return with_loop(lambda: check_merge(cls_of(case["m"]), FIELDS[case["m"]](), case["bags"], case["style"]))
