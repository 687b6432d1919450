"""C02: callbacks run exactly once with real values, never on unknowns during preview."""
import collections
import itertools
import json
from typing import Any, Dict, List

from .. import core, outcheck

LEVEL = "model_checking"
RULE = ("every Output expression of the listed shape groups (leaf kinds x unary/binary combinators up to depth 3) x deployment mode x every "
        "order in which the environment resolves the leaves (within the per-group deviation budget; 'split' delivers value/known/secret/deps of one leaf separately). "
        "Each execution of the real SDK is compared with the reference semantics; distinct = distinct (expression, mode, observation). "
        "Group 'values': every value of nesting at most 3 (4 in thorough) built from a text and an unknown with lists, dicts, subclasses of both, typed classes (plain, dict, declared translation) "
        "and values that contain themselves x nominally known or not x the three ways of consuming an output (apply, apply with unknowns, a lift followed by apply) x preview/update.")
ASSUMPTIONS = ["leaf alphabet: strings, None, nested dict/list, unknown, partly unknown, failing", "in updates (not preview) only known leaves occur",
               "values outside the alphabet and trees deeper than 3 are not covered"]

# --- values: where in a value the unknown may hide ----------------------------------------------

_types_made = {}


def typed():
    """The typed classes the values use (made once per process from the current tree)."""
    if _types_made:
        return _types_made
    import pulumi

    @pulumi.output_type
    class Plain:
        def __init__(self, first_one, other=None):
            pulumi.set(self, "first_one", first_one)
            pulumi.set(self, "other", other)

        @property
        @pulumi.getter(name="firstOne")
        def first_one(self) -> Any:
            return pulumi.get(self, "first_one")

        @property
        @pulumi.getter
        def other(self) -> Any:
            return pulumi.get(self, "other")

    @pulumi.output_type
    class Dicty(dict):
        def __init__(self, first_one, other=None):
            pulumi.set(self, "first_one", first_one)
            pulumi.set(self, "other", other)

        @property
        @pulumi.getter(name="firstOne")
        def first_one(self) -> Any:
            return pulumi.get(self, "first_one")

        @property
        @pulumi.getter
        def other(self) -> Any:
            return pulumi.get(self, "other")

        def _translate_property(self, prop):
            return {"firstOne": "first_one"}.get(prop) or prop

    _types_made.update(plain=Plain, dicty=Dicty)
    return _types_made


WRAPS = ["list", "list2", "dict", "dict2", "odict", "sublist", "plain", "plain2", "dicty", "dicty2", "none"]
LOOPS = ["selflist", "selfdict", "twice"]


class _SubList(list):
    pass


def make(path, leaf):
    """-> value: `leaf` under the containers of `path`, outermost first"""
    from pulumi import _types

    v = leaf
    for w in reversed(path):
        v = wrap(w, v, _types)
    return v


def wrap(w, v, _types):
    ts = typed()
    if w == "list":
        return [v]
    if w == "list2":
        return ["x", {"k": "y"}, v, None]
    if w == "dict":
        return {"k": v}
    if w == "dict2":
        return {"a": "x", "k": v, "z": []}
    if w == "odict":
        return collections.OrderedDict([("a", 1), ("k", v)])
    if w == "sublist":
        return _SubList([1, v])
    if w == "plain":
        return _types.output_type_from_dict(ts["plain"], {"firstOne": v})
    if w == "plain2":
        return _types.output_type_from_dict(ts["plain"], {"firstOne": "x", "other": v})
    if w == "dicty":
        return _types.output_type_from_dict(ts["dicty"], {"firstOne": v})
    if w == "dicty2":
        return _types.output_type_from_dict(ts["dicty"], {"firstOne": "x", "other": v})
    if w == "none":
        return [None, v]
    if w == "selflist":
        x = []
        x += [x, v]
        return x
    if w == "selfdict":
        d = {}
        d["me"] = [d]
        d["k"] = v
        return d
    if w == "twice":
        shared = {"k": "x"}
        return [shared, shared, v, v]
    raise AssertionError(w)


def paths(tier):
    out = [()]
    deep = 4 if tier == "thorough" else 3
    for n in range(1, deep + 1):
        out += itertools.product(WRAPS if n <= 3 else WRAPS[::2], repeat=n)
    for a in LOOPS:
        out.append((a,))
        for b in WRAPS + LOOPS:
            out += [(a, b), (b, a)]
    return out


def check_value(path, unknown, flag, how, dry):
    """-> (observation, complaints)"""
    bad = []

    async def main(out):
        import pulumi
        from pulumi.output import UNKNOWN

        v = make(path, UNKNOWN if unknown else "leaf")
        loop = out.loop

        def fut(x):
            f = loop.create_future()
            f.set_result(x)
            return f

        calls = []
        o = pulumi.Output(set(), fut(v), fut(flag), fut(False))
        if how == "apply":
            r = o.apply(lambda x: calls.append(x) or "done")
        elif how == "applyu":
            r = o.apply(lambda x: calls.append(x) or "done", run_with_unknowns=True)
        else:
            r = pulumi.Output.all(o, "t").apply(lambda x: calls.append(x) or "done")
        got = await r.future(), await r.is_known()
        return v, calls, got, await o.is_known(), (await o.future()) is v, (await o.future(with_unknowns=True)) is v, pulumi.contains_unknowns(v)

    out = core.run_loop(main, core.Chooser(), early=True, settle=False, timeout=20, setup=lambda out: core.fresh_settings(None, dry_run=dry))
    if out.verdict != "ok":
        return None, [f"the output never settled: {out.verdict} {out.exc!r}"]
    v, calls, got, known, plain, withu, says = out.value
    from pulumi.output import UNKNOWN

    wantknown = flag and not unknown
    if known != wantknown:
        bad.append(f"is_known() is {known}")
    if says != unknown:
        bad.append(f"contains_unknowns is {says}")
    if plain != (not unknown):
        bad.append("future() " + ("hands out a value that contains an unknown" if unknown else "lost the value"))
    if not withu:
        bad.append("future(with_unknowns=True) lost the value")
    if how == "applyu":
        want = 1
        if len(calls) == 1:
            arg = UNKNOWN if dry and not flag and not unknown else v
            if calls[0] is not arg:
                bad.append(f"the callback got {type(calls[0]).__name__} instead of {'the unknown' if arg is UNKNOWN else 'the value'}")
    else:
        want = 1 if wantknown or not dry else 0
        if len(calls) == 1 and (calls[0] is not v if how == "apply" else len(calls[0]) != 2 or calls[0][1] != "t"):
            bad.append("the callback got something else than the value")
    if len(calls) != want:
        bad.append(f"the callback ran {len(calls)} times instead of {want}")
    wantres = ("done", True) if want else (None, False)
    if got != wantres:
        bad.append(f"the result is {got!r} instead of {wantres!r}")
    return [len(calls), known, got[1]], bad


def value_cases(tier):
    for path in paths(tier):
        for unknown in (False, True):
            for flag in (True, False):
                for how in ("apply", "applyu", "all"):
                    for dry in (True, False):
                        if not dry and (unknown or not flag):
                            continue  # unknowns occur in previews only
                        if how == "all" and (len(path) > 2 or set(path) & set(LOOPS)):
                            continue
                        yield list(path), unknown, flag, how, dry


def items(tier, seed):
    shards = 8 if tier == "quick" else 32
    return [{"values": True, "shard": s, "shards": shards, "tier": tier} for s in range(shards)] + outcheck.items(tier, seed)


def work(st, item):
    if not item.get("values"):
        return outcheck.work(st, item, "calls")
    for i, (path, unknown, flag, how, dry) in enumerate(value_cases(item["tier"])):
        if i % item["shards"] != item["shard"]:
            continue
        obs, bad = check_value(path, unknown, flag, how, dry)
        st.case(["value", path, unknown, flag, how, dry], outcome=json.dumps(obs), transitions=2, nontrivial=unknown or not flag,
                sample={"value": path, "unknown": unknown, "nominally_known": flag, "how": how, "dry_run": dry, "observed": obs})
        for m in bad:
            st.add_violation(f"value:{'/'.join(path)}:{unknown}:{flag}:{how}:{dry}",
                             f"value {'/'.join(path) or 'leaf'} with {'an unknown' if unknown else 'a text'} inside, nominally {'known' if flag else 'unknown'}, {how}, dry_run={dry}: {m}",
                             {"value": path, "unknown": unknown, "flag": flag, "how": how, "dry": dry})


def replay(case):
    if "value" in case:
        return check_value(tuple(case["value"]), case["unknown"], case["flag"], case["how"], case["dry"])[1]
    return outcheck.replay(case, "calls")
