"""C22: stack references read other stacks' outputs with their secrecy."""
import asyncio
import itertools
import json

from .. import core, engine as eng, outmodel as om, report
from .c04 import dec, show, wire

LEVEL = "model_checking"
RULE = ("Real StackReferences read through the real SDK from a scripted engine: every set of up to two outputs over a value alphabet (plain, null, empty, nested, secret outside or inside, unknown) x every form of the list of secret names (absent, null, exact, larger, secret itself, unknown) "
        "x every way to name the stack (resource name, text, output, secret output, awaitable, unknown in previews, options object used for several references) x get_output and require_output x every way to name the output (text, output, secret or unknown or failing output, awaitable; present and absent) "
        "x preview/update; and every order in which the stack's name, the output's name and the engine's answer arrive; values, knownness, secrecy, dependencies and the read request against a reference; states = distinct (case, order).")
ASSUMPTIONS = ["the list of secret names, when given, names every output with a secret in it", "the engine answers a read of an unknown stack with no properties", "the secrecy of a secret output name itself is left open"]

STYPE = "pulumi:pulumi:StackReference"
DEP = "urn:pulumi:stk::proj::t:m:C::dep"


def sec(v):
    return {"sec": v}


def alphabet(dry):
    A = [{"v": "s"}, {"v": 2.0}, {"v": None}, {"v": ""}, {"v": False}, {"l": []}, {"d": {"k": {"v": "z"}, "l": {"l": [{"v": 1.0}, {"v": None}]}}}, sec({"v": "x"}), sec({"v": None}), {"l": [{"v": "p"}, sec({"v": "q"})]}, {"d": {"k": {"d": {"j": sec({"v": 1.0})}}}}, sec({"d": {"k": sec({"v": "y"})}}), {"v": "[secret]"}]
    if dry:
        A += [{"unk": 1}, {"l": [{"unk": 1}]}, sec({"unk": 1})]
    return A


def has_sec(s):
    if "sec" in s:
        return True
    return any(has_sec(x) for x in (s.get("l") or [])) or any(has_sec(x) for x in (s.get("d") or {}).values())




def names_of(outs, form, dry):
    """(wire value or None for absent, list or None when not known or not given)."""
    exact = sorted(k for k, v in outs.items() if has_sec(v))
    if form == "absent":
        return None, None
    if form == "null":
        return {"v": None}, None
    if form == "exact":
        return {"l": [{"v": k} for k in exact]}, exact
    if form == "more":
        m = exact + ["zz", "other"]
        return {"l": [{"v": k} for k in m]}, m
    if form == "all":
        m = sorted(outs)
        return {"l": [{"v": k} for k in m]}, m
    if form == "secret":
        return sec({"l": [{"v": k} for k in exact]}), exact
    if form == "unk":
        return {"unk": 1}, None
    raise core.HarnessError(form)




def expect(case):
    dry = case["dry"]
    outs = case["outs"]
    if case["stack"] == "unk":
        outs = {}
        known_all, secret_all, names, vals = False, False, None, {}
    else:
        d = dec({"d": outs}, dry)
        secret_all = any(has_sec(v) for v in outs.values())
        vals = d.v if isinstance(d, type(dec(sec({"v": 1.0}), dry))) else d
        known_all = not om.has_unk(vals)
        names = names_of(outs, case["names"], dry)[1]
    exp = []
    for acc, form, key in case["acc"]:
        deps = ["self"] + ([DEP] if form == "dep" else [])
        if form == "bad":
            exp.append({"error": "ValueError"})
            continue
        nk = form != "unk"
        secret = secret_all if names is None or not nk else key in names
        if form == "secret":
            secret = "any"
        if not nk or not known_all:
            exp.append({"known": False, "secret": secret, "value": None, "deps": sorted(deps)})
            continue
        if acc == "require" and key not in vals:
            exp.append({"error": "KeyError"})
            continue
        v = vals.get(key)
        if isinstance(v, om.Sec if hasattr(om, "Sec") else ()):
            v = v.v
        exp.append({"known": True, "secret": secret, "value": v, "deps": sorted(deps)})
    return exp


def execute(case, ch):
    import pulumi

    dry = case["dry"]
    result = {}

    def read(e, req, resp):
        if req.type != STYPE:
            return resp
        resp.properties.Clear()
        if case["stack"].endswith("unk"):
            return resp
        d = {"name": req.id, "outputs": {k: wire(v) for k, v in case["outs"].items()}}
        w = names_of(case["outs"], case["names"], dry)[0]
        if w is not None:
            d["secretOutputNames"] = wire(w)
        resp.properties.CopyFrom(eng.to_struct(d))
        return resp

    async def main(out):
        out.extra["engine"].out = out
        loop = asyncio.get_event_loop()
        dep = pulumi.CustomResource("t:m:C", "dep", {})
        await dep.urn.future()

        def given(form, v):
            """v as an input in the given form; a * in front: it arrives later."""
            late = form.startswith("*")
            f = form.lstrip("*")

            def fut(x):
                if late:
                    return asyncio.ensure_future(job(x)) if not isinstance(x, Exception) else asyncio.ensure_future(boom(x))
                r = loop.create_future()
                if isinstance(x, Exception):
                    r.set_exception(x)
                else:
                    r.set_result(x)
                return r

            arrives = loop.run_in_executor(None, lambda: None) if late else None

            async def job(x):
                await arrives
                return x

            async def boom(x):
                await arrives
                raise x

            if f in ("str", "none"):
                return v
            if f == "fut":
                return fut(v)
            if f == "co":
                async def co():
                    return await fut(v)
                return co()
            known = f != "unk"
            return pulumi.Output(fut({dep} if f == "dep" else set()), fut(ValueError("bad name") if f == "bad" else v if known else None), fut(known), fut(f == "secret"))

        opts = pulumi.ResourceOptions(protect=True, id="not this one") if case.get("opts") else None
        before = dict(vars(opts)) if opts is not None else None
        refs = []
        names = ["org/p/s"] if not case.get("opts") else ["org/p/s", "org/p/t"]
        for i, sn in enumerate(names):
            kw = {} if opts is None else {"opts": opts}
            if case["stack"] == "none":
                r = pulumi.StackReference(sn, **kw)
            else:
                r = pulumi.StackReference(f"ref{i}", given(case["stack"], sn), **kw)
            refs.append(r)
        if opts is not None and any(vars(opts).get(k) is not before.get(k) for k in {**vars(opts), **before}):
            result["mutated"] = {k: (before.get(k), vars(opts).get(k)) for k in {**vars(opts), **before} if vars(opts).get(k) is not before.get(k)}
        ref = refs[0]
        os_ = []
        for acc, form, key in case["acc"]:
            f = ref.get_output if acc == "get" else ref.require_output
            os_.append(f(given(form, key)))

        async def obs(o):
            try:
                v = show(await o.future(with_unknowns=True))
                known = await o.is_known()
            except Exception as e:  # noqa
                return {"error": type(e).__name__}
            deps = []
            for r in await o.resources():
                deps.append("self" if r is ref else await r.urn.future())
            return {"known": known, "secret": await o.is_secret(), "value": v if known else None, "deps": sorted(deps)}

        result["got"] = [await t for t in [asyncio.ensure_future(obs(o)) for o in os_]]
        for r in refs:
            await r.urn.future()
        result["ids"] = [[await r.id.is_known(), await r.id.is_secret(), await r.id.future()] for r in refs]
        result["again"] = [await obs(o) for o in os_]

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, respond={"ReadResource": read}, unknown_ids=set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    out = core.run_loop(main, ch, settle=False, timeout=60, setup=setup)
    return out, result


def check(case, out, result):
    bad = []
    if out.verdict != "ok":
        return [f"the run ends with {out.verdict} {out.exc!r}"]
    if "mutated" in result:
        bad.append(f"the options object was changed: {result['mutated']}")
    want = json.loads(json.dumps(expect(case), default=str))
    for a, g, w in zip(case["acc"], json.loads(json.dumps(result["got"], default=str)), want):
        if w.get("secret") == "any" and "secret" in g:
            g = {**g, "secret": "any"}
        if not same(g, w):
            bad.append(f"{a}: {g}, expected {w}")
    if json.loads(json.dumps(result["again"], default=str)) != json.loads(json.dumps(result["got"], default=str)):
        bad.append(f"observed again: {result['again']}, before {result['got']}")
    reads = [ev for ev in out.extra["engine"].events if ev.kind == "ReadResource"]
    names = ["org/p/s"] if not case.get("opts") else ["org/p/s", "org/p/t"]
    sent = sorted((ev.req.name, ev.req.type, ev.req.id, json.dumps(strip(eng.from_struct(ev.req.properties)), sort_keys=True)) for ev in reads)
    st = case["stack"].lstrip("*")
    exp = []
    for i, n in enumerate(names):
        prop = eng.UNKNOWN if st == "unk" else {eng.SIG: eng.SECRET_SIG, "value": n} if st == "secret" else n
        exp.append((n if st == "none" else f"ref{i}", STYPE, eng.UNKNOWN if st == "unk" else n, json.dumps({"name": prop}, sort_keys=True)))
    ids = [[st != "unk", st == "secret", None if st == "unk" else n] for n in names]
    if result["ids"] != ids:
        bad.append(f"the references' ids (known, secret, value) are {result['ids']}, expected {ids}")
    sent2 = [(a, b, c if isinstance(c, str) else c, d) for a, b, c, d in sent]
    if sent2 != sorted(exp):
        bad.append(f"read requests {sent2}, expected {sorted(exp)}")
    return bad


def strip(d):
    return {k: v for k, v in d.items() if v is not None}


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def answers(dry, tier):
    A = alphabet(dry)
    yield {}
    for a in A:
        yield {"a": a}
    for a, b in itertools.product(A, repeat=2):
        yield {"a": a, "b": b}
    if tier != "quick":
        for a, b, c in itertools.product(A, repeat=3):
            yield {"a": a, "b": b, "zz": c}


def forms(dry):
    return ["absent", "null", "exact", "more", "all", "secret"] + (["unk"] if dry else [])


def accesses(dry, keys=("a", "b", "zz")):
    nf = ["str", "out", "secret", "fut", "co", "dep"]
    out = [[acc, f, k] for acc in ("get", "require") for f in nf for k in keys]
    out += [[acc, "bad", "a"] for acc in ("get", "require")]
    if dry:
        out += [[acc, "unk", "a"] for acc in ("get", "require")]
    return out


def wide(dry, tier):
    """every answer; all accesses at once; one way to name the stack each, in turn."""
    sf = ["none", "str", "out", "secret", "dep"]
    i = 0
    for outs in answers(dry, tier):
        for f in forms(dry):
            i += 1
            yield {"dry": dry, "outs": outs, "names": f, "stack": sf[i % len(sf)], "acc": accesses(dry), "opts": i % 7 == 0}
    for s in sf + (["unk"] if dry else []):
        for o in (False, True):
            for f in forms(dry):
                for outs in ({}, {"a": {"v": "s"}, "b": sec({"v": "x"})}):
                    yield {"dry": dry, "outs": outs, "names": f, "stack": s, "acc": accesses(dry), "opts": o}


def ordered(dry, tier):
    """what arrives when."""
    outs = [{}, {"a": {"v": "s"}}, {"a": sec({"v": "x"}), "b": {"v": None}}, {"a": {"v": "s"}, "b": {"l": [sec({"v": "q"})]}}]
    if dry:
        outs += [{"a": {"unk": 1}, "b": {"v": 1.0}}]
    for o in outs:
        for f in forms(dry):
            for s in ["none", "*out", "*secret", "*dep"] + (["*unk"] if dry else []):
                for acc in ("get", "require"):
                    for nf in ["*out", "*fut", "*co", "*secret", "*dep", "*bad"] + (["*unk"] if dry else []):
                        for key in ("a", "b"):
                            yield {"dry": dry, "outs": o, "names": f, "stack": s, "acc": [[acc, nf, key]], "opts": False}
                        if tier != "quick":
                            yield {"dry": dry, "outs": o, "names": f, "stack": s, "acc": [[acc, nf, "a"], ["get", "*out", "b"]], "opts": True}


def items(tier, seed):
    out = []
    for dry in (False, True):
        out += [["wide", dry, k, 24, tier] for k in range(24)] + [["order", dry, k, 24, tier] for k in range(24)]
    return out


BUDGET = {"quick": {}, "thorough": {}}


def work(st, item):
    kind, dry, k, n, tier = item
    if kind == "wide":
        for case in itertools.islice(wide(dry, tier), k, None, n):
            out, result = execute(case, core.Chooser())
            bad = check(case, out, result)
            st.case(case, "ok" if not bad else bad[0][:60], transitions=out.sched.submitted + len(case["acc"]), sample={**case, "acc": case["acc"][:3]})
            for b in bad[:3]:
                st.add_violation("ref:" + b[:60], f"{json.dumps({**case, 'acc': '...'})}: {b}", {"case": case, "choices": []})
    else:
        for case in itertools.islice(ordered(dry, tier), k, None, n):
            c2 = {**case, "acc": [[a, f.lstrip("*"), key] for a, f, key in case["acc"]], "stack": case["stack"].lstrip("*")}
            for ch, (out, result) in core.explore(lambda ch: execute(case, ch), BUDGET[tier]):
                bad = check(c2, out, result)
                st.case([case, out.sched.delivered, ch.choices], "ok" if not bad else bad[0][:60], transitions=out.sched.submitted, sample={"case": case, "order": list(out.sched.delivered)})
                for b in bad[:3]:
                    st.add_violation("ref:" + b[:60], f"{json.dumps(case)} order {ch.choices}: {b}", {"case": case, "choices": ch.choices})


def replay(c):
    case = c["case"]
    out, result = execute(case, core.Chooser(tuple(c["choices"])))
    c2 = {**case, "acc": [[a, f.lstrip("*"), key] for a, f, key in case["acc"]], "stack": case["stack"].lstrip("*")}
    return "; ".join(check(c2, out, result)) or None
