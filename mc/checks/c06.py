"""C06: failures are never lost, never hang the program, and stop everything that depends on them."""
import asyncio
import itertools

from .. import core, engine as eng, progs
from . import c05

LEVEL = "model_checking"
RULE = ("every program of the grammar (1-3 resources, component outputs, resources created inside apply, raising callbacks) x preview/update x every RPC failing in every way of the menu "
        "(engine error, monitor gone, transport bug, undecodable answer, listed failures; up to the fault bound) x every completion order; every chain of callbacks, tasks and resources, each started by the one before and awaited by nobody, up to a depth x what the last one does (register, raise, use a cancelled awaitable in every position, cancel its own tasks); verdict, error identity, requests sent after a failure and settled outputs are judged.")
ASSUMPTIONS = ["at most 1 (thorough: 2) injected failures per execution", "a failing RPC fails when its completion is delivered"]

FAULTS = ("fail", "unavailable", "bug", "garbage", "failures")
R1 = [None, ("parent",), ("dep", "list"), ("dep", "outlist"), ("dep", "fut"), ("p", "out"), ("p", "res"), ("p", "urn"), ("p", "all"), ("p", "id"), ("p", "boom"), ("provider",), ("inside", "out"), ("inside", "urn")]
R2 = [None, ("parent",), ("dep", "list"), ("p", "out"), ("inside", "urn")]


def attach(nd, r, j, kinds):
    if r == ("p", "boom"):
        if nd["k"] == "comp":
            return False
        nd.setdefault("props", {})["z"] = ["boom", ["out", j] if kinds[j] != "comp" else ["urn", j]]
        return True
    return c05.attach(nd, r, j, kinds)


def grow(base, kinds_new, R):
    if any("inside" in n for n in base):
        return
    kinds = [n["k"] for n in base]
    for k in kinds_new:
        for combo in itertools.product(R, repeat=len(base)):
            nd = {"k": k}
            if all(attach(nd, r, j, kinds) for j, r in enumerate(combo)) and c05.valid(base + [nd]):
                yield base + [nd]


def variants(prog):
    """Stack-level bodies: nothing, exports, an unconsumed raising callback, a raise in the program itself."""
    yield {}
    last = len(prog) - 1
    nd = prog[last]
    if "inside" in nd:
        return
    yield {"export": {"x": ["out", last] if nd["k"] != "comp" else ["urn", last]}}
    yield {"boom": ["out", last] if nd["k"] not in ("comp",) else ["urn", last]}
    yield {"raise": True}
    yield {"nest": ["out", last] if nd["k"] not in ("comp",) else ["urn", last]}
    if nd["k"] == "comp":
        yield {"regout": ["urn", last]}
        yield {"regout": ["boom", ["urn", last]]}


def progset(g, th):
    if g == "g1":
        for k0 in c05.K0:
            yield [{"k": k0}]
    if g == "g2":
        for k0 in c05.K0:
            yield from grow([{"k": k0}], c05.K0, R1)
    if g == "g3":
        for k0 in c05.K0 if th else ("custom", "comp", "prov"):
            for b in grow([{"k": k0}], ["custom", "remote", "comp", "read"] if th else ["custom", "comp"], R1 if th else R2):
                yield from grow(b, ["custom", "remote"] if th else ["custom"], R1 if th else R2)


SHARDS = 64

# Work that starts late: each level is started by the one before, which does not wait for it.
LEVELS = ("apply", "all", "task", "res", "co", "secret", "shared")
# terminal -> whether the program is to fail
TERMS = {"reg": False, "own": False, "race": False, "read": False, "raise": True, "raise_task": True, "in": True, "nested_in": True, "dep_of_dep": True, "depends_on": True, "depends_on_fut": True, "id": True, "alias": True, "cb": True, "cb_all": True, "lifted": True, "call": True,
         "invoke": True, "regout": True, "remote": True, "co": True}


def late(word, term):
    """A program body: goes through the levels, then does what the terminal says."""

    def body(interp):
        import pulumi
        from pulumi.runtime import call, invoke

        keep = interp.keep = []
        loop = asyncio.get_event_loop()
        shared = pulumi.Output.from_input(0)

        def gone():
            f = loop.create_future()
            f.cancel()
            return f

        async def gone_co():
            await asyncio.sleep(0)
            await gone()

        def cancelled_cb(v):
            return gone_co()

        class Comp(pulumi.ComponentResource):
            def __init__(self, name):
                super().__init__("t:m:Comp", name, {})
                self.register_outputs({"o": gone()})

        def res(name, props, opts=None):
            return pulumi.CustomResource("t:m:C", name, {"o": None, **props}, opts)

        def end():
            if term == "reg":
                res("late", {})
            elif term == "read":
                res("late", {}, pulumi.ResourceOptions(id="x"))
            elif term == "own":
                async def forever():
                    await loop.create_future()

                async def canceller():
                    await asyncio.sleep(0)
                    keep[-2].cancel()
                    await asyncio.sleep(0)
                    res("late", {})
                keep.append(asyncio.ensure_future(forever()))
                keep.append(asyncio.ensure_future(canceller()))
            elif term == "race":
                async def forever():
                    await loop.create_future()

                async def race():
                    a, b = asyncio.ensure_future(forever()), asyncio.ensure_future(asyncio.sleep(0))
                    await asyncio.wait([a, b], return_when="FIRST_COMPLETED")
                    a.cancel()
                    return "v"
                res("late", {"p": race()})
            elif term == "raise":
                raise ValueError("user callback failed")
            elif term == "raise_task":
                async def bad():
                    await asyncio.sleep(0)
                    raise ValueError("user callback failed")
                asyncio.ensure_future(bad())
            elif term == "in":
                res("late", {"p": gone()})
            elif term == "co":
                res("late", {"p": gone_co()})
            elif term == "nested_in":
                res("late", {"p": {"q": [1, pulumi.Output.from_input([gone_co()])]}})
            elif term == "dep_of_dep":
                x = res("late", {"p": gone()})
                y = res("late", {"p": x.o})
                res("late", {}, pulumi.ResourceOptions(depends_on=[y]))
            elif term == "depends_on":
                res("late", {}, pulumi.ResourceOptions(depends_on=[gone()]))
            elif term == "depends_on_fut":
                res("late", {}, pulumi.ResourceOptions(depends_on=gone_co()))
            elif term == "id":
                res("late", {}, pulumi.ResourceOptions(id=gone()))
            elif term == "alias":
                res("late", {}, pulumi.ResourceOptions(aliases=[gone_co()]))
            elif term == "cb":
                res("late", {"p": pulumi.Output.from_input(1).apply(cancelled_cb)})
            elif term == "cb_all":
                res("late", {"p": pulumi.Output.all(1, pulumi.Output.from_input(1).apply(cancelled_cb)).apply(lambda x: x)})
            elif term == "lifted":
                res("late", {"p": pulumi.Output.secret(gone_co())["k"]})
            elif term == "call":
                res("late", {"p": call("t:m:k", {"x": gone()})})
            elif term == "invoke":
                invoke("t:m:f", {"x": gone()})
            elif term == "regout":
                Comp("c")
            elif term == "remote":
                pulumi.ComponentResource("t:m:Remote", "late", {"p": gone()}, remote=True)
            else:
                raise AssertionError(term)

        def go(n):
            if n == len(word):
                return end()
            k, nxt = word[n], (lambda *_: [go(n + 1), None][1])
            if k == "apply":
                pulumi.Output.from_input(1).apply(nxt)
            elif k == "all":
                pulumi.Output.all(1, pulumi.Output.from_input([1, [2]])).apply(nxt)
            elif k == "task":
                async def t():
                    await asyncio.sleep(0)
                    nxt()
                asyncio.ensure_future(t())
            elif k == "res":
                res(f"r{n}", {}).urn.apply(nxt)
            elif k == "co":
                async def v():
                    for _ in range(3):
                        await asyncio.sleep(0)
                pulumi.Output.from_input(v()).apply(nxt)
            elif k == "secret":
                pulumi.Output.secret({"a": {"b": 1}})["a"]["b"].apply(nxt)
            elif k == "shared":
                shared.apply(nxt)

        go(0)

    return body


def late_cases(th):
    for n in range(0, 6 if th else 5):
        for w in itertools.product(LEVELS, repeat=n):
            for t in TERMS if n < (4 if th else 3) else ("reg", "raise"):
                if n > (4 if th else 3) and any(a == b for a, b in zip(w, w[1:])) and "apply" not in w:
                    continue
                for dry in (False, True) if n < (5 if th else 3) else (False,):
                    yield list(w), t, dry


def run_late(word, term, dry, ch, faults):
    return progs.execute([], dry, ch, faults=faults, body=late(word, term))


def judge_late(word, term, dry, out):
    bad = []
    e = out.extra["engine"]
    # there is no answer to corrupt in RegisterResourceOutputs
    failed = [lb for lb, f in e.failed if not (f == "garbage" and lb.startswith("RegisterResourceOutputs"))]
    must_fail = TERMS[term] or bool(failed)
    # a task that the program starts itself and awaits nowhere is its own affair: it may be noticed or not
    if not failed and (term == "raise_task" and word or term == "raise" and word[-1:] == ["task"]):
        return [] if out.verdict in ("ok", "error") else [(f"late-verdict:{term}:{out.verdict}", f"program never terminates ({out.verdict})")]
    sent = [ev.key for ev in e.events]
    if out.verdict not in ("ok", "error"):
        return [(f"late-verdict:{term}:{out.verdict}", f"program never terminates ({out.verdict})")]
    if must_fail:
        if out.verdict == "ok":
            bad.append((f"late-lost:{term}", f"program reported success; failed requests: {failed}"))
        elif not isinstance(out.exc, Exception):
            bad.append((f"late-error:{term}", f"program ended with {out.exc!r}, which is no failure to those that handle failures"))
        if not failed and TERMS[term] and "late" in sent:
            bad.append((f"late-sent:{term}", "a resource was sent that depends on what failed"))
    else:
        if out.verdict != "ok":
            bad.append((f"late-spurious:{term}", f"program failed without any failure: {out.exc!r}"))
        elif sent.count("late") != 1 or any(sent.count(f"r{i}") != (k == "res") for i, k in enumerate(word)):
            bad.append((f"late-unsent:{term}", f"program reported success having sent {sent}"))
        if out.extra.get("pending_at_end"):
            bad.append((f"late-early:{term}", f"program ended with unanswered requests {out.extra['pending_at_end']}"))
    if not out.extra.get("drained", True):
        bad.append((f"late-drain:{term}", "event loop never quiesces after the end"))
    return bad


def items(tier, seed):
    return [{"g": "late", "shard": s, "tier": tier} for s in range(SHARDS)] + [{"g": g, "shard": s, "tier": tier} for g in ("g1", "g2", "g3") for s in range(SHARDS if g != "g1" else 6)]


def run_one(prog, dry, ch, faults, var, early):
    prog = [dict(n) for n in prog]
    if "regout" in var:
        prog[-1]["regout"] = var["regout"]

    def body(interp):
        if "boom" in var:
            interp.ref(["boom", var["boom"]])
        if "nest" in var:
            # the failing callback's output is created by another callback, which does not wait for it
            interp.p.Output.from_input(interp.ref(var["nest"])).apply(lambda _: [interp.ref(["boom", var["nest"]]), None][1])
        if "raise" in var:
            raise KeyError("program raised")

    return progs.execute(prog, dry, ch, early=early, faults=faults, export=var.get("export"), body=body), prog


def judge(prog, dry, var, out):
    bad = []
    e = out.extra["engine"]
    ref = progs.Ref(prog, dry)
    n = len(prog)
    lbl = [f"{c05.LBL.get(nd['k'], 'RegisterResource')} {progs.name(i)}" for i, nd in enumerate(prog)]
    # there is no answer to corrupt in RegisterResourceOutputs
    failed = {lb: f for lb, f in e.failed if not (f == "garbage" and lb.startswith("RegisterResourceOutputs"))}
    delivered = list(out.sched.delivered[: out.extra.get("delivered_at_end", len(out.sched.delivered))])
    ran = out.extra["interp"].ran if "interp" in out.extra else []
    desc = f"faults={e.failed} callback raised={bool(ran)}"
    if out.verdict not in ("ok", "error"):
        return [(f"verdict:{out.verdict}:{sorted(set(failed.values()))}", f"program never terminates ({out.verdict}); {desc}; completions={delivered}")]
    expected = []
    for f in failed.values():
        expected.append({"fail": "engine says no", "unavailable": "monitor", "bug": "transport bug", "garbage": "signature", "failures": "bad input"}[f])
    if ran:
        expected.append("user callback failed")
    if "raise" in var:
        expected.append("program raised")
    if out.verdict == "ok":
        if expected:
            bad.append((f"lost:{sorted(set(failed.values()))}:{bool(ran)}{':nested' if 'nest' in var else ''}", f"program reported success although {desc}"))
        if out.extra["pending_at_end"]:
            bad.append(("ended-early", f"program ended with unanswered requests {out.extra['pending_at_end']}"))
        uns = {k: v for k, v in out.extra["settled"].items() if v != "ok"}
        if uns and not expected:
            bad.append(("unsettled", f"unresolved outputs after success: {uns}"))
        sent = {ev.key for ev in e.events}
        for i in range(n):
            if ref.created(i) and progs.name(i) not in sent:
                bad.append(("unsent", f"{progs.name(i)} was never sent although the program succeeded"))
    else:
        if not expected:
            bad.append(("spurious", f"program failed without any failure: {out.exc!r}"))
        else:
            txt = f"{type(out.exc).__name__} {out.exc}"
            import pulumi

            ok = False
            for x in expected:
                if x == "monitor":
                    ok = ok or isinstance(out.exc, pulumi.RunError)
                else:
                    ok = ok or (x in txt and isinstance(out.exc, Exception))
            if not ok:
                bad.append((f"wrong-error:{sorted(set(failed.values()))}", f"program failed with {txt!r}, expected one of {expected}; {desc}"))
            if not out.extra["drained"]:
                bad.append(("drain", "event loop never quiesces after the failure"))
    # nothing may be sent on top of something that failed
    for ev in e.events:
        for i in range(n):
            if ev.key == progs.name(i):
                for j in ref.request(i)[1]:
                    if failed.get(lbl[j], "garbage") != "garbage" or lbl[j] not in ev.delivered:
                        bad.append((f"sent-after:{prog[i]['k']}", f"{ev.key} was sent although {lbl[j]} it depends on {'failed' if lbl[j] in failed else 'was not answered'}; {desc}"))
    # outputs of a failed resource never look resolved; outputs of one that was answered successfully are
    if out.verdict == "error" and "settled" in out.extra:
        for key, v in out.extra["settled"].items():
            i = int(key.split(".")[0][1:])
            if lbl[i] in failed and lbl[i] in out.sched.delivered and not key.endswith(".deps"):
                if v is None or (v == "ok" and not (failed[lbl[i]] == "garbage" and key.split(".")[1] in ("urn", "id"))):
                    bad.append((f"facet:{prog[i]['k']}:{failed[lbl[i]]}:{'pending' if v is None else v}", f"output {key} of the failed resource is {v or 'pending for ever'}; {desc}"))
    return bad


def work(st, item):
    th = item["tier"] == "thorough"
    k = -1
    if item["g"] == "late":
        for n, (word, term, dry) in enumerate(late_cases(th)):
            if n % SHARDS != item["shard"]:
                continue
            # faults come in where the chain is short
            budget = {"fault": 1, "order": 2} if len(word) < 3 and term in ("reg", "own", "race", "read") else {"order": 1 if len(word) < 4 else 0}
            faults = FAULTS if "fault" in budget else ()
            for ch, out in core.explore(lambda ch: run_late(word, term, dry, ch, faults), budget):
                bad = judge_late(word, term, dry, out)
                e = out.extra["engine"]
                order = tuple(out.sched.delivered)
                st.case(["late", word, term, dry, order, sorted(e.failed)], f"late {term} {out.verdict} {type(out.exc).__name__}", nontrivial=TERMS[term] or bool(e.failed), transitions=len(order), sample={"chain": word, "end": term, "faults": e.failed, "order": order})
                for key, m in bad:
                    st.add_violation(key, m + f"\nchain={word} end={term} preview={dry} completions={order}", {"late": [word, term, dry], "choices": ch.choices, "faults": list(faults)})
        return
    for prog in progset(item["g"], th):
        for var in variants(prog):
            if not th and (item["g"] == "g3" and var or item["g"] == "g2" and "nest" in var):
                continue
            k += 1
            if k % SHARDS != item["shard"]:
                continue
            for dry in (False, True) if item["g"] != "g3" or th else (False,):
                budget = {"fault": 2 if (th and item["g"] != "g3") else 1}
                early = item["g"] == "g1" or (th and item["g"] == "g2")
                if early:
                    budget["early"] = 1
                faults = FAULTS if item["g"] != "g3" or th else ("fail", "bug", "failures")
                for ch, (out, p2) in core.explore(lambda ch: run_one(prog, dry, ch, faults, var, early), budget):
                    bad = judge(p2, dry, var, out)
                    e = out.extra["engine"]
                    order = tuple(out.sched.delivered)
                    st.case([prog, dry, var, order, sorted(e.failed)], f"{item['g']} {out.verdict} {type(out.exc).__name__}", nontrivial=bool(e.failed), transitions=len(order),
                            sample={"program": prog, "faults": e.failed, "order": order})
                    case = {"prog": prog, "dry": dry, "choices": ch.choices, "faults": list(faults), "var": var, "early": early}
                    for key, m in bad:
                        st.add_violation(key, m + f"\nprogram={p2} {var} preview={dry} completions={order}", case)


def replay(case):
    if "late" in case:
        out = run_late(*case["late"], core.Chooser(case["choices"]), tuple(case["faults"]))
        return judge_late(*case["late"], out)
    out, p2 = run_one(case["prog"], case["dry"], core.Chooser(case["choices"]), tuple(case["faults"]), case["var"], case["early"])
    return judge(p2, case["dry"], case["var"], out)
