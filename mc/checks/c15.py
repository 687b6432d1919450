"""C15: invokes at any point of a program, and nothing lost or run twice around them."""
import asyncio
import itertools
import json

from .. import core, engine as eng

LEVEL = "model_checking"
RULE = ("Every program of a bounded grammar that mixes synchronous and awaited invokes with resources, providers, components, callbacks (plain, asynchronous, nested), coroutines and tasks of the program - invokes at top level, in callbacks, in coroutines, in constructors, with arguments and providers that are still pending, caught and not caught - "
        "is run on the real SDK, with every order of answers within a bound, answers that arrive while the loop is busy, and failures of one invoke (engine error, reported failures, transport error). A reference interpreter of the program says what each place gets, which callbacks run and what is requested; each exactly once. "
        "Callbacks of answers delivered before an invoke's own must have run when it returns; states = distinct (program, schedule, faults, observations).")
ASSUMPTIONS = ["a program whose inner wait depends on what follows the outer one cannot progress with blocking waits and is not considered"]

#  statements:
#   ["res", name, arg, opts]        custom resource with input x; a callback on its output records it
#   ["prov", name]                  provider resource
#   ["comp", name, body]            component whose constructor runs the body
#   ["inv", tok, arg, opts]         invoke, result recorded;  opts: catch, prov, await (inside async bodies), dict, par
#   ["app", id, src, body]          Output.apply with a callback that runs the body
#   ["aapp", id, src, body]         the same with an asynchronous callback
#   ["co", id, body]                coroutine given to Output.from_input, result recorded
#   ["task", id, body]              asyncio.ensure_future of a coroutine
#   ["call", tok, arg]              runtime.call, its output recorded
#  arg/src: ["c", v] | ["o", resource] | ["oinv", id, resource, tok]  (output of a callback that invokes)


def current():
    try:
        return asyncio.current_task()
    except RuntimeError:
        return None


class Prog:
    def __init__(self, prog, out):
        import pulumi

        self.p = pulumi
        self.prog = prog
        self.out = out
        self.res = {}
        self.log = []  # (what, value)
        self.marks = []

    def rec(self, *a):
        self.log.append(a)

    def arg(self, a):
        if a[0] == "c":
            return a[1]
        if a[0] == "o":
            return self.res[a[1]].x
        if a[0] == "oinv":
            _, i, r, tok = a

            def cb(v):
                self.rec("cb", i, v)
                return self.invoke(["inv", tok, ["c", v], {}])

            return self.res[r].x.apply(cb)
        raise AssertionError(a)

    def invoke(self, s):
        _, tok, arg, o = s
        props = {"x": self.arg(arg)}
        opts = None
        if o.get("prov"):
            opts = self.p.InvokeOptions(provider=self.res[o["prov"]])
        elif o.get("par"):
            opts = self.p.InvokeOptions(parent=self.res[o["par"]])
        self.rec("enter", tok)
        cur = current()
        try:
            r = self.p.runtime.invoke(f"t:m:{tok}", props, opts)
        except Exception as e:  # noqa
            self.rec("exn", tok, str(e))
            if o.get("catch"):
                return "caught"
            raise
        finally:
            if current() is not cur:
                self.out.extra.setdefault("odd", []).append(f"the current task is {current()} after the invoke of {tok}, which {cur} made")
        v = r.value["x"]
        self.rec("ret", tok, v)
        self.marks.append((tok, list(self.out.sched.delivered), {a[1] for a in self.log if a[0] == "cb"}))
        return v

    def run(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        p = self.p
        k = s[0]
        if k in ("res", "prov"):
            name = s[1]
            o = dict(s[3]) if len(s) > 3 else {}
            opts = p.ResourceOptions(**{q: self.res[v] for q, v in o.items()})
            if k == "prov":
                r = p.ProviderResource("t", name, {}, opts)
            else:
                arg = self.arg(s[2])
                prog = self

                class R(p.CustomResource):
                    x: p.Output

                    def __init__(self, nm):
                        super().__init__("t:m:R", nm, {"x": arg}, opts)

                r = R(name)
                self.watch(name, r.x)
            self.res[name] = r
        elif k == "comp":
            me = self

            class C(p.ComponentResource):
                def __init__(self, nm):
                    super().__init__("t:m:C", nm, {}, None)
                    me.res[nm] = self
                    me.run(s[2])
                    self.register_outputs({})

            C(s[1])
        elif k == "inv":
            self.invoke(s)
        elif k == "app":
            def cb(v):
                self.rec("cb", s[1], v)
                self.run(s[3])
                return "done-" + s[1]

            self.watch("r-" + s[1], p.Output.from_input(self.arg(s[2])).apply(cb))
        elif k == "aapp":
            async def acb(v):
                self.rec("cb", s[1], v)
                await self.arun(s[3])
                return "done-" + s[1]

            self.watch("r-" + s[1], p.Output.from_input(self.arg(s[2])).apply(acb))
        elif k == "co":
            async def co():
                await self.arun(s[2])
                return "done-" + s[1]

            self.watch("r-" + s[1], p.Output.from_input(co()))
        elif k == "task":
            async def tk():
                await self.arun(s[2])
                self.rec("cb", "r-" + s[1], "done-" + s[1])

            self.out.extra.setdefault("keep", []).append(asyncio.ensure_future(tk()))
        elif k == "call":
            self.watch("r-" + s[1], p.runtime.call(f"t:m:{s[1]}", {"x": self.arg(s[2])}).apply(lambda d: d["x"]))
        elif k == "sleep":
            raise AssertionError("sleep outside of a coroutine")
        else:
            raise AssertionError(s)

    async def arun(self, body):
        for s in body:
            if s[0] == "sleep":
                await asyncio.sleep(0)
            elif s[0] == "await":
                v = await self.arg(s[2]).future()
                self.rec("cb", s[1], v)
            elif s[0] == "inv" and s[3].get("await"):
                props = {"x": self.arg(s[2])}
                self.rec("enter", s[1])
                r = await self.p.runtime.invoke(f"t:m:{s[1]}", props)
                self.rec("ret", s[1], r["x"])
            else:
                self.stmt(s)

    def watch(self, name, out):
        def cb(v):
            self.rec("cb", name, v)
            return v

        self.out.extra.setdefault("keep", []).append(out.apply(cb))


def value(prog_vals, a):
    if a[0] == "c":
        return a[1]
    if a[0] == "o":
        return prog_vals[a[1]]
    if a[0] == "oinv":
        return prog_vals[a[2]]


def reference(prog):
    """What a run without failures records (as a multiset) and requests."""
    vals, log, reqs = {}, [], []

    def arg(a):
        v = value(vals, a)
        if a[0] == "oinv":
            log.append(("cb", a[1], v))
            inv(["inv", a[3], ["c", v], {}])
        return v

    def inv(s):
        v = arg(s[2])
        log.append(("enter", s[1]))
        log.append(("ret", s[1], v))
        reqs.append(("Invoke", f"t:m:{s[1]}", v))

    def stmt(s):
        k = s[0]
        if k == "res":
            v = arg(s[2])
            vals[s[1]] = v
            log.append(("cb", s[1], v))
            reqs.append(("RegisterResource", s[1], v))
        elif k == "prov":
            reqs.append(("RegisterResource", s[1], None))
        elif k == "comp":
            reqs.append(("RegisterResource", s[1], None))
            for x in s[2]:
                stmt(x)
        elif k == "inv":
            inv(s)
        elif k in ("app", "aapp"):
            log.append(("cb", s[1], arg(s[2])))
            for x in s[3]:
                stmt(x)
            log.append(("cb", "r-" + s[1], "done-" + s[1]))
        elif k in ("co", "task"):
            for x in s[2]:
                stmt(x)
            log.append(("cb", "r-" + s[1], "done-" + s[1]))
        elif k == "await":
            log.append(("cb", s[1], arg(s[2])))
        elif k == "call":
            v = arg(s[2])
            log.append(("cb", "r-" + s[1], v))
            reqs.append(("Call", f"t:m:{s[1]}", v))

    for s in prog:
        stmt(s)
    return log, reqs


# ------------------------------------------------------------------------------------------ programs

R = ["res", "r", ["c", "v"]]
Q = ["res", "q", ["c", "w"]]


def inv(tok, arg=("c", "k"), **o):
    return ["inv", tok, list(arg), o]


def blocks(i, th=False):
    """Alternative statements of one position; i makes names unique."""
    o = ["o", "r"]
    t = f"f{i}"
    yield [inv(t)]
    yield [inv(t, o)]
    yield [inv(t, ["oinv", f"a{i}", "r", f"g{i}"])]
    yield [inv(t, prov="p")]
    yield [["app", f"a{i}", o, [inv(t)]]]
    yield [["app", f"a{i}", o, [inv(t), inv(f"g{i}", o)]]]
    yield [["app", f"a{i}", ["c", "z"], [inv(t, o)]]]
    yield [["app", f"a{i}", o, [["app", f"b{i}", o, [inv(t)]], inv(f"g{i}")]]]
    yield [["app", f"a{i}", o, [["res", f"n{i}", ["c", "n"]], inv(t, ["o", f"n{i}"])]]]
    yield [["aapp", f"a{i}", o, [inv(t), ["sleep"], inv(f"g{i}", **{"await": 1})]]]
    yield [["aapp", f"a{i}", o, [["await", f"w{i}", ["o", "r"]], inv(t, o)]]]
    yield [["co", f"c{i}", [inv(t, **{"await": 1}), ["res", f"n{i}", ["c", "n"]]]]]
    yield [["co", f"c{i}", [["await", f"w{i}", o], inv(t), inv(f"g{i}", o)]]]
    yield [["task", f"c{i}", [["sleep"], inv(t), ["sleep"], inv(f"g{i}", o)]]]
    yield [["comp", f"m{i}", [["res", f"n{i}", ["c", "n"], {"parent": f"m{i}"}], inv(t, ["o", f"n{i}"], par=f"m{i}")]]]
    yield [["res", f"n{i}", o], inv(t, ["o", f"n{i}"])]
    yield [["res", f"n{i}", ["oinv", f"a{i}", "r", t]]]
    yield [["call", f"l{i}", ["oinv", f"a{i}", "r", t]], inv(f"g{i}")]
    if th:
        yield [["app", f"a{i}", ["oinv", f"d{i}", "r", f"h{i}"], [inv(t, ["oinv", f"b{i}", "r", f"g{i}"])]]]
        yield [["app", f"a{i}", o, [["co", f"c{i}", [inv(t)]], ["task", f"k{i}", [inv(f"g{i}")]], inv(f"h{i}")]]]
        yield [["co", f"c{i}", [["app", f"a{i}", o, [inv(t)]], inv(f"g{i}", **{"await": 1}), ["app", f"b{i}", o, [inv(f"h{i}")]]]]]


def programs(tier):
    th = tier == "thorough"
    head = [["prov", "p"], R]
    b1, b2, b3 = (list(blocks(i, th)) for i in range(3))
    for a in b1:
        yield 1, head + a
        yield 1, [["prov", "p"], R, Q] + a + [["res", "z", ["o", "q"]]]
    for a, b in itertools.product(b1, b2):
        yield 2, head + a + b
    if th:
        for a, b, c in itertools.product(b1[:18], b2[:18], b3[4:16:2]):
            yield 3, head + a + b + c


FAULTS = ("fail", "failures", "bug")


def execute(prog, chooser, early, fault, dry=False):
    async def main(out):
        from pulumi.runtime import stack as rt_stack

        e = out.extra["engine"]
        e.out = out
        pr = out.extra["prog"] = Prog(prog, out)
        await rt_stack.run_in_stack(lambda: pr.run(prog))

    def setup(out):
        e = eng.FakeEngine(dry_run=dry)
        out.extra["engine"] = e

        def enter(label):
            if fault and label == f"Invoke t:m:{fault[0]}":
                e.failed.append(label)
                if fault[1] == "fail":
                    raise core.FakeRpcError(eng.grpc.StatusCode.UNKNOWN, "engine says no")
                if fault[1] == "bug":
                    raise RuntimeError("transport bug")
                return fault[1]
            return None

        e._fault = enter
        core.fresh_settings(e, None, dry_run=dry)

    return core.run_loop(main, chooser, early=early, settle=True, setup=setup)


def toks(prog):
    def walk(s):
        if isinstance(s, list):
            if s and s[0] == "inv":
                yield s[1]
            if s and s[0] == "oinv":
                yield s[3]
            for x in s:
                yield from walk(x)

    return sorted(set(walk(prog)))


def set_catch(prog, tok):
    prog = json.loads(json.dumps(prog))

    def walk(s):
        if isinstance(s, list):
            if s and s[0] == "inv" and s[1] == tok and not s[3].get("await"):
                s[3]["catch"] = 1
                return True
            return any([walk(x) for x in s])
        return False

    return prog if walk(prog) else None


def judge(prog, out, fault, catch, early):
    bad = []
    e = out.extra["engine"]
    pr = out.extra["prog"]
    log = [tuple(x) for x in pr.log]
    want, reqs = reference(prog)
    bad.extend(out.extra.get("odd", []))
    for u in out.unhandled:
        if "xception in callback" in u.get("message", ""):
            bad.append(f"the event loop reports {u['message'][:60]}: {u.get('exception')!r}")
    if out.verdict not in ("ok", "error"):
        return [f"{out.verdict}: the program never ends; recorded {log}"]
    hit = bool(e.failed)
    if fault and not hit:
        return ["no invoke of " + fault[0] + " was made"] if out.verdict == "ok" else []
    keyed = lambda xs: sorted(map(repr, xs))  # noqa
    if hit:
        tok = fault[0]
        ex = [x for x in log if x[0] == "exn" and x[1] == tok]
        ret = [x for x in log if x[0] == "ret" and x[1] == tok]
        if ret:
            bad.append(f"the invoke of {tok} returned {ret} although it failed")
        msg = {"fail": "engine says no", "failures": "bad input", "bug": "transport bug"}[fault[1]]
        if catch and len(ex) != 1:
            bad.append(f"the failure of {tok} was raised {len(ex)} times where it was made")
        if ex and msg not in ex[0][2]:
            bad.append(f"the invoke of {tok} raised {ex[0][2]!r} instead of its failure")
        if catch and fault[1] != "bug":
            if out.verdict != "ok":
                bad.append(f"the program failed although the failure of {tok} was caught: {out.exc!r}")
            # all that is not about the failed invoke is as without the failure
            skip = lambda x: x[0] in ("ret", "exn") and x[1] == tok  # noqa
            w = keyed(x for x in want if not skip(x))
            g = keyed(x for x in log if not skip(x))
            if w != g and not any(a[0] == "oinv" and a[3] == tok for a in args_of(prog)):
                bad.append(f"recorded {diff(g, w)}")
        elif out.verdict == "ok":
            # a callback made inside a callback that does not wait for it: C06 judges whether its failure reaches the program
            if not nested_app(prog, tok):
                bad.append(f"the program succeeded although the invoke of {tok} failed and nothing caught it")
        else:
            if msg not in str(out.exc):
                bad.append(f"the program failed with {out.exc!r} instead of {msg!r}")
        for x in log:
            if x[0] != "exn" and log.count(x) > want.count(x):
                bad.append(f"{x} happened {log.count(x)} times instead of {want.count(x)}")
        return bad
    if out.verdict != "ok":
        return bad + [f"the program failed with {out.exc!r}"]
    if keyed(log) != keyed(want):
        bad.append(f"recorded {diff(keyed(log), keyed(want))}")
    got = []
    for ev in e.events:
        if ev.kind in ("RegisterResource", "Invoke", "Call") and ev.key != "proj-stk":
            o = eng.from_struct(ev.req.object if ev.kind == "RegisterResource" else ev.req.args)
            v = o.get("x")
            if isinstance(v, dict) and v.get(eng.SIG) == eng.OUTPUT_SIG:
                v = v.get("value")
            got.append((ev.kind, ev.key, v))
            if ev.kind == "Invoke":
                s = [a for a in stmts_of(prog) if a[0] == "inv" and f"t:m:{a[1]}" == ev.key]
                pv = s and s[0][3].get("prov")
                if bool(ev.req.provider) != bool(pv) or pv and ev.req.provider != f"urn:pulumi:stk::proj::pulumi:providers:t::{pv}::{pv}-id":
                    bad.append(f"the invoke of {ev.key} was sent to provider {ev.req.provider!r}")
    if keyed(got) != keyed(reqs):
        bad.append(f"requested {diff(keyed(got), keyed(reqs))}")
    if out.extra["pending_at_end"]:
        bad.append(f"the program ended with unanswered requests {out.extra['pending_at_end']}")
    if not early:
        top = {x[1] for x in prog if x[0] == "res"}
        for tok, delivered, ran in pr.marks:
            mine = f"Invoke t:m:{tok}"
            if mine not in delivered:
                bad.append(f"the invoke of {tok} returned before its answer")
                continue
            for d in delivered[: delivered.index(mine)]:
                if d.startswith("RegisterResource ") and d.split(" ")[1] in top and d.split(" ")[1] not in ran:
                    bad.append(f"the callback of {d.split(' ')[1]}, answered before the invoke of {tok}, had not run when it returned")
    return bad


def diff(g, w):
    g, w = list(g), list(w)
    for x in list(g):
        if x in w:
            g.remove(x)
            w.remove(x)
    return f"{g} too many, {w} missing"


def stmts_of(s):
    if isinstance(s, list):
        if s and isinstance(s[0], str) and s[0] in ("inv", "res", "app", "aapp", "co", "task", "comp", "call", "prov"):
            yield s
        for x in s:
            yield from stmts_of(x)


def nested_app(prog, tok):
    return any(s[0] in ("app", "aapp") and any(t[0] in ("app", "aapp", "co", "task") and tok in toks(t[2:]) for t in s[3]) or s[0] == "co" and any(t[0] in ("app", "aapp") and tok in toks(t[2:]) for t in s[2]) for s in prog)


def args_of(s):
    if isinstance(s, list):
        if len(s) == 4 and s[0] == "oinv":
            yield s
        for x in s:
            yield from args_of(x)


def items(tier, seed):
    th = tier == "thorough"
    its = []
    ps = list(programs(tier))
    for n, p in ps:
        d = {1: 5 if th else 4, 2: 3 if th else 2, 3: 2}[n]
        its.append({"p": p, "early": False, "b": {"order": d, "*": d}, "f": None, "c": 0})
        if n <= 2 and (th or n == 1):
            its.append({"p": p, "early": True, "b": {"order": 1, "early": 2, "*": 2} if th or n == 1 and len(p) <= 4 else {"order": 1, "early": 1, "*": 1}, "f": None, "c": 0})
        elif not th and n == 2:
            its.append({"p": p, "early": True, "b": {"order": 0, "early": 1, "*": 1}, "f": None, "c": 0})
        if n <= (2 if th else 1):
            for tok in toks(p):
                for f in FAULTS:
                    its.append({"p": p, "early": False, "b": {"order": 1, "*": 1}, "f": [tok, f], "c": 0})
                    if set_catch(p, tok):
                        its.append({"p": p, "early": False, "b": {"order": 1, "*": 1}, "f": [tok, f], "c": 1})
    k = 40
    return [{"its": its[i : i + k]} for i in range(0, len(its), k)]


def work(st, item):
    for it in item["its"]:
        prog = set_catch(it["p"], it["f"][0]) if it["c"] else it["p"]
        for ch, out in core.explore(lambda ch: execute(prog, ch, it["early"], it["f"]), it["b"]):
            bad = judge(prog, out, it["f"], it["c"], it["early"])
            st.case([prog, it["early"], it["f"], it["c"], ch.choices], json.dumps([out.verdict, len(out.extra["prog"].log)]), transitions=out.sched.steps)
            if bad:
                st.add_violation(f"{it['f']}:{it['c']}:{bad[0][:50]}:{json.dumps(prog[2:])[:120]}", "; ".join(bad[:3]) + f"; program {json.dumps(prog)}; answers {out.sched.delivered}", {"it": it, "ch": ch.choices})


def replay(case):
    it = case["it"]
    prog = set_catch(it["p"], it["f"][0]) if it["c"] else it["p"]
    out = execute(prog, core.Chooser(case["ch"]), it["early"], it["f"])
    return judge(prog, out, it["f"], it["c"], it["early"])
