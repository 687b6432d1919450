"""C24: what mocks see and answer, and independence of tests."""
import asyncio
import contextlib
import contextvars
import io
import itertools
import json
import logging
import queue
import threading

from .. import core, server

LEVEL = "model_checking"
LEAKS = True
RULE = ("Every program of two operations (custom resource, component with a child, read, invoke) over a bounded set of input values (plain, nested, outputs, secret, unknown, asset, references to the first resource and its outputs) is run under "
        "pulumi.runtime.set_mocks and pulumi.runtime.test, in preview and update, with mocks that echo, add, omit, keep secret, give no id or fail, in executor threads that are new or reused, with all delivery orders of answers within a bound; then every history of up to three such tests "
        "(succeeding, failing in the test, in an apply, in the mock; with or without a new set_mocks, project, stack, mode). Calls seen by the mock, URNs, ids and outputs are compared with a reference; states = distinct (history, schedule, observations).")
ASSUMPTIONS = ["the calls that serve one answer are not preempted by those that serve another", "whether a mock sees a secret input wrapped or not is not part of the property"]

SIG = "4dabf18193072939515e22adb298388d"
UNK = "<unknown>"


class Workers:
    """Real threads that run executor jobs, one at a time."""

    def __init__(self, reuse):
        self.reuse = reuse
        self.idle = []
        self.all = []

    def __call__(self, func):
        if self.idle and self.reuse:
            q, _ = w = self.idle.pop()
        else:
            if len(self.all) > 30:
                raise core.Livelock("more than 30 requests inside each other")
            q = queue.Queue()
            t = threading.Thread(target=self._loop, args=(q,), daemon=True)
            w = (q, t)
            self.all.append(w)
            t.start()
        box = []
        ev = threading.Event()
        q.put((func, box, ev))
        if not ev.wait(30):
            raise core.HarnessError("executor job did not end")
        self.idle.append(w)
        if box[0][0]:
            return box[0][1]
        raise box[0][1]

    @staticmethod
    def _loop(q):
        while True:
            j = q.get()
            if j is None:
                return
            func, box, ev = j
            try:
                box.append((True, func()))
            except BaseException as e:  # noqa
                box.append((False, e))
            ev.set()

    def close(self):
        for q, _ in self.all:
            q.put(None)
        for _, t in self.all:
            t.join(5)


_cls = {}


def classes():
    if _cls:
        return _cls
    import pulumi

    class R(pulumi.CustomResource):
        def __init__(self, name, props=None, opts=None):
            super().__init__("mt:m:R", name, {"x": None, "extra": None, **(props or {})}, opts)

    class C(pulumi.ComponentResource):
        def __init__(self, name, props=None, opts=None):
            super().__init__("mt:m:C", name, {"x": None, **(props or {})}, opts)
            self.child = R(name + "-child", props, pulumi.ResourceOptions(parent=self))
            self.register_outputs({"c": self.child.id})

    class Mod(pulumi.runtime.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            return (R if typ.endswith(":R") else C)(name, {}, pulumi.ResourceOptions(urn=urn))

    pulumi.runtime.register_resource_module("mt", "m", Mod())
    _cls.update(R=R, C=C)
    return _cls


PLAIN = ("n", "s", "none", "l", "d", "o", "sec", "dsec", "asset", "unk", "t")
REFS = ("ref", "lref", "dref", "ax", "aid", "aurn", "sref")


def unknown():
    import pulumi

    f, k, s, d = (asyncio.Future() for _ in range(4))
    f.set_result(None), k.set_result(False), s.set_result(False), d.set_result(set())
    return pulumi.Output(d, f, k, s)


def value(v, a):
    import pulumi

    O = pulumi.Output
    return {
        "n": lambda: 1, "s": lambda: "s", "t": lambda: True, "none": lambda: None, "l": lambda: [1, "a", {"k": False}], "d": lambda: {"k": 1, "l": [True, "b"]},
        "o": lambda: O.from_input(2), "sec": lambda: O.secret("p"), "dsec": lambda: {"k": O.secret("p"), "j": 1}, "asset": lambda: pulumi.StringAsset("txt"),
        "unk": unknown, "ref": lambda: a, "lref": lambda: [a], "dref": lambda: {"k": a}, "ax": lambda: a.x, "aid": lambda: a.id, "aurn": lambda: a.urn, "sref": lambda: O.secret(a),
    }[v]()


def expect(v, A):
    """(value seen by the mock, known, secret); A: what is expected of the first resource."""
    if v in ("ref", "lref", "dref", "sref"):
        r = A["ref"]
        return {"ref": r, "lref": [r], "dref": {"k": r}, "sref": r}[v], True, v == "sref"
    if v == "ax":
        return A["x"]
    if v == "aid":
        return A["id"]
    if v == "aurn":
        return A["urn"], True, False
    return {
        "n": (1, True, False), "s": ("s", True, False), "t": (True, True, False), "none": (None, True, False), "l": ([1, "a", {"k": False}], True, False), "d": ({"k": 1, "l": [True, "b"]}, True, False),
        "o": (2, True, False), "sec": ("p", True, True), "dsec": ({"k": "p", "j": 1}, True, True), "asset": (["asset", "txt"], True, False), "unk": (UNK, False, False),
    }[v]


def norm(v):
    """A comparable form of a decoded value."""
    import pulumi
    from pulumi.output import Unknown

    if isinstance(v, Unknown):
        return UNK
    if isinstance(v, pulumi.Resource):
        return ["res", type(v).__name__, v._name]
    if isinstance(v, pulumi.StringAsset):
        return ["asset", v.text]
    if isinstance(v, dict):
        if SIG in v and "value" in v:
            return norm(v["value"])
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


class Boom(Exception):
    pass


def make_mocks(how, tag):
    import pulumi
    from pulumi.runtime import mocks as m

    class M(m.Mocks):
        def __init__(self):
            self.calls = []
            self.extra = []

        def new_resource(self, args):
            self.calls.append(["res", args.typ, args.name, norm(args.inputs), args.resource_id or "", [pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run()]])
            if how == "fail" or how == "failb" and args.name.startswith("b"):
                raise Boom(f"mock {args.name}")
            if how == "count":
                self.extra.append([args.provider or "", args.custom])
                n = len(self.extra)
                return f"{args.name}-{tag}-{n}", {"x": f"x{n}", f"only{n}": True}
            state = dict(args.inputs)
            rid = f"{args.name}-{tag}"
            if how == "extra":
                state["extra"] = f"e-{args.name}"
            elif how == "omit":
                state = {}
            elif how == "secret":
                state["extra"] = pulumi.Output.secret(f"e-{args.name}")
            elif how == "noid":
                rid = None if args.name == "a" else ""
            elif how == "nest":
                state["extra"] = {"l": [{"n": args.name}, args.inputs.get("x")]}
            elif how == "change":
                state["x"] = "changed"
            return rid, state

        def call(self, args):
            self.calls.append(["call", args.token, norm(args.args), [pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run()]])
            if how in ("fail", "failb"):
                raise Boom("mock call")
            if how == "invfail":
                return {}, [("x", "no good")]
            r = {"r": tag, "x": args.args.get("x")}
            return r if how != "extra" else (r, [])

    return M()


def featureless(mock):
    from pulumi.runtime import mocks as m

    class NoFeatures(m.MockMonitor):
        def SupportsFeature(self, request):
            return type("Resp", (), {"hasSupport": False})()

    return NoFeatures(mock)


HOWS = ("echo", "extra", "omit", "secret", "noid", "nest", "change", "fail", "failb", "invfail")


async def look(out):
    v = await out.future(with_unknowns=True)
    return [norm(v), await out.is_known(), await out.is_secret()]


def expectation(t, how, tag, env):
    """Calls and observations expected of a test that does not fail; calls is None where only a lower bound is known."""
    proj, stk, prev = env
    e = [proj, stk, bool(prev)]
    calls, obs = [], {}
    urn = lambda typ, name, chain: [proj, stk, typ, name]  # noqa

    def given(v, A):
        val, known, sec = expect(v, A)
        # there is nothing unknown in an update; a mock that leaves an id out gives none
        return (val, known, sec) if known or prev else (None, True, False)

    def resource(name, typ, v, A, id_=None):
        val, known, sec = given(v, A)
        seen = {} if val is None else {"x": val}
        calls.append(["res", typ, name, seen, id_ or "", e])
        if how == "omit":
            x = (UNK, False, False) if prev else (val, known, sec)
        elif how == "change":
            x = ("changed", True, False)
        elif how == "nofeat":
            x = (val, known, False)
        elif val is None:
            x = (UNK, False, False) if prev else (None, True, False)
        else:
            x = (val, known, sec)
        miss = [UNK, False, False] if prev else [None, True, False]
        extra = {"extra": [f"e-{name}", True, False], "secret": [f"e-{name}", True, True], "nest": [{"l": [{"n": name}, val]}, known, sec]}.get(how, miss)
        rid = id_ if id_ else "" if how == "noid" else f"{name}-{tag}"
        return {"x": x, "extra": extra, "id": (rid, True, False) if rid else (UNK, False, False), "urn": (["urn", proj, stk, typ, name]), "ref": ["res", "R", name]}

    A = resource("a", "mt:m:R", t["va"], None)
    res = {"a": A}
    k = t["k"]
    if k == "R":
        res["b"] = resource("b", "mt:m:R", t["vb"], A)
    elif k == "C":
        val, known, sec = given(t["vb"], A)
        calls.append(["res", "mt:m:C", "b", {} if val is None else {"x": val}, "", e])
        res["b-child"] = resource("b-child", "mt:m:R", t["vb"], A)
    elif k == "get":
        res["b"] = resource("b", "mt:m:R", t["vb"], A, "given")
    elif k == "inv":
        val, known, sec = given(t["vb"], A)
        calls.append(["call", "mt:m:f", {} if val is None else {"x": val}, e])
        obs["inv"] = [tag, None if val == UNK and not prev else val]
    return calls, obs, res


def plainify(x):
    return json.loads(json.dumps(x))


def again_program(t, obs):
    """The same resources registered and read again and again, one after the other, with answers that change, and looked up."""
    import pulumi

    cl = classes()

    def fn():
        async def go():
            prov = None
            urns = {}
            for i, (op, name) in enumerate(t["ops"]):
                if op == "look":
                    # what a reference to the resource gives
                    if name not in urns:
                        continue
                    r = await pulumi.Output.from_input(pulumi.runtime.invoke("pulumi:pulumi:getResource", {"urn": urns[name]}).value).future(with_unknowns=True)
                    obs[str(i)] = norm(r)
                    continue
                o = {"reg": {}, "get": {"id": "given"}, "imp": {"import_": "imported"}, "comp": {}, "prov": {}}[op]
                if op == "prov":
                    if prov is None:
                        prov = pulumi.ProviderResource("mt", "prov", {"k": "v"})
                    o["provider"] = prov
                c = cl["C"](name, {"x": i}) if op == "comp" else cl["R"](name, {"x": i}, pulumi.ResourceOptions(**o))
                urns[name] = await c.urn.future()
                if op == "comp":
                    urns[name + "-child"] = await c.child.urn.future()
                obs[str(i)] = await look((c.child if op == "comp" else c).x)

        return go()

    return fn


def again_expectation(t, tag, env):
    proj, stk, prev = env
    calls, obs, state = [], {}, {}
    n = 0

    def new(typ, name, inputs, rid, custom, prov, own=None):
        nonlocal n
        n += 1
        calls.append(["res", typ, name, inputs, rid, [proj, stk, bool(prev)], prov, custom])
        st = {"x": f"x{n}", f"only{n}": True}
        # a parent's name is part of the URN of its children, so a component and a resource of the same name are two
        state[name] = {"urn": ["urn", proj, stk, typ, name], "id": f"{name}-{tag}-{n}", "state": st}
        return st["x"]

    seen_prov = False
    for i, (op, name) in enumerate(t["ops"]):
        if op == "look":
            if name in state:
                obs[str(i)] = state[name]
            continue
        pv = ""
        if op == "prov":
            if not seen_prov:
                seen_prov = True
                new("pulumi:providers:mt", "prov", {"k": "v"}, "", True, "")
                pv0 = state.pop("prov")
                provid = pv0["id"]
            pv = [pv0["urn"], provid]
        if op == "comp":
            new("mt:m:C", name, {"x": i}, "", False, "")
            x = new("mt:m:R", name + "-child", {"x": i}, "", True, "")
        else:
            x = new("mt:m:R", name, {"x": i}, {"get": "given", "imp": "imported"}.get(op, ""), None if op == "get" else True, pv)
        obs[str(i)] = [x, True, False]
    return calls, obs


def check_again(t, tag, env, mock, obs, exc):
    if exc is not None:
        return [f"the test failed with {type(exc).__name__}: {exc}"]
    calls, eobs = again_expectation(t, tag, env)

    def urns(v):
        if isinstance(v, str) and v.startswith("urn:pulumi:"):
            p = v[len("urn:pulumi:"):].split("::")
            u = ["urn", p[1], p[0], p[2].split("$")[-1], p[3]]
            return [u, p[4]] if len(p) > 4 else u
        if isinstance(v, list):
            return [urns(x) for x in v]
        if isinstance(v, dict):
            return {k: urns(x) for k, x in v.items()}
        return v

    bad = []
    got = urns(plainify([c + x for c, x in zip(mock.calls, mock.extra)]))
    if got != plainify(calls):
        bad.append(f"the mock saw {got}, expected {calls}")
    g = urns(plainify(obs))
    for k in eobs:
        if g.get(k) != plainify(eobs[k]):
            bad.append(f"step {k} ({t['ops'][int(k)]}) saw {g.get(k)}, expected {eobs[k]}")
    return bad


def program(t, obs):
    import pulumi

    cl = classes()
    if t["k"] == "again":
        return again_program(t, obs)

    def fn():
        a = cl["R"]("a", {"x": value(t["va"], None)})
        outs = {}

        def watch(name, r):
            for p in ("x", "extra", "id", "urn"):
                outs[f"{name}.{p}"] = getattr(r, p)

        watch("a", a)
        k = t["k"]
        if k == "R":
            b = cl["R"]("b", {"x": value(t["vb"], a)})
            watch("b", b)
        elif k == "C":
            b = cl["C"]("b", {"x": value(t["vb"], a)})
            watch("b-child", b.child)
        elif k == "get":
            b = cl["R"]("b", {"x": value(t["vb"], a)}, pulumi.ResourceOptions(id="given"))
            watch("b", b)
        elif k == "inv":
            r = pulumi.runtime.invoke("mt:m:f", {"x": value(t["vb"], a)})
            obs["inv"] = [r.value.get("r"), norm(r.value.get("x"))]
        if t.get("end") == "raise":
            raise Boom("test")
        if t.get("end") == "apply":
            def bad(_):
                raise Boom("apply")
            return a.urn.apply(bad)

        async def collect():
            for n, o in outs.items():
                obs[n] = await look(o)
            if t["vb"] in ("ref", "sref") and k == "R" and t.get("deep"):
                d = await b.x.future(with_unknowns=True)
                if isinstance(d, pulumi.Resource):
                    obs["deep"] = [await look(d.x), await look(d.id), await look(d.urn)]

        if t.get("end") == "none":
            asyncio.ensure_future(collect())
            return None
        return collect()

    return fn


def check_test(t, how, tag, env, mock, obs, exc):
    bad = []
    if t["k"] == "again":
        return check_again(t, tag, env, mock, obs, exc)
    calls, eobs, res = expectation(t, how, tag, env)
    got = plainify(mock.calls)
    # URNs among the inputs: project, stack, type and name
    def urns(v):
        if isinstance(v, str) and v.startswith("urn:pulumi:"):
            p = v[len("urn:pulumi:"):].split("::")
            return ["urn", p[1], p[0], p[2].split("$")[-1], p[3]]
        if isinstance(v, list):
            return [urns(x) for x in v]
        if isinstance(v, dict):
            return {k: urns(x) for k, x in v.items()}
        return v

    got = urns(got)
    calls = plainify(calls)
    end = t.get("end")
    fails = how in ("fail", "failb") and (how == "fail" or t["k"] != "none") or how == "invfail" and t["k"] == "inv"
    if fails or end in ("raise", "apply"):
        if exc is None:
            bad.append(f"the test did not fail although {'the mock' if fails else 'it'} did")
        elif not any(s in str(exc) for s in (("mock", "no good", "invoke of") if fails else ()) + (("test", "apply") if end else ())):
            bad.append(f"the test failed with {exc!r} instead of the failure of the {'mock' if fails else 'test'}")
        for c in got:
            if c not in calls or got.count(c) > calls.count(c):
                bad.append(f"the mock saw {c}, expected among {calls}")
        if not fails:
            for c in calls:
                if c not in got:
                    bad.append(f"the mock did not see {c}, but {got}")
        return bad
    if exc is not None:
        return [f"the test failed with {type(exc).__name__}: {exc}"]
    for c in calls:
        if got.count(c) != calls.count(c):
            bad.append(f"the mock saw {c} {got.count(c)} times, calls: {got}")
    for c in got:
        if c not in calls:
            bad.append(f"the mock saw {c}, expected among {calls}")
    if "inv" in eobs and plainify(urns(obs.get("inv"))) != plainify(eobs["inv"]):
        bad.append(f"the invoke returned {obs.get('inv')}, expected {eobs['inv']}")
    for n, r in res.items():
        for p in ("x", "extra", "id"):
            w = plainify([r[p][0] if r[p][1] else UNK, r[p][1], r[p][2]])
            g = plainify(urns(obs.get(f"{n}.{p}")))
            if g is not None and not g[1]:
                g[0] = UNK
            if g != w:
                bad.append(f"{n}.{p} is {g}, expected {w}")
        g = urns(obs.get(f"{n}.urn"))
        if g != [r["urn"], True, False]:
            bad.append(f"{n}.urn is {g}, expected {r['urn']}")
    if t.get("deep") and t["vb"] in ("ref", "sref") and t["k"] == "R" and how == "echo":
        A = res["a"]
        d = plainify(urns(obs.get("deep")))
        x = A["x"]
        w = plainify([[x[0] if x[1] else UNK, x[1], x[2]], list(A["id"]), [A["urn"], True, False]])
        if d is not None:
            d[0][0] = d[0][0] if d[0][1] else UNK
        if d != w:
            bad.append(f"the reference received by b has x, id, urn {d}, expected {w}")
    return bad


def run_history(hist, chooser, reuse):
    import pulumi
    from pulumi.runtime import mocks as m

    classes()
    bad = []
    box = {}
    workers = Workers(reuse)

    def sched():
        main = threading.current_thread() is threading.main_thread()
        s = core.Scheduler(chooser if main else core.Chooser())
        s.executor = workers
        return s

    def inner():
        policy = server.Policy(sched)
        old = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(policy)
        core.clean_globals()
        core.reset_hash(1)
        loop = policy.new_event_loop()
        asyncio.set_event_loop(loop)
        mock = env = how = None
        log = logging.getLogger("mc.c24")
        log.propagate = False
        log.handlers = [logging.NullHandler()]
        try:
            with core.watchdog(60), contextlib.redirect_stderr(io.StringIO()):
                for i, t in enumerate(hist):
                    if t["set"] is not None:
                        env = t["set"]
                        how = t["how"]
                        mock = make_mocks(how, tag=f"m{i}")
                        tag = f"m{i}"
                        kw = {}
                        if env[0] != "project":
                            kw["project"] = env[0]
                        if env[1] != "stack":
                            kw["stack"] = env[1]
                        if how == "nofeat":
                            kw["monitor"] = featureless(mock)
                        m.set_mocks(mock, preview=env[2], logger=log, **kw)
                    del mock.calls[:]
                    obs = {}
                    exc = None
                    try:
                        m.test(program(t, obs))()
                    except (core.HarnessError, KeyboardInterrupt, core._CaseTimeout):
                        raise
                    except BaseException as e:  # noqa
                        exc = e
                    if isinstance(exc, (core.Deadlock, core.Livelock)):
                        bad.append(f"test {i}: {type(exc).__name__}")
                        break
                    b = check_test(t, how, tag, env, mock, obs, exc)
                    bad.extend(f"test {i}: {x}" for x in b)
                    box.setdefault("seen", []).append([type(exc).__name__ if exc else "ok", obs, len(mock.calls)])
                    if b:
                        break
                box["steps"] = sum(lp.sched.steps for lp in policy.loops)
        finally:
            server.close_loops(policy)
            asyncio.set_event_loop(None)
            asyncio.set_event_loop_policy(old)
            core.clean_globals()
            workers.close()

    contextvars.Context().run(inner)
    return bad, box


ENVS = [["project", "stack", False], ["project", "stack", True], ["p1", "s1", False], ["p1", "s1", True], ["p2", "s2", None]]


def singles(tier):
    th = tier == "thorough"
    for env in (ENVS[2], ENVS[3]) + ((ENVS[0], ENVS[1], ENVS[4]) if th else ()):
        for how in HOWS:
            for k in ("none", "R", "C", "get", "inv"):
                if how == "invfail" and k != "inv":
                    continue
                for va in PLAIN:
                    if va == "unk" and not env[2]:
                        continue
                    for vb in (PLAIN + REFS) if k != "none" else ("none",):
                        if vb == "unk" and not env[2]:
                            continue
                        if how == "noid" and not env[2]:
                            continue  # no resource is without an id after an update
                        if not th and va not in ("s", "sec", "unk", "d") and vb not in ("ax", "none"):
                            continue
                        yield {"set": env, "how": how, "k": k, "va": va, "vb": vb, "deep": 1}


TESTS = [
    {"k": "R", "va": "n", "vb": "ref"},
    {"k": "inv", "va": "sec", "vb": "ax"},
    {"k": "C", "va": "s", "vb": "ax"},
    {"k": "R", "va": "n", "vb": "s", "end": "raise"},
    {"k": "R", "va": "n", "vb": "aid", "end": "apply"},
    {"k": "get", "va": "d", "vb": "ax", "end": "none"},
]
SETS = [[ENVS[2], "echo"], [ENVS[3], "extra"], [ENVS[4], "fail"], [ENVS[0], "secret"], [ENVS[1], "echo"]]


def histories(tier):
    th = tier == "thorough"
    first = [dict(t, set=s[0], how=s[1], deep=1) for t in TESTS for s in SETS]
    nxt = first + [dict(t, set=None, how=None, deep=1) for t in TESTS]
    for a in first:
        for b in nxt:
            yield [a, b]
    f = {"k": "R", "va": "sec", "vb": "dsec"}
    feat = [dict(f, set=e, how=h, deep=1) for e in ENVS[2:4] for h in ("echo", "nofeat")]
    for a in feat:
        yield [a]
        for b in feat:
            yield [a, b]
            for c in feat:
                yield [a, b, c]
    n3 = TESTS if th else TESTS[:5:2]
    f3 = [dict(t, set=s[0], how=s[1], deep=1) for t in n3 for s in SETS[:4]]
    for a in f3:
        for b in f3[::2] + [dict(t, set=None, how=None, deep=1) for t in n3]:
            for c in f3[1::2] + [dict(t, set=None, how=None, deep=1) for t in n3]:
                yield [a, b, c]


def agains(tier):
    ops = [("reg", "a"), ("get", "a"), ("look", "a"), ("reg", "b"), ("prov", "a"), ("imp", "a"), ("comp", "a"), ("look", "a-child")]
    for n in range(2, 5 if tier == "thorough" else 4):
        for seq in itertools.product(ops, repeat=n):
            if seq[0][0] == "look" or seq[-1][0] != "look" and n > 2:
                continue
            if n == 4 and len(set(seq)) > 3:
                continue
            for env in ENVS[2:4]:
                yield [{"k": "again", "va": "", "vb": "", "set": env, "how": "count", "ops": [list(o) for o in seq]}]


def items(tier, seed):
    its = []
    a = list(agains(tier))
    for k in range(0, len(a), 30):
        its.append({"h": a[k : k + 30], "b": 0, "r": bool((k // 30) % 2)})
    s = list(singles(tier))
    for k in range(0, len(s), 40):
        its.append({"h": [[t] for t in s[k : k + 40]], "b": 2 if tier == "thorough" else 1, "r": bool((k // 40) % 2)})
    h = list(histories(tier))
    for k in range(0, len(h), 60):
        its.append({"h": h[k : k + 60], "b": 1 if tier == "thorough" else 0, "r": bool((k // 60) % 2)})
    return its


def work(st, it):
    for hist in it["h"]:
        for reuse in (it["r"],):
            for ch, (bad, box) in core.explore(lambda ch: run_history(hist, ch, reuse), {"order": it["b"], "*": it["b"]}):
                st.case([hist, reuse, ch.choices], json.dumps(box.get("seen"), default=str), transitions=box.get("steps", 0))
                if bad:
                    k = "/".join(f"{t['k']}.{t['va']}.{t['vb']}.{t.get('end', '')}" for t in hist)
                    st.add_violation(f"{k}:" + bad[0][:60], "; ".join(bad[:3]), {"h": hist, "r": reuse, "c": ch.choices})


def replay(case):
    return run_history(case["h"], core.Chooser(case["c"]), case["r"])[0]
