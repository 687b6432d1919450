"""C07: stack outputs are what the program exported."""
import asyncio
import itertools

from .. import core, engine as eng, progs
from ..engine import SIG, SECRET_SIG, UNKNOWN

LEVEL = "model_checking"
RULE = ("every export set of 1-3 values over the alphabet (primitives, containers, objects, outputs, secrets, awaitables, resources, shared references, self references through containers, objects, outputs and resources) "
        "x preview/update x completion order; the one RegisterResourceOutputs request of the stack is compared with a reference normaliser; nontrivial = contains a container, output or resource.")
ASSUMPTIONS = ["object keys are strings", "sets of at most one element", "a null member of an object is the same as an absent one"]

# name -> value; containers named here have identity and may refer to each other (and to themselves)
TABLE = {
    "l1": {"l": [{"v": 1.0}, {"v": "x"}]},
    "d1": {"d": {"a": {"v": 1.0}, "_p": {"v": "hidden"}}},
    "lrec": {"l": [{"v": "a"}, {"at": "lrec"}]},
    "drec": {"d": {"a": {"v": 1.0}, "self": {"at": "drec"}}},
    "orec": {"o": {"a": {"v": 2.0}, "me": {"at": "orec"}, "_priv": {"v": "no"}}},
    "m1": {"d": {"to": {"at": "m2"}, "n": {"v": 1.0}}},
    "m2": {"l": [{"at": "m1"}, {"v": "z"}]},
    "outrec": {"d": {"k": {"out": {"at": "outrec"}}, "v": {"v": "w"}}},
    "corec": {"l": [{"fut": {"at": "corec"}}, {"v": "w"}]},
    "o1": {"o": {"p": {"at": "l1"}, "q": {"at": "l1"}}},
}
DEEP = {"d": {"x": {"l": [{"d": {"y": {"l": [{"v": "deep"}]}}}]}}}


def alphabet():
    A = [{"v": None}, {"v": "s"}, {"v": ""}, {"v": 2.5}, {"v": True}, {"v": 0.0}, {"v": False}, {"l": []}, {"d": {}}, {"l": [{"v": None}]}, {"t": [{"v": 1.0}, {"v": "b"}]}, {"s": "e"},
         {"d": {"k": {"v": None}, "j": {"v": "1"}}}, {"d": {"_x": {"v": "h"}, "__y": {"v": "h"}, "z_": {"v": "kept"}}}, {"o": {"a": {"v": "1"}, "_b": {"v": "2"}}}, DEEP,
         {"out": {"v": "o"}}, {"out": {"d": {"_x": {"v": "h"}, "k": {"out": {"v": "n"}}}}}, {"out": {"out": {"l": [{"v": 1.0}]}}}, {"sec": {"v": "s3"}}, {"sec": {"d": {"k": {"v": "s4"}, "_h": {"v": "u"}}}},
         {"l": [{"sec": {"v": "in"}}, {"out": {"v": 1.0}}]}, {"co": {"v": "c"}}, {"co": {"o": {"a": {"v": "c"}}}}, {"fut": {"l": [{"v": "f"}]}}, {"out": {"v": None}},
         {"res": "r0"}, {"prop": "r0"}, {"id": "r0"}, {"urn": "r0"}, {"l": [{"res": "r0"}, {"res": "r0"}]}, {"d": {"a": {"prop": "r0"}, "b": {"res": "r0"}}}, {"out": {"res": "r0"}}, {"res": "c0"}, {"res": "ring"},
         {"o": {"r": {"res": "r0"}, "s": {"prop": "r0"}}}, {"secprop": "r0"}]
    A += [{"at": k} for k in TABLE]
    A += [{"l": [{"at": "l1"}, {"at": "l1"}]}, {"d": {"a": {"at": "d1"}, "b": {"l": [{"at": "d1"}]}}}, {"out": {"at": "l1"}}, {"out": {"at": "drec"}}, {"l": [{"at": "drec"}, {"at": "drec"}]}, {"d": {"a": {"out": {"at": "d1"}}, "b": {"at": "d1"}}}]
    return A


SMALL = [{"v": "s"}, {"at": "l1"}, {"at": "d1"}, {"at": "drec"}, {"out": {"at": "l1"}}, {"res": "r0"}, {"l": [{"at": "l1"}, {"res": "r0"}]}, {"d": {"a": {"out": {"at": "d1"}}}}, {"res": "ring"}, {"sec": {"v": "s3"}}, {"prop": "r0"}, {"co": {"at": "d1"}}]


class Model:
    def __init__(self, dry):
        self.dry = dry
        self.root = "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk"

    def urn(self, n):
        return eng.urn_of("t:m:Comp" if n == "c0" else "t:m:C", n, self.root)

    def resource(self, n):
        if n == "c0":
            d = {"urn": {"urn": n}, "id": {"v": None}, "tag": {"at": "d1"}}
        elif n == "ring":
            d = {"urn": {"urn": n}, "id": {"id": n}, "o": {"prop": n}, "peer": {"o": {"back": {"res": "ring"}, "n": {"v": 1.0}}}}
        else:
            d = {"urn": {"urn": n}, "id": {"id": n}, "o": {"prop": n}, "inp": {"v": "in"} if not self.dry else {"prop": n}}
        if self.dry:
            d["@isPulumiResource"] = {"v": True}
        return d

    def enc(self, v, path=()):
        (t, x), = v.items()
        if t == "v":
            return x
        if t == "at":
            if ("at", x) in path:
                return None
            return self.enc(TABLE[x], path + (("at", x),))
        if t in ("l", "t"):
            return [self.enc(y, path) for y in x]
        if t == "s":
            return [x]
        if t in ("d", "o"):
            r = {}
            for k, y in x.items():
                if not k.startswith("_"):
                    e = self.enc(y, path)
                    if e is not None:
                        r[k] = e
            return r
        if t in ("out", "co", "fut"):
            return self.enc(x, path)
        if t == "sec":
            return {SIG: SECRET_SIG, "value": self.enc(x, path)}
        if t == "secprop":
            return UNKNOWN if self.dry else {SIG: SECRET_SIG, "value": f"{x}-o"}
        if t == "prop":
            return UNKNOWN if self.dry else f"{x}-o"
        if t == "id":
            return UNKNOWN if self.dry else f"{x}-id"
        if t == "urn":
            return self.urn(x)
        if t == "res":
            if ("res", x) in path:
                return self.urn(x)
            r = {}
            for k, y in self.resource(x).items():
                e = self.enc(y, path + (("res", x),))
                if e is not None:
                    r[k] = e
            return r
        raise AssertionError(t)


class Obj:
    pass


class Build:
    def __init__(self):
        import pulumi

        self.p = pulumi
        self.named = {}
        self.res = {}

    def resource(self, n):
        p = self.p
        if n not in self.res:
            if n == "c0":
                r = p.ComponentResource("t:m:Comp", n)
                r.tag = self.val({"at": "d1"})
            else:
                r = p.CustomResource("t:m:C", n, {"o": None} if n == "ring" else {"o": None, "inp": "in"})
                if n == "ring":
                    r.peer = Obj()
                    r.peer.back = r
                    r.peer.n = 1
            self.res[n] = r
        return self.res[n]

    def val(self, v):
        p = self.p
        (t, x), = v.items()
        if t == "v":
            return x
        if t == "at":
            if x in self.named:
                return self.named[x]
            (t2, y), = TABLE[x].items()
            if t2 == "l":
                self.named[x] = r = []
                r.extend([self.val(z) for z in y])
            elif t2 == "d":
                self.named[x] = r = {}
                for k, z in y.items():
                    r[k] = self.val(z)
            else:
                self.named[x] = r = Obj()
                for k, z in y.items():
                    setattr(r, k, self.val(z))
            return r
        if t == "l":
            return [self.val(y) for y in x]
        if t == "t":
            return tuple(self.val(y) for y in x)
        if t == "s":
            return {x}
        if t == "d":
            return {k: self.val(y) for k, y in x.items()}
        if t == "o":
            r = Obj()
            for k, y in x.items():
                setattr(r, k, self.val(y))
            return r
        if t == "out":
            y = self.val(x)
            return p.Output.from_input("seed").apply(lambda _: y)
        if t == "sec":
            return p.Output.secret(self.val(x))
        if t == "secprop":
            return p.Output.secret(self.resource(x).o)
        if t == "co":
            y = self.val(x)

            async def co():
                await asyncio.sleep(0)
                return y

            return co()
        if t == "fut":
            f = asyncio.get_event_loop().create_future()
            f.set_result(self.val(x))
            return f
        if t == "res":
            return self.resource(x)
        if t == "prop":
            return self.resource(x).o
        if t == "id":
            return self.resource(x).id
        if t == "urn":
            return self.resource(x).urn
        raise AssertionError(t)


def respond(e, req, resp):
    if req.type != eng.ROOT_TYPE:
        if e.dry_run:
            # unknown as long as nothing is provisioned
            for k in list(resp.object.fields):
                del resp.object.fields[k]
        elif req.type == "t:m:C":
            resp.object.update({"o": f"{req.name}-o"})
    return resp


def execute(exports, dry, ch, fail=False):
    async def main(out):
        from pulumi.runtime import stack as rt_stack

        e = out.extra["engine"]
        e.out = out

        def func():
            import pulumi

            b = Build()
            for k, v in exports:
                pulumi.export(k, b.val(v))

        await rt_stack.run_in_stack(func)

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, chooser=ch, respond={"RegisterResource": respond})
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    return core.run_loop(main, ch, setup=setup)


def judge(exports, dry, out):
    if out.verdict != "ok":
        return [(f"verdict:{out.verdict}:{type(out.exc).__name__}", f"{out.verdict} {out.exc!r}")]
    m = Model(dry)
    evs = [ev for ev in out.extra["engine"].events if ev.kind == "RegisterResourceOutputs"]
    if len(evs) != 1 or evs[0].urn != m.root:
        return [("count", f"{len(evs)} RegisterResourceOutputs requests: {[e.urn for e in evs]}")]
    want = {}
    for k, v in exports:
        want[k] = m.enc(v)
    want = {k: v for k, v in want.items() if v is not None and not k.startswith("_")}
    got = eng.from_struct(evs[0].req.outputs)
    got, want = norm(got), norm(want)
    if got != want:
        d = [k for k in set(got) | set(want) if got.get(k, "absent") != want.get(k, "absent")]
        kinds = sorted({list(v)[0] for k, v in exports if k in d})
        return [(f"value:{kinds}", f"stack outputs differ at {d}: got { {k: got.get(k, 'absent') for k in d} }, expected { {k: want.get(k, 'absent') for k in d} }")]
    return []


def gen(tier):
    A = alphabet()
    for a in A:
        yield [("x", a)]
    for a in A:
        yield [("x", {"l": [a]})]
        yield [("x", {"d": {"k": a}})]
        yield [("x", {"o": {"k": a}})]
        yield [("x", {"out": a})]
        yield [("x", {"co": a})]
        yield [("x", {"t": [a, {"v": "t"}]})]
        yield [("_x", a), ("y", a)]
        yield [("x", {"v": "first"}), ("x", a)]
    B = A if tier == "thorough" else A
    for a in B:
        for b in B:
            yield [("x", a), ("y", b)]
    for a, b in itertools.product(B, repeat=2):
        yield [("x", {"l": [a, b]})]
        yield [("x", {"d": {"k": a, "j": {"out": b}}})]
    for a, b, c in itertools.product(A if tier == "thorough" else SMALL, repeat=3):
        yield [("x", a), ("y", b), ("z", c)]
        if tier != "thorough":
            yield [("x", {"out": {"l": [a, {"d": {"k": b}}]}}), ("z", c)]


def norm(w):
    if isinstance(w, dict):
        return {k: norm(x) for k, x in w.items() if x is not None}
    if isinstance(w, list):
        return [norm(x) for x in w]
    return w


SHARDS = 48


def items(tier, seed):
    return [{"shard": s, "tier": tier} for s in range(SHARDS)]


def work(st, item):
    k = 0
    for exports in gen(item["tier"]):
        k += 1
        if k % SHARDS != item["shard"]:
            continue
        for dry in (False, True):
            budget = {"order": 1} if len(exports) > 1 else {}
            for ch, out in core.explore(lambda ch: execute(exports, dry, ch), budget):
                st.case([exports, dry, out.sched.delivered], f"{out.verdict} {len(out.sched.delivered)}", nontrivial=any("v" not in v for _, v in exports), transitions=len(out.sched.delivered),
                        sample={"exports": exports, "preview": dry})
                for key, m in judge(exports, dry, out):
                    st.add_violation(key, m + f"\nexports={exports} preview={dry}", {"exports": exports, "dry": dry, "choices": ch.choices})


def replay(case):
    exports = [tuple(x) for x in case["exports"]]
    out = execute(exports, case["dry"], core.Chooser(case["choices"]))
    return judge(exports, case["dry"], out)
