"""C18: dynamic providers: one call of the user's method per request, its result in the answer, nothing else changed."""
import asyncio
import base64
import copy
import enum
import importlib.util
import io
import itertools
import json
import os
import pickle
import sys
import types as pytypes
from concurrent import futures

from .. import core, engine as eng, report
from . import c18objs

LEVEL = "model_checking"
RULE = ("every request kind x every bag of property values from the wire alphabet x every result of the user's method (all combinations of given/empty/absent parts, the argument itself, exceptions) x every subset of implemented methods, "
        "and every history of up to 3 (thorough 4) requests mixing two providers, state-changing methods and failures, through the registered gRPC handlers with real (de)serialization; for the program side every provider object of an alphabet, "
        "every history of serializations incl. failing ones, and long runs; end to end, programs whose engine forwards to the servicer.")
ASSUMPTIONS = ["the gRPC transport between engine and provider process is replaced by direct calls of the registered handlers on serialized messages"]

METHODS = ("check", "diff", "create", "read", "update", "delete")
RPC = {"check": "Check", "diff": "Diff", "create": "Create", "read": "Read", "update": "Update", "delete": "Delete"}


# --- the provider process -------------------------------------------------------------------------


class Context:
    def __init__(self):
        self.code = self.details = None

    def set_code(self, c):
        self.code = c

    def set_details(self, d):
        self.details = d

    def abort(self, code, details):
        self.code, self.details = code, details
        raise RuntimeError("aborted")


class FakeServer:
    def __init__(self):
        self.methods = {}

    def add_generic_rpc_handlers(self, hs):
        for h in hs:
            self.generic = h

    def add_registered_method_handlers(self, service, handlers):
        for k, v in handlers.items():
            self.methods[k] = v

    def add_insecure_port(self, address):
        return 4711

    def start(self):
        pass

    def stop(self, *a):
        pass

    def wait_for_termination(self, *a):
        raise KeyboardInterrupt()

    def handler(self, m):
        import grpc

        full = f"/pulumirpc.ResourceProvider/{m}"

        class Det(grpc.HandlerCallDetails):
            method = full
            invocation_metadata = ()

        return self.generic.service(Det())

    def call(self, m, req):
        h = self.handler(m)
        ctx = Context()
        resp = h.unary_unary(h.request_deserializer(req.SerializeToString()), ctx)
        data = h.response_serializer(resp)
        return type(resp).FromString(data)


def start_process():
    """Runs the dynamic provider's main program up to the point where it serves."""
    import grpc
    import pulumi
    import time
    from concurrent import futures

    path = os.path.join(os.path.dirname(pulumi.__file__), "dynamic", "__main__.py")
    server = FakeServer()
    saved = grpc.server, time.sleep, sys.stdout

    class Out(io.TextIOBase):
        buffer = io.BytesIO()

        def write(self, s):
            return len(s)

    def stop(*a):
        raise KeyboardInterrupt()

    grpc.server, time.sleep, sys.stdout = (lambda *a, **k: server), stop, Out()
    try:
        spec = importlib.util.spec_from_file_location("mc_dynamic_main", path)
        m = importlib.util.module_from_spec(spec)
        src = spec.loader.get_source("mc_dynamic_main") if hasattr(spec.loader, "get_source") else open(path).read()
        m.__dict__["__name__"] = "__main__"
        m.__dict__["__package__"] = "pulumi.dynamic"
        try:
            exec(compile(src, path, "exec"), m.__dict__)
        except (KeyboardInterrupt, SystemExit):
            pass
    finally:
        grpc.server, time.sleep, sys.stdout = saved
    if not server.methods and not hasattr(server, "generic"):
        raise RuntimeError("the provider process registered no handlers")
    return server


_SERVER = None


def outside(m, req):
    """a call from code that runs in the program's event loop: the provider is another process"""
    with futures.ThreadPoolExecutor(max_workers=1) as ex:
        return ex.submit(server().call, m, req).result()


def server():
    global _SERVER
    if _SERVER is None:
        _SERVER = start_process()
    return _SERVER


# --- values -----------------------------------------------------------------------------------------
# wire alphabet for properties: JSON values, "$unk" = unknown sentinel, ["$asset"] etc. kept out of results


BAGS = [{}, {"a": "x"}, {"a": 1.5, "b": True, "c": [1.0, "y", [False]]}, {"n": {"m": {"k": "v"}, "l": [{"z": 0.0}]}}, {"a": "", "b": 0.0, "c": False, "e": [], "d": {}}, {"none": None, "k": "v"}, {"l": [None, "x"]}]
UNKBAGS = [{"a": "$unk"}, {"a": {"b": "$unk", "c": "x"}, "l": ["$unk", "y"]}]


def to_wire(v):
    if v == "$unk":
        return eng.UNKNOWN
    if isinstance(v, dict):
        return {k: to_wire(x) for k, x in v.items()}
    if isinstance(v, list):
        return [to_wire(x) for x in v]
    return v


def seen(v):
    """what a method should see of a wire value (nulls in objects are absent properties)"""
    if isinstance(v, dict):
        return {k: seen(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [seen(x) for x in v]
    return v


def show(v):
    if type(v).__name__ == "Unknown":
        return "$unk"
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items() if k != "__provider"}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    return v


RESULTS = [None, {}, {"r": "res", "n": {"x": [1.0, None]}}, "$arg"]


def as_result(r, arg):
    """wire rendering of a returned bag"""
    if r is None:
        return {}
    r = seen_arg(arg) if r == "$arg" else r
    return {k: v for k, v in r.items() if v is not None}


def seen_arg(arg):
    return seen(arg)


def behaviours(method):
    if method == "check":
        for inputs in RESULTS + ["$unkres", "$olds"]:
            for failures in ([], [["p", "bad"]], [["p", "bad"], ["q", "worse"]], None):
                yield {"inputs": inputs, "failures": failures}
    elif method == "diff":
        for changes in (None, True, False):
            for replaces in (None, [], ["a"], ["a", "b.c"]):
                for stables in (None, [], ["s", "t"]):
                    for dbr in (None, True, False):
                        yield {"changes": changes, "replaces": replaces, "stables": stables, "dbr": dbr}
    elif method == "create":
        for id_ in ("new-id", "x::y"):
            for outs in RESULTS:
                yield {"id": id_, "outs": outs}
    elif method == "read":
        for id_ in ("$id", "other", "", None):
            for outs in RESULTS:
                yield {"id": id_, "outs": outs}
    elif method == "update":
        for outs in RESULTS + ["$olds"]:
            yield {"outs": outs}
    elif method == "delete":
        yield {}
    yield {"raise": "boom"}


def request(method, blob, olds, news, rid="the-id", unkprov=False):
    from pulumi.runtime.proto import provider_pb2 as p

    w = lambda b, blb=blob: eng.to_struct({**to_wire(b), "__provider": blb})
    urn = "urn:pulumi:stk::proj::pulumi-python:dynamic:Resource::r"
    if unkprov:
        # the program's provider is not known yet: the one that made the current state decides
        wn = lambda b: w(b, eng.UNKNOWN)
        return p.CheckRequest(urn=urn, olds=w(olds), news=wn(news)) if method == "check" else p.DiffRequest(id=rid, urn=urn, olds=w(olds), news=wn(news))
    # unless the new provider is unknown, the one of the old state has no say
    if method == "check":
        return p.CheckRequest(urn=urn, olds=w(olds, c18objs.OLD_BLOB[0]) if olds is not None else eng.to_struct({}), news=w(news))
    if method == "diff":
        return p.DiffRequest(id=rid, urn=urn, olds=w(olds, c18objs.OLD_BLOB[0]), news=w(news))
    if method == "create":
        return p.CreateRequest(urn=urn, properties=w(news))
    if method == "read":
        return p.ReadRequest(id=rid, urn=urn, properties=w(news))
    if method == "update":
        return p.UpdateRequest(id=rid, urn=urn, olds=w(olds, c18objs.OLD_BLOB[0]), news=w(news))
    return p.DeleteRequest(id=rid, urn=urn, properties=w(news))


def answer(method, resp, blob):
    """canonical view of a response"""
    def bag(s):
        d = eng.from_struct(s)
        b = d.pop("__provider", None)
        return {"props": d, "provider": b == blob}

    if method == "check":
        return {**bag(resp.inputs), "failures": [[f.property, f.reason] for f in resp.failures]}
    if method == "diff":
        return {"changes": resp.changes, "replaces": list(resp.replaces), "stables": list(resp.stables), "dbr": resp.deleteBeforeReplace}
    if method == "create":
        return {**bag(resp.properties), "id": resp.id}
    if method == "read":
        return {**bag(resp.properties), "id": resp.id}
    if method == "update":
        return bag(resp.properties)
    return "empty"


def want_answer(method, beh, olds, news, implemented=True):
    if not implemented:
        if method == "check":
            beh = {"inputs": "$arg", "failures": []}
        elif method == "diff":
            beh = {"changes": None, "replaces": None, "stables": None, "dbr": None}
        elif method == "create":
            return "error"
        elif method == "read":
            beh = {"id": "$id", "outs": "$arg"}
        elif method == "update":
            beh = {"outs": None}
        else:
            beh = {}
    if "raise" in beh:
        return "error"
    if method == "check":
        r = {"u": "$unk", "v": 1.0} if beh["inputs"] == "$unkres" else seen(olds or {}) if beh["inputs"] == "$olds" else "$arg" if beh["inputs"] is None else beh["inputs"]
        return {"props": to_wire(as_result(r, news)), "provider": True, "failures": beh["failures"] or []}
    if method == "diff":
        return {"changes": {None: 0, False: 1, True: 2}[beh["changes"]], "replaces": beh["replaces"] or [], "stables": beh["stables"] or [], "dbr": bool(beh["dbr"])}
    if method == "create":
        return {"props": to_wire(as_result(beh["outs"], news)), "provider": True, "id": beh["id"]}
    if method == "read":
        return {"props": to_wire(as_result(beh["outs"], news)), "provider": True, "id": "the-id" if beh["id"] == "$id" else (beh["id"] or "")}
    if method == "update":
        return {"props": to_wire(as_result(seen(olds) if beh["outs"] == "$olds" else beh["outs"], news)), "provider": True}
    return "empty"


def want_call(method, olds, news, implemented=True):
    if not implemented:
        return []
    o, n = seen(olds or {}), seen(news)
    return [{"check": ["check", o, n], "diff": ["diff", "the-id", o, n], "create": ["create", n], "read": ["read", "the-id", n], "update": ["update", "the-id", o, n], "delete": ["delete", "the-id", n]}[method]]


def send(method, blob, olds, news, unkprov=False):
    del c18objs.LOG[:]
    try:
        r = server().call(RPC[method], request(method, blob, olds, news, unkprov=unkprov))
        got = answer(method, r, eng.UNKNOWN if unkprov else blob)
    except Exception as ex:  # noqa
        got = "error"
        if os.environ.get("MC_DEBUG"):
            import traceback
            traceback.print_exc()
    return got, [[x[0]] + [show(y) for y in x[1:]] for x in c18objs.LOG]


def blob_of(p):
    from pulumi.dynamic.dynamic import serialize_provider

    return serialize_provider(p)


# --- groups --------------------------------------------------------------------------------------------


def request_cases(tier):
    for m in METHODS:
        behs = list(behaviours(m))
        bags = BAGS + (UNKBAGS if m in ("check", "diff") else [])
        for i, news in enumerate(bags):
            oldss = [bags[(i + 1) % len(bags)], news] if m in ("diff", "update") else [None, bags[(i + 2) % len(BAGS)]] if m == "check" else [None]
            for olds in oldss:
                for b in behs:
                    for kind in ("ref", "val"):
                        yield {"m": m, "news": news, "olds": olds, "beh": b, "impl": list(METHODS), "kind": kind}
    for m in ("check", "diff"):
        for news in BAGS + UNKBAGS:
            for olds in (BAGS[0], BAGS[2], news):
                for b in behaviours(m):
                    yield {"m": m, "news": news, "olds": olds, "beh": b, "impl": list(METHODS), "kind": "val", "unkprov": True}
    for k in range(len(METHODS) + 1):
        for impl in itertools.combinations(METHODS, k):
            for m in METHODS:
                for news in BAGS[1:4]:
                    b = list(behaviours(m))[1] if m != "delete" else {}
                    yield {"m": m, "news": news, "olds": BAGS[1], "beh": b, "impl": list(impl), "kind": "val"}


def run_request(c):
    p = c18objs.make(c["kind"], c["impl"], {c["m"]: c["beh"]})
    return send(c["m"], blob_of(p), c["olds"], c["news"], c.get("unkprov", False))


def want_request(c):
    impl = c["m"] in c["impl"]
    return want_answer(c["m"], c["beh"], c["olds"], c["news"], impl), want_call(c["m"], c["olds"], c["news"], impl)


# histories: each step is (provider, method, behaviour); stateful providers count their calls in an attribute, which must start afresh
STEPS = [("A", "create", {"id": "new-id", "outs": "$arg"}), ("A", "check", {"inputs": "$arg", "failures": []}), ("B", "create", {"id": "b", "outs": None}), ("B", "update", {"outs": {"r": 1.0}}), ("A", "update", {"raise": "boom"}), ("A", "read", {"id": "$id", "outs": "$arg"}),
         ("B", "delete", {}), ("A", "diff", {"changes": True, "replaces": ["a"], "stables": ["s"], "dbr": True}), ("B", "diff", {"changes": None, "replaces": None, "stables": None, "dbr": None}), ("B", "read", {"id": "", "outs": None}), ("A", "check", {"raise": "x"}),
         ("A", "unimpl", {})]


def run_history(h):
    from pulumi.runtime.proto import provider_pb2 as p

    out = []
    for who, m, beh in h:
        if m == "unimpl":
            try:
                server().call("Invoke", p.InvokeRequest(tok="x"))
                out.append(["answered", []])
            except Exception:  # noqa
                out.append(["error", []])
            continue
        pr = c18objs.make("val", list(METHODS), {m: beh}, label=who, stateful=True)
        news = {"w": who, "i": {"x": 1.0}}
        got, log = send(m, blob_of(pr), {"w": "old" + who}, news)
        out.append([got, log, list(c18objs.COUNTS)])
    return out


def want_history(h):
    out = []
    for who, m, beh in h:
        if m == "unimpl":
            out.append(["error", []])
            continue
        news = {"w": who, "i": {"x": 1.0}}
        out.append([want_answer(m, beh, {"w": "old" + who}, news), want_call(m, {"w": "old" + who}, news), [who, 1]])
    return out


def histories(tier):
    n = 4 if tier == "thorough" else 3
    for k in range(2, n + 1):
        yield from itertools.product(range(len(STEPS)), repeat=k)


# --- serialization in the program ---------------------------------------------------------------------


def pickle_state():
    d = pickle._Pickler.__dict__
    return {"Pickler": pickle.Pickler, "dumps": pickle.dumps, "attrs": {k: d[k] for k in d}, "dispatch": dict(pickle._Pickler.dispatch)}


def same_state(a, b):
    diff = []
    if a["Pickler"] is not b["Pickler"] or a["dumps"] is not b["dumps"]:
        diff.append("pickle.Pickler")
    for k in set(a["attrs"]) | set(b["attrs"]):
        if a["attrs"].get(k) is not b["attrs"].get(k):
            diff.append(k)
    for k in set(a["dispatch"]) | set(b["dispatch"]):
        if a["dispatch"].get(k) is not b["dispatch"].get(k):
            diff.append(f"dispatch[{k}]")
    return diff


def ser_step(name):
    """one serialization by the program, compared with a reference; returns the problems"""
    bad = []
    obj = c18objs.OBJECTS[name]
    before = pickle_state()
    try:
        p = obj()
        blob = blob_of(p)
        if name in c18objs.UNPICKLABLE:
            bad.append("serialized an object that cannot be")
        else:
            q = _load(blob)
            for k, v in p.__dict__.items():
                if not c18objs.same(v, q.__dict__.get(k)):
                    bad.append(f"attribute {k}: {v!r} became {q.__dict__.get(k)!r}")
            if set(p.__dict__) != set(q.__dict__):
                bad.append("attributes differ")
            if p.probe() != q.probe():
                bad.append(f"methods differ: {p.probe()} {q.probe()}")
            if blob_of(obj()) != blob and name not in c18objs.UNORDERED:
                bad.append("not deterministic")
    except Exception as ex:  # noqa
        if name not in c18objs.UNPICKLABLE:
            bad.append(f"{type(ex).__name__}: {str(ex)[:100]}")
    bad += [f"pickle left changed: {x}" for x in same_state(before, pickle_state())]
    try:
        if pickle._loads(pickle._dumps({1: "a", "b": None, None: 2})) != {1: "a", "b": None, None: 2}:
            bad.append("the process's pickle no longer round-trips")
    except Exception as ex:  # noqa
        bad.append(f"the process's pickle no longer works: {type(ex).__name__}")
    return bad


def _load(blob):
    """what the provider process makes of a serialized provider"""
    import dill

    return dill.loads(base64.b64decode(blob))


def ser_run(h):
    saved = pickle_state()
    out = []
    for n in h:
        out.append(ser_step(n))
    # leave the process as it was found, so that cases stay independent
    pickle.Pickler = saved["Pickler"]
    for k, v in saved["attrs"].items():
        if pickle._Pickler.__dict__.get(k) is not v:
            setattr(pickle._Pickler, k, v)
    return out


# --- programs: dynamic resources end to end -----------------------------------------------------------


def programs(tier):
    for n, share, mod, dry, prov in itertools.product((1, 2, 3), (True, False), ("", "sub"), (False, True), ("val", "ref")):
        for bag in (BAGS[:4] if tier == "quick" else BAGS):
            yield {"n": n, "share": share, "mod": mod, "dry": dry, "prov": prov, "bag": bag}


def run_program(c):
    import pulumi
    from pulumi import dynamic

    problems, seen_types = [], []

    def reg(e, req, resp):
        w = eng.from_struct(req.object)
        blob = w.pop("__provider", None)
        if blob is None:
            problems.append("no provider sent")
            return resp
        seen_types.append([req.type, req.name, w])
        from pulumi.runtime.proto import provider_pb2 as p

        chk = outside("Check", p.CheckRequest(urn="u", olds=eng.to_struct({}), news=req.object))
        if c["dry"]:
            resp.object.Clear()
            resp.object.CopyFrom(chk.inputs)
            resp.id = ""
            return resp
        cr = outside("Create", p.CreateRequest(urn="u", properties=chk.inputs))
        resp.object.Clear()
        resp.object.CopyFrom(cr.properties)
        resp.id = cr.id
        return resp

    if c["mod"]:
        class R(dynamic.Resource, module=c["mod"], name="Thing"):
            pass
    else:
        class R(dynamic.Resource):
            pass

    got = []

    async def main(out):
        e = out.extra["engine"]
        e.out = out
        props = dict(copy.deepcopy(c["bag"]), made=None)
        keep = copy.deepcopy(props)
        prov = c18objs.make(c["prov"], ["check", "create"], {"check": {"inputs": "$arg", "failures": []}, "create": {"id": "dyn-id", "outs": {"made": "yes", "a": "out"}}})
        had = dict(prov.__dict__)
        for i in range(c["n"]):
            mine = props if c["share"] else copy.deepcopy(keep)
            try:
                r = R(prov, f"r{i}", mine)
                got.append([await r.id.future() if await r.id.is_known() else None, await r.__dict__["made"].future(), await r.__dict__["a"].future() if "a" in mine else None, sorted(k for k in r.__dict__ if k == "__provider")])
            except Exception as ex:  # noqa
                got.append(f"{type(ex).__name__}: {ex}")
            if mine != keep:
                problems.append(f"the caller's inputs became {sorted(mine)}")
        if prov.__dict__ != had:
            problems.append("the provider object changed")

    def setup(out):
        e = eng.FakeEngine(dry_run=c["dry"], respond={"RegisterResource": reg}, unknown_ids=c["dry"])
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=c["dry"])

    with c18objs.quiet():
        o = core.run_loop(main, core.Chooser(), settle=False, timeout=60, setup=setup, horizon=10**9)
    if o.verdict != "ok":
        problems.append(f"{o.verdict} {o.exc!r}")
    return {"resources": [g[:3] if isinstance(g, list) else g for g in got], "types": seen_types, "problems": sorted(set(problems))}


def want_program(c):
    t = "pulumi-python:dynamic" + ("/sub:Thing" if c["mod"] else ":Resource")
    a = seen(c["bag"]).get("a")
    one = ["dyn-id", "yes", "out" if "a" in c["bag"] else None] if not c["dry"] else [None, None, a]
    return {"resources": [one] * c["n"], "types": [[t, f"r{i}", seen(c["bag"])] for i in range(c["n"])], "problems": []}


def long_run(n):
    """one program creating many resources: the provider's serialization must not depend on how many came before"""
    first = None
    saved = pickle_state()
    try:
        for i in range(n):
            b = blob_of(c18objs.OBJECTS["plain"]())
            first = first or b
            if b != first:
                return f"serialization {i} differs from the first"
    except BaseException as ex:  # noqa
        return f"serialization {i} fails: {type(ex).__name__}"
    finally:
        pickle.Pickler = saved["Pickler"]
        for k, v in saved["attrs"].items():
            if pickle._Pickler.__dict__.get(k) is not v:
                setattr(pickle._Pickler, k, v)
    return None


# --- items ---------------------------------------------------------------------------------------------

SH = 8


def items(tier, seed):
    out = [{"g": "req", "tier": tier, "shard": s} for s in range(SH)]
    out += [{"g": "hist", "tier": tier, "shard": s} for s in range(SH)]
    out += [{"g": "ser", "tier": tier, "shard": s} for s in range(SH)]
    out += [{"g": "prog", "tier": tier, "shard": s} for s in range(SH)]
    out += [{"g": "long", "tier": tier}]
    return out


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True, default=str))


def one(st, g, c):
    if g == "req":
        want, got = norm(want_request(c)), norm(run_request(c))
    elif g == "hist":
        h = [STEPS[i] for i in c]
        want, got = norm(want_history(h)), norm(run_history(h))
    elif g == "ser":
        want, got = [[] for _ in c], norm(ser_run(c))
    elif g == "prog":
        want, got = norm(want_program(c)), norm(run_program(c))
    else:
        want, got = None, long_run(c)
    st.case([g, c], outcome=json.dumps(want)[:100], transitions=report.nodes(c), sample={"part": g, "case": c, "observed": got})
    if want != got:
        st.add_violation(f"dynamic:{g}:" + json.dumps(c, sort_keys=True), f"{g} {json.dumps(c)}: expected {json.dumps(want)}, observed {json.dumps(got)}", {"g": g, "c": c})


def work(st, item):
    g, tier = item["g"], item["tier"]
    if g == "long":
        return one(st, g, 3000)
    if g == "req":
        cs = request_cases(tier)
    elif g == "hist":
        cs = ([list(h) for h in histories(tier)])
    elif g == "ser":
        names = sorted(c18objs.OBJECTS)
        cs = [list(h) for k in (1, 2, 3 if tier == "thorough" else 2) for h in itertools.product(names, repeat=k)]
    else:
        cs = programs(tier)
    for i, c in enumerate(cs):
        if i % SH == item["shard"]:
            one(st, g, c)


def replay(case):
    from ..report import Stats

    s = Stats()
    one(s, case["g"], case["c"])
    return s.violations
