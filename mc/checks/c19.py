"""C19: event logs are delivered completely and once, however they are written."""
import itertools
import json
import os
import shutil
import tempfile

from .. import autosim, core, report

LEVEL = "model_checking"
RULE = ("On the real Stack.up/refresh/destroy/preview with a stand-in for the CLI that writes the event log in the given chunks: every single split of a log with line ends, long lines, escapes and 2-, 3- and 4-byte characters at any byte, "
        "every pair and triple of splits next to line ends and inside characters, every truncation of the log at any byte with the CLI failing or killed, a CLI that cannot be started or whose later commands fail, slow handlers, and pairs of operations one after another; "
        "for each, all interleavings of the CLI's steps, the watcher's reads, sleeps and checks, and the end of the operation (deviations bounded where stated, time virtual): the handler gets exactly the complete lines, decoded, once, in order and before the operation ends, "
        "the operation's result is the CLI's, no thread is left running and no file left over; and every event kind over its optional fields and values, decoded under the engine's field names; states = distinct (log, chunks, schedule, outcome).")
ASSUMPTIONS = ["the handler needs less than the five seconds the SDK grants the watcher after the operation, and does not raise", "the engine ends every event with a newline and writes the cancel event last (pkg/backend/display)",
               "reads of the log go through Python's file objects, waits through time.sleep and threading: other primitives are run unscheduled"]

OPS = ["up", "refresh", "destroy", "preview"]
MSG = "d\u00e9j\u00e0 \u20ac \U0001f600 \u0085 a\\nb\\r\\u2028 <\\u003e \x7f"


def meta(op="create", urn="urn:pulumi:s::p::t::n", **kw):
    st = {"type": "t", "urn": urn, "id": "", "parent": "", "inputs": {"k": [1, None]}, "outputs": None, "provider": ""}
    return {"op": op, "urn": urn, "type": "t", "old": None, "new": st, "provider": "", **kw}


EVENTS = {
    "prelude": {"preludeEvent": {"config": {"p:k": "\u00fc"}}},
    "diag": {"diagnosticEvent": {"message": MSG, "color": "raw", "severity": "info#err"}},
    "out": {"stdoutEvent": {"message": "m", "color": "never"}},
    "pre": {"resourcePreEvent": {"metadata": meta(), "planning": True}},
    "res": {"resOutputsEvent": {"metadata": meta("delete", "u2")}},
    "failed": {"resOpFailedEvent": {"metadata": meta("update"), "status": 0, "steps": 3}},
    "summary": {"summaryEvent": {"maybeCorrupt": False, "durationSeconds": 1, "resourceChanges": {"create": 2, "same": 1}, "PolicyPacks": None}},
    "policy": {"policyEvent": {"message": "m", "color": "", "policyName": "n", "policyPackName": "pp", "policyPackVersion": "1", "policyPackVersionTag": "v1", "enforcementLevel": "warning"}},
    "cancel": {"cancelEvent": {}},
}


def lines(names):
    out = []
    for i, n in enumerate(names):
        ev = {"sequence": i, "timestamp": 1600000000 + i, **EVENTS[n]}
        # as Go's encoder writes: no spaces, characters above ASCII as they are
        out.append(json.dumps(ev, ensure_ascii=False, separators=(",", ":")).encode() + b"\n")
    return out


HISTORY = [{"kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded", "endTime": "2022-01-01T00:00:01.000Z", "version": 3, "resourceChanges": {"same": 1}}]


class CLI:
    """Plays the command of the operation as told, and answers the others."""

    def __init__(self, spec):
        self.spec = spec
        self.written = []

    def __call__(self, call, sim):
        argv = call["argv"][1:]
        s = self.spec
        if argv[:1] == ["version"]:
            return [("out", b"v3.44.1\n"), ("exit", 0, b"")]
        if argv[:1] == [s["op"]]:
            if s.get("spawn"):
                return [("fail", FileNotFoundError(2, "No such file", "pulumi"))]
            steps = [("log", c) for c in s["chunks"] if c]
            if s.get("stdout"):
                steps.insert(len(steps) // 2, ("out", b"Updating\n"))
            return steps + [("exit", s.get("code", 0), b"boom" if s.get("code") else b"")]
        if argv[:2] == ["stack", "history"]:
            if s.get("history") == "fail":
                return [("exit", 255, b"nope")]
            return [("out", json.dumps(HISTORY).encode() + b"\n"), ("exit", 0, b"")]
        if argv[:2] == ["stack", "output"]:
            return [("out", b"{}\n"), ("exit", 0, b"")]
        return [("exit", 0, b"")]


class Boom(Exception):
    pass


def execute(spec, chooser):
    """One operation (or several, one after another); returns the observation."""
    from pulumi import automation as auto

    scratch = tempfile.mkdtemp(prefix="mc-c19-", dir=autosim.FAST)
    obs = {}
    try:
        work = os.path.join(scratch, "work")
        logs = os.path.join(scratch, "tmp")
        os.mkdir(work)
        os.mkdir(logs)
        cli = CLI(spec)
        sim = autosim.Sim(chooser, cli, logs)
        got = []

        def handler(event):
            if sim.active() is None and not spec.get("nosim"):
                obs["outside"] = True
            got.append(event)
            if spec.get("slow"):
                import time

                time.sleep(spec["slow"])

        def main():
            ws = auto.LocalWorkspace(work_dir=work)
            stack = auto.Stack.select("dev", ws)
            res = exc = None
            try:
                res = getattr(stack, spec["op"])(on_event=handler)
            except Exception as e:  # noqa
                exc = e
            obs["ngot"] = len(got)
            if spec.get("again"):
                cli.spec = dict(spec, **spec["again"])
                n = len(got)
                try:
                    getattr(stack, cli.spec["op"])(on_event=handler)
                except Exception as e:  # noqa
                    obs["exc2"] = type(e).__name__
                obs["second"] = len(got) - n
            return res, exc

        with core.watchdog(60):
            try:
                res, exc = sim.run(main)
            except (core.HarnessError, core.Livelock):
                if sim.deadlock:
                    obs["deadlock"] = True
                elif isinstance(sim.error, core.Livelock):
                    obs["livelock"] = True
                else:
                    raise
                res = exc = None
        obs["got"] = got
        obs["res"] = res
        obs["exc"] = exc
        obs["at_end"] = getattr(sim, "at_end", [])
        obs["late"] = sim.late
        obs["left"] = sorted(os.listdir(logs))
        obs["thread_errors"] = [repr(e)[:200] for e in sim.thread_errors]
        obs["forced"] = sim.forced
        obs["clock"] = sim.clock
        return obs
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- decoding: what an event must look like, from the field names of the engine (sdk/go/common/apitype/events.go)

SNAKE = {"cancelEvent": "cancel_event", "stdoutEvent": "stdout_event", "diagnosticEvent": "diagnostic_event", "preludeEvent": "prelude_event", "summaryEvent": "summary_event",
         "resourcePreEvent": "resource_pre_event", "resOutputsEvent": "res_outputs_event", "resOpFailedEvent": "res_op_failed_event", "policyEvent": "policy_event"}
STATE = {"type": ("type", ""), "urn": ("urn", ""), "custom": ("custom", None), "delete": ("delete", None), "id": ("id", ""), "parent": ("parent", ""), "protect": ("protect", None),
         "inputs": ("inputs", None), "outputs": ("outputs", None), "provider": ("provider", ""), "initErrors": ("init_errors", None)}
META = {"op": ("op", ""), "urn": ("urn", ""), "type": ("type", ""), "old": ("old", STATE), "new": ("new", STATE), "keys": ("keys", None), "diffs": ("diffs", None),
        "detailedDiff": ("detailed_diff", "diffs"), "logical": ("logical", None), "provider": ("provider", "")}
FIELDS = {
    "cancelEvent": {},
    "stdoutEvent": {"message": ("message", ""), "color": ("color", "")},
    "diagnosticEvent": {"urn": ("urn", None), "prefix": ("prefix", None), "message": ("message", ""), "color": ("color", ""), "severity": ("severity", ""), "streamID": ("stream_id", None), "ephemeral": ("ephemeral", None)},
    "preludeEvent": {"config": ("config", {})},
    "summaryEvent": {"maybeCorrupt": ("maybe_corrupt", False), "durationSeconds": ("duration_seconds", 0), "resourceChanges": ("resource_changes", {}), "PolicyPacks": ("policy_packs", {})},
    "resourcePreEvent": {"metadata": ("metadata", META), "planning": ("planning", None)},
    "resOutputsEvent": {"metadata": ("metadata", META), "planning": ("planning", None)},
    "resOpFailedEvent": {"metadata": ("metadata", META), "status": ("status", 0), "steps": ("steps", 0)},
    "policyEvent": {"resourceUrn": ("resource_urn", None), "message": ("message", ""), "color": ("color", ""), "policyName": ("policy_name", ""), "policyPackName": ("policy_pack_name", ""),
                    "policyPackVersion": ("policy_pack_version", ""), "policyPackVersionTag": ("policy_pack_version_tag", ""), "enforcementLevel": ("enforcement_level", "")},
}


def falsy(v):
    return v is None or v == "" or v == {} or v == [] or v is False or v == 0


def differs(data, fields, obj, path):
    if obj is None:
        return f"{path} is missing"
    for js, (attr, kind) in fields.items():
        if not hasattr(obj, attr):
            return f"{path}.{attr}: no such attribute"
        have = getattr(obj, attr)
        want = data.get(js)
        p = f"{path}.{attr}"
        if isinstance(kind, dict) and kind is STATE or kind is META:
            if want is None:
                if have is not None and kind is STATE:
                    return f"{p} is {have!r}, expected None"
                continue
            r = differs(want, kind, have, p)
            if r:
                return r
        elif kind == "diffs":
            if not want:
                if not falsy(have):
                    return f"{p} is {have!r}, expected nothing"
                continue
            if not isinstance(have, dict) or set(have) != set(want):
                return f"{p} is {have!r}, expected the keys {sorted(want)}"
            for k, d in want.items():
                r = differs(d, {"diffKind": ("diff_kind", ""), "inputDiff": ("input_diff", False)}, have[k], f"{p}[{k}]")
                if r:
                    return r
        elif falsy(want):
            if not falsy(have):
                return f"{p} is {have!r}, expected {want!r}"
        elif have != want or isinstance(want, bool) != isinstance(have, bool):
            return f"{p} is {have!r}, expected {want!r}"
    return None


def event_differs(data, ev):
    for f in ("sequence", "timestamp"):
        if getattr(ev, f, None) != data[f]:
            return f"{f} is {getattr(ev, f, None)!r}, expected {data[f]!r}"
    for js, attr in SNAKE.items():
        have = getattr(ev, attr, "(no such attribute)")
        if js in data:
            r = differs(data[js], FIELDS[js], have, attr)
            if r:
                return r
        elif have is not None:
            return f"{attr} is {have!r}, but the event has none"
    return None


# ---- the oracle of one operation


def judge(spec, obs):
    bad = []
    raw = b"".join(spec["chunks"]) if not spec.get("spawn") else b""
    want = [json.loads(l) for l in raw.split(b"\n")[:-1]]
    if obs.get("deadlock") or obs.get("livelock"):
        return ["the operation never ends"]
    exc = obs["exc"]
    fail = spec.get("code", 0) != 0 or spec.get("spawn")
    if fail and exc is None:
        bad.append("the operation succeeded although the CLI failed")
    if not fail and not spec.get("history") and exc is not None:
        bad.append(f"the operation failed although the CLI succeeded: {type(exc).__name__}: {exc}")
    if spec.get("history") and exc is None and spec["op"] != "preview":
        bad.append("the operation succeeded although the CLI failed to tell its history")
    if spec["op"] == "preview" and exc is None:
        sums = [w["summaryEvent"]["resourceChanges"] for w in want if "summaryEvent" in w]
        if obs["res"].change_summary != sums[0]:
            bad.append(f"preview reports {obs['res'].change_summary!r}, but the summary event says {sums[0]!r}")
    got = obs["got"]
    if spec.get("again"):
        want = want + [json.loads(l) for l in b"".join(spec["again"]["chunks"]).split(b"\n")[:-1]]
    elif obs["ngot"] != len(got):
        bad.append(f"{len(got) - obs['ngot']} events were delivered only after the operation had ended")
    if len(got) != len(want):
        bad.append(f"{len(got)} events delivered of {len(want)} written" + (f"; watcher: {obs['thread_errors'][0]}" if obs["thread_errors"] else ""))
    for w, g in zip(want, got):
        r = event_differs(w, g)
        if r:
            bad.append("event delivered wrongly: " + r)
            break
    if obs["at_end"]:
        bad.append("a thread was still running when the operation had ended" + (", and it never stopped" if obs["late"] else ""))
    if obs["left"]:
        bad.append(f"temporary files left: {[l.rsplit('-', 1)[0] for l in obs['left']]}")
    return bad


def label(spec):
    return {k: (v if k != "chunks" else [len(c) for c in v]) for k, v in spec.items() if k != "again"}


def enc(spec):
    d = dict(spec, chunks=[c.hex() for c in spec["chunks"]])
    if "again" in d:
        d["again"] = enc(d["again"])
    return d


def dec(d):
    s = dict(d, chunks=[bytes.fromhex(c) for c in d["chunks"]])
    if "again" in s:
        s["again"] = dec(s["again"])
    return s


def run_spec(st, spec, budget=None):
    n = 0
    for ch, obs in core.explore(lambda c: execute(spec, c), budget or {}):
        bad = judge(spec, obs)
        n += 1
        st.case([label(spec), ch.choices], "ok" if not bad else bad[0][:60], transitions=len(ch.trace) + 1)
        st.notes["forced switches"] += obs["forced"]
        for b in bad:
            st.add_violation(f"{spec['op']}:{b[:70]}", f"{b} [{label(spec)} schedule {ch.choices}]", {"spec": enc(spec), "choices": ch.choices})
    st.notes["schedules"] += n
    return n


def splits(data, points):
    pts = [0] + sorted(points) + [len(data)]
    return [data[a:b] for a, b in zip(pts, pts[1:])]


def interesting(data):
    """Line ends and their neighbours, the inside of characters."""
    pts = set()
    for i, b in enumerate(data):
        if b == 10:
            pts |= {i, i + 1, i + 2}
        if b >= 0xC0:
            pts |= {i, i + 1}
    return sorted(p for p in pts if 0 < p < len(data))


FULL = ["prelude", "diag", "summary", "cancel"]
SHORT = ["out", "summary", "cancel"]


def specs(tier):
    deep = tier == "thorough"
    full = b"".join(lines(FULL))
    short = b"".join(lines(SHORT))
    nocancel = b"".join(lines(["out", "diag"]))
    allev = b"".join(lines([n for n in EVENTS if n != "cancel"] + ["cancel"]))
    # one split anywhere
    near = set(interesting(full))
    for k in range(len(full) + 1):
        yield {"op": OPS[k % 4] if not deep else "up", "chunks": splits(full, [k] if 0 < k < len(full) else []), "_b": None if deep or k in near else 3}
        if deep:
            for op in OPS[1:]:
                yield {"op": op, "chunks": splits(full, [k] if 0 < k < len(full) else [])}
    # two splits at line ends and inside characters
    pts = interesting(full)
    for a, b in itertools.combinations(pts, 2):
        yield {"op": OPS[(a + b) % 4], "chunks": splits(full, [a, b]), "_b": 3 if not deep else None}
    pts = interesting(short)
    for t in itertools.combinations(pts, 3):
        yield {"op": OPS[sum(t) % 4], "chunks": splits(short, t), "_b": 2 if not deep else None}
    # the CLI fails or is killed, having written the log up to any byte
    for k in range(len(full) + 1):
        yield {"op": OPS[k % 4], "chunks": [full[:k]], "code": -9 if k % 2 else 255, "_b": None if deep or k in near else 3}
    for k in range(len(short) + 1):
        for op in OPS:
            yield {"op": op, "chunks": splits(short[:k], [k // 2] if k > 1 else []), "code": 255, "_b": 3 if not deep else None}
    for op in OPS:
        # no cancel event although successful, nothing written at all, all kinds of events
        ok = short[: -len(lines(["out", "summary", "cancel"])[2])]
        for ch in ([ok], splits(ok, [len(ok) - 1]), splits(ok, [len(ok) // 2])):
            yield {"op": op, "chunks": ch}
        yield {"op": op, "chunks": [], "code": 1}
        yield {"op": op, "chunks": [nocancel], "code": 255}
        yield {"op": op, "chunks": [allev]}
        yield {"op": op, "chunks": [l for l in allev.splitlines(True) if l][-4:] if False else splits(allev, [len(allev) // 3, 2 * len(allev) // 3]), "_b": 3}
        yield {"op": op, "chunks": [], "spawn": True}
        if op != "preview":
            yield {"op": op, "chunks": [short], "history": "fail"}
            yield {"op": op, "chunks": [short[:30]], "history": "fail"}
        yield {"op": op, "chunks": splits(short, [20]), "stdout": True}
        for slow in (0.3, 1.2):
            yield {"op": op, "chunks": [short], "slow": slow}
            yield {"op": op, "chunks": splits(short, [len(short) - 3]), "slow": slow, "_b": 3}
            yield {"op": op, "chunks": [nocancel], "slow": slow, "code": 255}
        for op2 in OPS:
            yield {"op": op, "chunks": [short[:-4]], "code": 255, "again": {"op": op2, "chunks": [short], "code": 0}, "_b": 2}
            yield {"op": op, "chunks": [short], "again": {"op": op2, "chunks": [short[:80]], "code": 9}, "_b": 2}
    # lines one by one
    for names in (FULL, ["pre", "res", "cancel"], ["failed", "diag", "summary", "cancel"]):
        ls = lines(names)
        for op in OPS[:3]:
            yield {"op": op, "chunks": ls, "_b": 2 if not deep else 4}


DECODE = 2


def items(tier, seed):
    sp = list(specs(tier))
    n = 48
    out = [["specs", k, n, tier] for k in range(n)]
    out += [["decode", e, tier] for e in FIELDS]
    return out


def variants(fields, values):
    for js in fields:
        for v in values[js]:
            yield js, v


STR = ["", "x", "\u00e9\n", None]


def state_values(full):
    base = {"type": "t", "urn": "u", "id": "i", "parent": "p", "provider": "pr", "inputs": {"a": 1}, "outputs": {"b": [2]}}
    yield dict(base)
    for js, vals in {"type": ["", "a:b"], "urn": ["", "u2"], "custom": [True, False], "delete": [True, False], "id": ["", "0"], "parent": [""], "protect": [True, False],
                     "inputs": [None, {}, {"x": {"y": [None, 1.5, "s"]}}], "outputs": [None, {}, {"x": True}], "provider": ["", "urn::id"], "initErrors": [[], ["a", "b"]]}.items():
        for v in vals:
            yield dict(base, **{js: v})
    opt = {"custom": True, "delete": True, "protect": True, "initErrors": ["e"]}
    for r in range(len(opt) + 1):
        for c in itertools.combinations(opt, r):
            yield dict(base, **{k: opt[k] for k in c})


def meta_values(full):
    ops = ["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard", "discard-replaced", "remove-pending-replace", "import", "import-replacement"]
    kinds = ["add", "add-replace", "delete", "delete-replace", "update", "update-replace"]
    base = {"op": "same", "urn": "u", "type": "t", "provider": "p", "old": None, "new": None}
    for o in ops:
        yield dict(base, op=o)
    opt = {"keys": ["k"], "diffs": ["d", "e"], "detailedDiff": {"a.b[0]": {"diffKind": "update", "inputDiff": True}}, "logical": True, "old": next(state_values(0)), "new": dict(next(state_values(0)), urn="u9")}
    for r in range(len(opt) + 1):
        for c in itertools.combinations(opt, r):
            yield dict(base, **{k: opt[k] for k in c})
    for k in kinds:
        for i in (True, False):
            yield dict(base, detailedDiff={"x": {"diffKind": k, "inputDiff": i}, "y": {"diffKind": "add", "inputDiff": not i}})
    for v in ({}, None):
        yield dict(base, detailedDiff=v)
    for k in ("keys", "diffs"):
        for v in ([], None):
            yield dict(base, **{k: v})
    for f in ("urn", "type", "provider"):
        yield dict(base, **{f: ""})
    for s in state_values(0):
        yield dict(base, old=s)
        yield dict(base, new=s)


def bodies(kind):
    f = FIELDS[kind]
    if kind == "cancelEvent":
        yield {}
        return
    if "metadata" in f:
        for m in meta_values(0):
            yield {"metadata": m, **({"status": 0, "steps": 0} if kind == "resOpFailedEvent" else {})}
        m = next(meta_values(0))
        for v in ([{"planning": True}, {"planning": False}] if "planning" in f else [{"status": a, "steps": b} for a in (0, 1, 3) for b in (0, 7)]):
            yield {"metadata": m, **v}
        return
    vals = {
        "message": ["", "m", MSG], "color": ["", "raw"], "severity": ["info", "info#err", "warning", "error"], "urn": [None, "u"], "prefix": [None, "p"], "streamID": [None, 1, 7], "ephemeral": [None, True],
        "config": [{}, {"a:b": "c", "d": ""}, None], "maybeCorrupt": [True, False], "durationSeconds": [0, 12], "resourceChanges": [{}, {"same": 1}, {"create": 2, "delete-replaced": 3}], "PolicyPacks": [None, {}, {"a": "v1"}],
        "resourceUrn": [None, "u"], "policyName": ["", "n"], "policyPackName": ["q"], "policyPackVersion": ["", "1"], "policyPackVersionTag": ["", "t"], "enforcementLevel": ["warning", "mandatory"],
    }
    omit = {"urn", "prefix", "streamID", "ephemeral", "resourceUrn"}  # left out when empty
    for combo in itertools.product(*(vals[k] for k in f)):
        yield {k: v for k, v in zip(f, combo) if not (k in omit and v is None)}


def decode(data):
    from pulumi.automation.events import EngineEvent

    try:
        return event_differs(data, EngineEvent.from_json(json.loads(json.dumps(data))))
    except Exception as e:  # noqa
        return f"{type(e).__name__}: {e}"


def work(st, item):
    if item[0] == "decode":
        for i, b in enumerate(bodies(item[1])):
            data = {"sequence": i % 3, "timestamp": 1600000000 * (i % 2), item[1]: b}
            r = decode(data)
            st.case(data, "decoded" if r is None else r[:60], transitions=report.nodes(data))
            if r:
                st.add_violation(f"decode:{item[1]}:{r[:60]}", f"{json.dumps(data)[:300]}: {r}", {"data": data})
        return
    _, k, n, tier = item
    for spec in itertools.islice(specs(tier), k, None, n):
        spec = dict(spec)
        b = spec.pop("_b", None)
        run_spec(st, spec, {"sched": b} if b else {})


def replay(case):
    if "data" in case:
        return decode(case["data"])
    spec = dec(case["spec"])
    obs = execute(spec, core.Chooser(case["choices"]))
    return judge(spec, obs)
