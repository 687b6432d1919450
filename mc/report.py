"""Evidence, violations, known findings, parallel map."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def nodes(o):
    """Number of nodes of a JSON-like value: the encoding/decoding steps it takes."""
    if isinstance(o, dict):
        return 1 + sum(nodes(v) for v in o.values())
    if isinstance(o, (list, tuple)):
        return 1 + sum(nodes(v) for v in o)
    return 1


def known(key):
    return any(k.get("key") == key for k in known_findings())


class Violation(dict):
    """{'key': stable identification, 'msg': text, 'case': json replay data}"""


def viol(key, msg, case):
    return Violation(key=key, msg=msg, case=case)


class Enough(BaseException):
    """What has been found answers the question, and finding more takes long."""


class Stats:
    """Mergeable counters of one run."""

    def __init__(self):
        self.started = time.monotonic()
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.caps = []
        self.notes = collections.Counter()

    @staticmethod
    def h(obj):
        return hashlib.blake2b(
            json.dumps(obj, sort_keys=True, default=str).encode(), digest_size=8
        ).digest()

    def state(self, obj):
        self.states.add(self.h(obj))

    def case(self, obj, outcome=None, nontrivial=True, transitions=1, sample=None):
        self.evaluations += 1
        self.transitions += transitions
        hh = self.h([obj, outcome])
        self.states.add(hh)
        if nontrivial:
            self.nontrivial.add(hh)
        if outcome is not None:
            self.outcomes[str(outcome)[:80]] += 1
        if len(self.samples) < 3:
            self.samples.append(sample if sample is not None else obj)

    def add_violation(self, key, msg, case):
        if len(self.violations) < 40:
            self.violations.append(viol(key, msg, case))
        if time.monotonic() - self.started > 60 and not known(key):
            raise Enough()

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes.update(o.outcomes)
        self.nontrivial |= o.nontrivial
        self.samples.extend(o.samples[: max(0, 6 - len(self.samples))])
        self.violations.extend(o.violations)
        self.caps.extend(o.caps)
        self.notes.update(o.notes)


def _worker(args):
    modname, fname, item = args
    st = Stats()
    try:
        mod = importlib.import_module(modname)
        getattr(mod, fname)(st, item)
        return diverged(st, mod, item), None
    except Enough:
        st.caps.append(f"{item}: left at a violation after more than a minute"[:300])
        return st, None
    except BaseException as e:  # noqa
        if sdk_exception(e):
            st.add_violation(f"sdk-exception:{type(e).__name__}", traceback.format_exc()[-1500:], None)
            st.caps.append(f"{item}: stopped by an exception raised by the SDK")
            return st, None
        return st, traceback.format_exc()


def diverged(st, mod, item):
    from . import core

    if core.DIVERGED:
        msg = f"{len(core.DIVERGED)} executions did not repeat: {core.DIVERGED[0]}"
        if getattr(mod, "LEAKS", False):
            st.add_violation("leak:diverged", "the same program and answers behaved differently after other programs had run in the process; " + msg, None)
        st.caps.append(f"{item}: {msg}"[:300])
        del core.DIVERGED[:]
    return st


def sdk_exception(e):
    """Whether an exception was raised inside the code under test rather than inside the harness."""
    frames = traceback.extract_tb(e.__traceback__)
    for f in reversed(frames):
        if os.sep + "pulumi" + os.sep in f.filename and f.filename.startswith(os.path.realpath(REPO)):
            return True
        if f.filename.startswith(ROOT):
            return False
    return False


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 8


def pmap(modname, fname, items, st, procs=None, limit=None):
    """Runs mod.fname(stats, item) for every item in worker processes and merges the statistics."""
    items = list(items)
    procs = procs or workers()
    if procs == 1 or len(items) <= 1:
        res = map(_worker, [(modname, fname, it) for it in items])
        for s, err in res:
            st.merge(s)
            if err:
                raise RuntimeError("harness error in worker:\n" + err)
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        errs = []
        res = pool.imap_unordered(_worker, [(modname, fname, it) for it in items], chunksize=1)
        left = len(items)
        while left:
            spent = time.monotonic() - st.started
            found = any(not known(v["key"]) for v in st.violations)
            if limit is not None and spent > (limit / 4 if found else limit):
                st.caps.append(f"{left} of {len(items)} parts left out after {spent:.0f} s")
                break
            try:
                s, err = res.next(timeout=5)
            except multiprocessing.TimeoutError:
                continue
            left -= 1
            st.merge(s)
            if err:
                errs.append(err)
        if errs:
            raise RuntimeError("harness error in worker:\n" + errs[0])


def finish(pid, tier, seed, level, st, t0, rule, assumptions, extra=None, confirm=None):
    """Writes the evidence file, prints verdict lines, returns the exit code."""
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status", "open") == "open"]
    knownkeys = {k["key"]: k for k in known}
    real, seen_known = {}, {}
    for v in st.violations:
        if v["key"] in knownkeys:
            seen_known[v["key"]] = v
        else:
            real.setdefault(v["key"], v)
    cov = {
        "rule": rule,
        "samples": st.samples[:5] or ["(none)"],
        "states": len(st.states),
        "transitions": st.transitions,
        "traces_validated_against_impl": st.evaluations,
        "distinct_outcomes": len(st.outcomes),
        "top_outcomes": dict(st.outcomes.most_common(12)),
        "exhaustive": not st.caps,
    }
    if st.caps:
        cov["caps_hit"] = st.caps[:10]
    if st.notes:
        cov["notes"] = dict(st.notes)
    if extra:
        cov.update(extra)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["key"] in seen_known else " (not reproduced in this run)"))
    rc = 0
    n = 0
    for key, v in sorted(real.items(), key=lambda kv: len(json.dumps(kv[1]["case"], default=str))):
        ok = True
        if confirm is not None and v["case"] is not None and n < 3:
            ok = False
            for _ in range(2):
                try:
                    if confirm(v["case"]):
                        ok = True
                        break
                except Exception as e:  # noqa
                    if sdk_exception(e):
                        ok = True
                        break
                    traceback.print_exc()
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join("replays", f"{pid}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json")
        with open(os.path.join(ROOT, path), "w") as f:
            json.dump({"property": pid, **v, "confirmed": ok}, f, indent=1, default=str)
        if not ok:
            print(f"unconfirmed (did not reproduce on replay): {key}: {v['msg']}")
            continue
        n += 1
        if n <= 5:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key}: {str(v['msg'])[:2000]}")
        rc = 1
    if real and rc == 0:
        print("harness error: violations seen but none reproduced on replay")
        return 3
    print(
        f"{pid} {tier}: evaluations={st.evaluations} states={len(st.states)} transitions={st.transitions} "
        f"outcomes={len(st.outcomes)} violations={len(real)} known={len(seen_known)} caps={len(st.caps)} wall={time.time()-t0:.1f}s"
    )
    return rc
