"""C27: the program runner (pulumi-language-python-exec) runs the program as asked and reports how it ended."""
import asyncio
import contextlib
import contextvars
import io
import itertools
import json
import os
import runpy
import shutil
import sys
import tempfile
import types

from .. import core, engine as eng

LEVEL = "model_checking"
RULE = ("every program of a bounded grammar (resources, messages, callbacks, exports, configuration, coroutines, helper modules; every way of ending at every position: normally, RunError, other exceptions - direct, chained, in a helper, in a callback, in a coroutine, not even compiling -, exit with every kind of status, "
        "interrupts) x answers of the engine (success, failure, transport error, engine gone, in every order within the bound) x command line (program as file, relative path, directory; working directory; arguments; preview; organization; with and without an engine; configuration and secret keys in the environment); "
        "the real runner script is executed on the controlled event loop and its exit status, messages, registrations and what the program saw are compared with a reference; likewise the runner of policy packs over every ending x subsets of the environment it reads.")
ASSUMPTIONS = ["the options are those the language host passes (parallel always present)", "program arguments do not look like options"]

REPO = os.environ.get("VERIF_REPO", "/repo")
EXEC = os.path.join(REPO, "sdk/python/cmd/pulumi-language-python-exec")

PRE = '''import asyncio, os, sys
import pulumi, mcrec
mcrec.start(globals())
class R(pulumi.CustomResource):
    x: pulumi.Output[str]
    def __init__(self, n, x="v"):
        super().__init__("t:m:R", n, {"x": x})
'''
# statement -> source
STMT = {
    "res": 'r1 = R("r1"); mcrec.made("r1")\n',
    "res2": 'r2 = R("r2", pulumi.Output.from_input("w")); mcrec.made("r2")\n',
    "dep": 'r1 = R("r1"); mcrec.made("r1"); r3 = R("r3", r1.x); mcrec.made("r3")\n',
    "log": 'pulumi.log.info("hello")\n',
    "warn": 'r1 = R("r1"); mcrec.made("r1"); pulumi.log.warn("careful", r1)\n',
    "cb": 'r1 = R("r1"); mcrec.made("r1"); r1.x.apply(lambda v: mcrec.cb(v))\n',
    "exp": 'r1 = R("r1"); mcrec.made("r1"); pulumi.export("e", r1.x); mcrec.exported("e", "v")\npulumi.export("plain", [1, "a"]); mcrec.exported("plain", [1.0, "a"])\n',
    "print": 'print("to stdout"); print("to stderr", file=sys.stderr)\n',
    "help": 'import mchelper; mchelper.make(R)\n',
}
HELPER = '''import mcrec
def make(R):
    R("h1"); mcrec.made("h1")
def fail(kind):
    inner(kind)
def inner(kind):
    raise kind("from the helper")
'''
# ending -> (source, outcome);  outcome: ["ok"] | ["run", message] | ["exc", last line, frames in user code] | ["exit", status, text on stderr] | ["interrupt"]
M, H = "main", "helper"
ENDS = {
    "none": ("", ["ok"]),
    "run": ('raise pulumi.RunError("boom")\n', ["run", "boom"]),
    "runempty": ('raise pulumi.RunError()\n', ["run", ""]),
    "runlines": ('raise pulumi.RunError("one\\ntwo %s {}")\n', ["run", "one\ntwo %s {}"]),
    "runsub": ('class Mine(pulumi.RunError): pass\nraise Mine("mine")\n', ["run", "mine"]),
    "conf": ('pulumi.Config().require("nothere")\n', ["run", "Missing required configuration variable 'proj:nothere'\n    please set a value using the command `pulumi config set proj:nothere <value>`"]),
    "conftype": ('pulumi.Config().require_int("word")\n', ["run", None]),
    "exc": ('raise ValueError("boom")\n', ["exc", "ValueError: boom", [M]]),
    "excempty": ('assert False\n', ["exc", "AssertionError", [M]]),
    "exclines": ('raise ValueError("one\\ntwo")\n', ["exc", "two", [M]]),
    "excfn": ('def g():\n    {}["k"]\ndef f():\n    g()\nf()\n', ["exc", "KeyError: 'k'", [M, M, M]]),
    "helper": ('import mchelper\nmchelper.fail(TypeError)\n', ["exc", "TypeError: from the helper", [M, H, H]]),
    "helperrun": ('import mchelper\nmchelper.fail(pulumi.RunError)\n', ["run", "from the helper"]),
    "chained": ('try:\n    {}["k"]\nexcept KeyError as e:\n    raise RuntimeError("outer") from e\n', ["exc", "RuntimeError: outer", [M, M]]),
    "during": ('try:\n    {}["k"]\nexcept KeyError:\n    raise RuntimeError("outer")\n', ["exc", "RuntimeError: outer", [M, M]]),
    "caught": ('try:\n    raise ValueError("boom")\nexcept ValueError:\n    pass\n', ["ok"]),
    "cbexc": ('def cb(v):\n    raise ValueError("in callback")\npulumi.Output.from_input("q").apply(cb)\n', ["exc", "ValueError: in callback", [M]]),
    "cbrun": ('def cb(v):\n    raise pulumi.RunError("in callback")\npulumi.Output.from_input("q").apply(cb)\n', ["run", "in callback"]),
    "cbres": ('def cb(v):\n    raise ValueError("late")\nR("r9").x.apply(cb); mcrec.made("r9")\n', ["exc", "ValueError: late", [M]]),
    "coexc": ('async def co():\n    await asyncio.sleep(0)\n    raise ValueError("in coroutine")\npulumi.export("bad", pulumi.Output.from_input(co()))\n', ["exc", "ValueError: in coroutine", [M]]),
    "inputexc": ('async def co():\n    raise ValueError("in input")\nR("bad", co())\n', ["exc", "ValueError: in input", [M]]),
    "task": ('async def co():\n    await asyncio.sleep(0)\n    mcrec.cb("task")\nasyncio.ensure_future(co())\n', ["ok", "task"]),
    "taskexc": ('async def co():\n    await asyncio.sleep(0)\n    raise ValueError("in task")\nasyncio.ensure_future(co())\n', ["exc", "ValueError: in task", [M]]),
    "mod": ('import mc_there_is_no_such_module\n', ["exc", "ModuleNotFoundError: No module named 'mc_there_is_no_such_module'", [M]]),
    "syntax": ('def (:\n', ["syntax"]),
    "exit0": ('sys.exit(0)\n', ["exit", 0, ""]),
    "exitnone": ('sys.exit()\n', ["exit", 0, ""]),
    "exit3": ('sys.exit(3)\n', ["exit", 3, ""]),
    "exittext": ('sys.exit("bye")\n', ["exit", 1, "bye"]),
    "interrupt": ('raise KeyboardInterrupt()\n', ["interrupt"]),
}
ASYNC = ("cbexc", "cbrun", "cbres", "coexc", "inputexc", "taskexc")  # the program ends while it is under way
CONFIG = {"proj:word": "abc", "proj:n": "7", "other:s": "secret text", "proj:e": ""}
SECRETS = ["other:s"]


def program(body, end):
    return ("def (:\n" if end == "syntax" else PRE + "".join(STMT[s] for s in body) + ENDS[end][0] + ("" if end in ("run", "exc") else "mcrec.end()\n"))


class Rec:
    """What the program sees and does, as it tells the harness."""

    def __init__(self):
        self.names, self.cbs, self.exports, self.ended, self.saw = [], [], {}, 0, None

    def module(self):
        m = types.ModuleType("mcrec")
        m.start, m.made, m.cb = self.start, self.names.append, self.cbs.append
        m.exported = self.exports.__setitem__
        m.end = self.end
        return m

    def end(self):
        self.ended += 1

    def start(self, g):
        import pulumi

        def get(f):
            try:
                return f()
            except Exception as e:  # noqa
                return f"{type(e).__name__}: {e}"

        c, o = pulumi.Config(), pulumi.Config("other")
        self.saw = {"argv": list(sys.argv), "cwd": os.getcwd(), "name": g["__name__"], "file": os.path.basename(g.get("__file__") or ""), "project": pulumi.get_project(), "stack": pulumi.get_stack(),
                    "org": get(pulumi.get_organization), "dry": pulumi.runtime.is_dry_run(), "config": [c.get("word"), c.get_int("n"), o.get("s"), c.get("e"), c.get("absent")],
                    "secret": [pulumi.runtime.is_config_secret("other:s"), pulumi.runtime.is_config_secret("proj:word")]}


class Engine(eng.FakeEngine):
    def Log(self, req):
        from google.protobuf import empty_pb2

        self.logs.append((req.severity, req.message, req.urn, len(self.events)))
        return empty_pb2.Empty()


class Place:
    """A scratch directory with the program in it."""

    def __init__(self, body, end):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="mc27-"))
        self.proj = os.path.join(self.top, "proj")
        os.makedirs(os.path.join(self.proj, "sub"))
        src = program(body, end)
        for f in ("__main__.py", "sub/prog.py"):
            with open(os.path.join(self.proj, f), "w") as h:
                h.write(src)
        for d in (self.proj, os.path.join(self.proj, "sub")):
            with open(os.path.join(d, "mchelper.py"), "w") as h:
                h.write(HELPER)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


# how the program is named: (pwd, PROGRAM, file that runs); paths relative to the project directory
FORMS = {
    "dot": ("", ".", "__main__.py"),
    "absdir": ("", "@", "__main__.py"),
    "file": ("", "__main__.py", "__main__.py"),
    "subfile": ("", "sub/prog.py", "prog.py"),
    "absfile": ("sub", "@/sub/prog.py", "prog.py"),
    "pwdsub": ("sub", "prog.py", "prog.py"),
    "updir": ("sub", "..", "__main__.py"),
    "relpwd": ("~sub", "prog.py", "prog.py"),
    "reldir": ("~", ".", "__main__.py"),
    "nopwd": (None, ".", "__main__.py"),
}


def run(case, place, ch):
    """Runs the real script once. -> observation"""
    out = core.Outcome()
    rec = Rec()
    pwd, prog, _ = FORMS[case["form"]]
    absdir = lambda p: p.replace("@", place.proj)  # noqa
    argv = [EXEC, "--monitor", "mon", "--project", "proj", "--stack", "stk", "--parallel", "4"]
    if case["dry"] is not None:
        argv += ["--dry_run", case["dry"]]
    if pwd is not None:
        base = "proj" if pwd.startswith("~") else place.proj  # the runner is started in the directory above
        argv += ["--pwd", os.path.join(base, pwd.strip("~")) if pwd.strip("~") else base]
    if case["engine"]:
        argv += ["--engine", "mon"]
    if case["org"]:
        argv += ["--organization", case["org"]]
    if case.get("tracing"):
        argv += ["--tracing", "file:///dev/null"]
    argv += [absdir(prog)] + list(case["args"])
    e = Engine(out, dry_run=case["dry"] == "true", faults=case.get("faults", ()), chooser=ch)
    stdout, stderr = io.StringIO(), io.StringIO()
    res = {}

    def inner():
        sched = core.Scheduler(ch, early=False)
        out.sched = sched
        core.reset_hash(1)
        policy = core.ControlledPolicy(sched)
        oldpolicy = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(policy)
        asyncio.set_event_loop(None)
        core.clean_globals()
        sys.unraisablehook = lambda *a: None  # coroutines that a failed program leaves behind
        saved = sys.argv, os.getcwd(), list(sys.path), dict(os.environ), sys.modules.get("__main__"), sys.dont_write_bytecode
        sys.argv = argv
        sys.dont_write_bytecode = True
        sys.modules["mcrec"] = rec.module()
        sys.modules.pop("mchelper", None)
        if case["form"] in ("file", "subfile", "absfile", "pwdsub", "relpwd"):  # the language host puts nothing on the path: a program's user does
            sys.path.insert(0, os.path.join(place.proj, "sub"))
        for k in list(os.environ):
            if k.startswith("PULUMI"):
                del os.environ[k]
        if case["config"]:
            os.environ["PULUMI_CONFIG"] = json.dumps(CONFIG)
            os.environ["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps(SECRETS)
        os.chdir(place.proj if pwd is None else place.top)
        for k in [k for k in sys.path_importer_cache if not os.path.isabs(k) or k.startswith(place.top)]:  # a new process knows of none
            del sys.path_importer_cache[k]
        try:
            with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr), core.watchdog(30), eng.Wire(lambda addr: e):
                try:
                    runpy.run_path(EXEC, run_name="__main__")
                    res["how"] = "returned"
                except SystemExit as x:
                    if x.code is None or isinstance(x.code, int):
                        res["status"] = x.code or 0
                    else:
                        print(x.code, file=sys.stderr)
                        res["status"] = 1
                except KeyboardInterrupt:
                    res["how"] = "interrupt"
                except core.HarnessError:
                    raise
                except (core.Deadlock, core.Livelock) as x:
                    res["how"] = type(x).__name__.lower()
                except BaseException as x:  # noqa
                    res["how"] = f"crashed with {type(x).__name__}: {x}"
        finally:
            sys.argv, cwd, sys.path[:], env, main, sys.dont_write_bytecode = saved
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)
            if main is not None:
                sys.modules["__main__"] = main
            for m in ("mcrec", "mchelper"):
                sys.modules.pop(m, None)
            res["open"] = sum(1 for lp in policy.loops if not lp.is_closed())
            for lp in policy.loops:
                try:
                    if not lp.is_closed():
                        lp.close()
                except BaseException:  # noqa
                    pass
            asyncio.set_event_loop(None)
            asyncio.set_event_loop_policy(oldpolicy)
            core.clean_globals()

    contextvars.Context().run(inner)
    return {"res": res, "rec": rec, "engine": e, "stdout": stdout.getvalue(), "stderr": stderr.getvalue(), "out": out}


def frames(text, place):
    """-> files of the traceback lines in `text`, as main/helper/other"""
    fs = []
    for line in text.splitlines():
        if line.startswith('  File "'):
            f = line.split('"')[1]
            b = os.path.basename(f)
            fs.append(H if b == "mchelper.py" else M if os.path.abspath(os.path.join(place.proj, f)).startswith(place.proj) and b in ("__main__.py", "prog.py") else "other")
    return fs


def judge(case, place, o):
    bad = []
    res, rec, e = o["res"], o["rec"], o["engine"]
    kind = ENDS[case["end"]][1]
    pwd, prog, fname = FORMS[case["form"]]
    from pulumi.runtime.proto import engine_pb2

    logs = e.logs if case["engine"] else [(engine_pb2.ERROR, t[len("error: "):], "", None) for t in split_errors(o["stderr"])]
    errors = [(m, at) for s, m, u, at in logs if s == engine_pb2.ERROR]

    if "status" not in res and kind[0] != "interrupt":
        return [f"the runner did not exit: {res.get('how')}"]
    if res["open"]:
        bad.append("the event loop is left open")
    failed = [f for _, f in e.failed]
    # --- how it ends
    if failed and kind[0] not in ("syntax",):
        want = "failed"
        if res.get("status") == 0:
            bad.append(f"exit status 0 although the engine reported {failed}")
        if len(errors) != 1 and kind[0] != "interrupt":
            bad.append(f"{len(errors)} error messages instead of one: {errors}")
        if kind[0] in ("ok",) and errors:
            if failed[0] == "unavailable":
                if res["status"] != 1 or errors[0][0] != "Resource monitor has terminated, shutting down":
                    bad.append(f"engine gone: exit status {res['status']}, message {errors[0][0][:200]!r}")
            else:
                text = {"fail": "engine says no: ", "bug": "transport bug: "}[failed[0]]
                if res["status"] != 32 or text not in errors[0][0]:
                    bad.append(f"engine {failed[0]}: exit status {res['status']}, message {errors[0][0][:200]!r}")
    elif kind[0] == "ok":
        want = 0
        if errors:
            bad.append(f"error messages of a program that succeeds: {errors}")
    elif kind[0] == "run":
        want = 1
        if len(errors) != 1 or (kind[1] is not None and errors[0][0] != kind[1]) or (errors and "Traceback" in errors[0][0]):
            bad.append(f"messages {errors} instead of exactly {kind[1]!r}")
    elif kind[0] == "exc":
        want = 32
        if len(errors) != 1:
            bad.append(f"{len(errors)} error messages instead of one: {[x[0][:80] for x in errors]}")
        else:
            text = errors[0][0]
            if not text.startswith("Program failed with an unhandled exception:\n"):
                bad.append(f"message starts with {text[:80]!r}")
            if text.rstrip("\n").split("\n")[-1] != kind[1]:
                bad.append(f"message ends with {text[-80:]!r}")
            fs = frames(text, place)
            if [f for f in fs if f != "other"] != kind[2]:
                bad.append(f"the traceback names {fs}, the program's frames are {kind[2]}")
            elif fs[0] == "other":
                bad.append("the traceback starts outside of the program")
    elif kind[0] == "syntax":
        want = 32
        if len(errors) != 1 or "SyntaxError" not in errors[0][0] or f"{fname}\", line 1" not in errors[0][0]:
            bad.append(f"messages {errors}")
    elif kind[0] == "exit":
        want = kind[1]
        if errors:
            bad.append(f"error messages {errors}")
        if kind[2] and kind[2] not in o["stderr"]:
            bad.append(f"{kind[2]!r} is not on stderr: {o['stderr']!r}")
    else:
        want = "interrupt"
        if res.get("how") != "interrupt":
            bad.append(f"an interrupt ends with {res}")
    if isinstance(want, int) and res.get("status") != want:
        bad.append(f"exit status {res.get('status')} instead of {want}")
    # --- what was asked of the engine
    regs = [v.key for v in e.events if v.kind == "RegisterResource"]
    if not failed:
        wantregs = ["proj-stk"] + rec.names
        if case["end"] in ASYNC:
            if any(regs.count(r) > wantregs.count(r) for r in regs):
                bad.append(f"registered {regs} of {wantregs}")
        elif kind[0] != "interrupt" and sorted(regs) != sorted(wantregs):
            bad.append(f"registered {regs} instead of {wantregs}")
        ro = [v for v in e.events if v.kind == "RegisterResourceOutputs"]
        if case["end"] not in ASYNC and kind[0] not in ("interrupt", "syntax"):
            if len(ro) != 1:
                bad.append(f"stack outputs registered {len(ro)} times")
            else:
                got = eng.from_struct(ro[0].req.outputs)
                if got != rec.exports:
                    bad.append(f"stack outputs {got} instead of {rec.exports}")
        wantcb = (["v"] if "cb" in case["body"] else []) + (["task"] if len(kind) > 1 and kind[1] == "task" else [])
        if kind[0] == "ok" and rec.cbs != wantcb and sorted(rec.cbs) != sorted(wantcb):
            bad.append(f"callbacks got {rec.cbs} instead of {wantcb}")
        if errors and case["engine"]:
            late = [v.key for v in e.events[errors[0][1]:]]
            if late:
                bad.append(f"{late} requested after the error message")
        if case["engine"]:
            n = sum(1 for s, m, u, at in logs if (s, m, u) == (engine_pb2.INFO, "hello", ""))
            if kind[0] != "syntax" and n != case["body"].count("log"):
                bad.append(f"the message 'hello' was sent {n} times")
            w = [(u.split("::")[-1]) for s, m, u, at in logs if s == engine_pb2.WARNING and m == "careful"]
            if kind[0] in ("ok", "run") and case["end"] not in ASYNC and w != ["r1"] * case["body"].count("warn"):
                bad.append(f"the warning of r1 was sent for {w}")
    # --- what the program saw
    if kind[0] != "syntax":
        dry = case["dry"] == "true"
        wantsaw = {"argv": [prog.replace("@", place.proj)] + list(case["args"]), "cwd": os.path.join(place.proj, pwd.strip("~")) if pwd and pwd.strip("~") else place.proj, "name": "__main__", "file": fname, "project": "proj", "stack": "stk",
                   "org": case["org"] or "Exception: organization is not available", "dry": dry, "config": ["abc", 7, "secret text", "", None] if case["config"] else [None] * 5,
                   "secret": [bool(case["config"]), False]}
        if rec.saw is None:
            bad.append("the program did not run")
        else:
            for k, v in wantsaw.items():
                if rec.saw[k] != v:
                    bad.append(f"the program saw {k}={rec.saw[k]!r} instead of {v!r}")
        if "print" in case["body"] and (o["stdout"].count("to stdout") != 1 or o["stderr"].count("to stderr") != 1):
            bad.append("what the program printed is not there once")
        if "Task was destroyed" in o["stderr"] or "never retrieved" in o["stderr"]:
            bad.append(f"noise on stderr: {o['stderr'][-200:]}")
    if case["engine"] and kind[0] in ("ok", "run", "exc") and "Traceback" in o["stderr"]:
        bad.append(f"a traceback on stderr: {o['stderr'][-200:]}")
    return bad


def split_errors(text):
    """messages printed instead of logged: each starts with 'error: ' at the start of a line and ends where the next message or printed line starts"""
    out, cur = [], None
    for line in text.splitlines():
        if line.startswith("error: "):
            cur = [line]
            out.append(cur)
        elif line.startswith(("info: ", "warning: ", "to stderr", "bye")):
            cur = None
        elif cur is not None:
            cur.append(line)
    return ["\n".join(c) for c in out]


BASE = {"form": "dot", "dry": "false", "engine": True, "org": "", "args": [], "config": True}
BODIES = [()] + [(s,) for s in STMT] + [("exp", "log"), ("log", "cb"), ("res", "res2", "log"), ("help", "warn", "print"), ("dep", "exp"), ("cb", "dep", "print")]


def groups(tier):
    """(body, end) -> cases"""
    th = tier == "thorough"
    bodies = list(BODIES)
    if th:
        bodies += [b for b in itertools.product(STMT, repeat=2) if b not in bodies]
    for body in bodies:
        for end in ENDS:
            conf = end in ("conftype",)
            cases = [BASE]
            for form in FORMS:
                cases.append({**BASE, "form": form, "args": ["a", "b c"] if form in ("absdir", "subfile") else []})
            for dry in ("true", None):
                cases.append({**BASE, "dry": dry})
            cases += [{**BASE, "engine": False}, {**BASE, "org": "acme"}, {**BASE, "args": ["x"], "org": "o", "dry": "true", "form": "updir"}]
            if not conf:
                cases += [{**BASE, "config": False}, {**BASE, "config": False, "engine": False, "form": "absfile"}]
            if body in ((), ("exp", "log")) or th and len(body) < 2:
                for form, dry, e, org, args, c in itertools.product(FORMS, ("true", "false", None), (True, False), ("", "acme"), ([], ["a", "b c"]), (True, False)):
                    if c or not conf:
                        cases.append({"form": form, "dry": dry, "engine": e, "org": org, "args": args, "config": c, "tracing": True})
            if len(body) >= 1 and end != "syntax":
                for f in ("fail", "unavailable", "bug"):
                    cases.append({**BASE, "faults": [f]})
                    cases.append({**BASE, "faults": [f], "dry": "true", "form": "subfile"})
            yield {"body": list(body), "end": end}, [{**c, "body": list(body), "end": end} for c in cases]


# ------------------------------------------------------------------------------------------------
# the runner of policy packs

PPRE = "import os, sys\nimport pulumi, mcrec\nmcrec.start(globals())\n"
PENDS = ["none", "run", "runempty", "runlines", "exc", "excempty", "exclines", "excfn", "helper", "helperrun", "chained", "during", "caught", "mod", "syntax", "exit0", "exitnone", "exit3", "exittext", "interrupt", "print"]
PVARS = ["PULUMI_PROJECT", "PULUMI_STACK", "PULUMI_DRY_RUN", "PULUMI_ORGANIZATION"]
PVALS = {"PULUMI_PROJECT": "proj", "PULUMI_STACK": "stk", "PULUMI_ORGANIZATION": "acme"}
PFORMS = ["abs", "rel", "dir", "absdir"]


def policy_cases(tier):
    for end in PENDS:
        for n in range(16):
            vs = [v for i, v in enumerate(PVARS) if n >> i & 1]
            for dry in ("true", "false", "", "True") if "PULUMI_DRY_RUN" in vs else ("true",):
                for conf in (True, False):
                    for form in PFORMS if n in (0, 7, 15) or tier == "thorough" else ("abs",):
                        for more in ([], ["x", "--y"]) if n == 15 else ([],):
                            yield {"policy": True, "end": end, "vars": vs, "dry": dry, "conf": conf, "form": form, "more": more, "argc": 3}
    for argc in (1, 2):
        yield {"policy": True, "end": "none", "vars": PVARS, "dry": "true", "conf": True, "form": "abs", "more": [], "argc": argc}


def policy_run(c):
    out = core.Outcome()
    rec = Rec()
    top = os.path.realpath(tempfile.mkdtemp(prefix="mc27-"))
    end = '' if c["end"] == "print" else ENDS[c["end"]][0]
    src = "def (:\n" if c["end"] == "syntax" else PPRE + ('print("to stdout"); print("to stderr", file=sys.stderr)\n' if c["end"] == "print" else "") + end + ("" if c["end"] in ("run", "exc") else "mcrec.end()\n")
    for f, t in (("prog.py", src), ("__main__.py", src), ("mchelper.py", HELPER)):
        with open(os.path.join(top, f), "w") as h:
            h.write(t)
    prog = {"abs": os.path.join(top, "prog.py"), "rel": "prog.py", "dir": ".", "absdir": top}[c["form"]]
    argv = (["pulumi.policy", "127.0.0.1:1", prog] + c["more"])[: c["argc"] if not c["more"] else None]
    stdout, stderr = io.StringIO(), io.StringIO()
    res = {}
    path = os.path.join(REPO, "sdk/python/lib/pulumi/policy/__main__.py")

    def inner():
        from pulumi.runtime import config as rconfig, settings as rsettings

        core.clean_globals()
        # a new process
        rconfig.CONFIG.set({})
        rsettings.configure(rsettings.Settings(project="project", stack="stack"))
        saved = sys.argv, os.getcwd(), list(sys.path), dict(os.environ), sys.modules.get("__main__"), sys.dont_write_bytecode
        sys.argv = argv
        sys.dont_write_bytecode = True
        sys.modules["mcrec"] = rec.module()
        sys.modules.pop("mchelper", None)
        sys.path.insert(0, top)
        for k in list(os.environ):
            if k.startswith("PULUMI"):
                del os.environ[k]
        for v in c["vars"]:
            os.environ[v] = PVALS.get(v, c["dry"])
        if c["conf"]:
            os.environ["PULUMI_CONFIG"] = json.dumps(CONFIG)
        os.chdir(top)
        for k in [k for k in sys.path_importer_cache if not os.path.isabs(k) or k.startswith(top)]:
            del sys.path_importer_cache[k]
        try:
            with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr), core.watchdog(30):
                try:
                    runpy.run_path(path, run_name="__main__")
                    res["how"] = "returned"
                except SystemExit as x:
                    if x.code is None or isinstance(x.code, int):
                        res["status"] = x.code or 0
                    else:
                        print(x.code, file=sys.stderr)
                        res["status"] = 1
                except KeyboardInterrupt:
                    res["how"] = "interrupt"
                except core.HarnessError:
                    raise
                except BaseException as x:  # noqa
                    res["how"] = f"crashed with {type(x).__name__}: {x}"
        finally:
            sys.argv, cwd, sys.path[:], env, main, sys.dont_write_bytecode = saved
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)
            if main is not None:
                sys.modules["__main__"] = main
            for m in ("mcrec", "mchelper"):
                sys.modules.pop(m, None)
            core.clean_globals()
            shutil.rmtree(top, ignore_errors=True)

    contextvars.Context().run(inner)
    bad = []
    errors = split_errors(stderr.getvalue())
    if c["argc"] < 3 and not c["more"]:
        if res.get("status") in (0, None) or rec.saw is not None or "usage" not in stderr.getvalue():
            bad.append(f"too few arguments: {res}, stderr {stderr.getvalue()!r}")
        return bad, res, rec
    kind = ["ok"] if c["end"] == "print" else ENDS[c["end"]][1]
    want = {"ok": 0, "run": 1, "exc": 1, "syntax": 1, "exit": kind[1] if kind[0] == "exit" else None, "interrupt": None}[kind[0]]
    if kind[0] == "interrupt":
        if res.get("how") != "interrupt":
            bad.append(f"an interrupt ends with {res}")
    elif res.get("status") != want:
        bad.append(f"ends with {res} instead of status {want}")
    if kind[0] in ("run", "exc", "syntax"):
        if len(errors) != 1:
            bad.append(f"{len(errors)} error messages instead of one: {errors}")
        else:
            text = errors[0].rstrip("\n").split("\n")
            last = kind[1] if kind[0] == "exc" else (kind[1] or "RunError").split("\n")[-1] if kind[0] == "run" else "SyntaxError"
            if (last not in text[-1]) or "unhandled exception" not in text[0]:
                bad.append(f"message {text[0][:80]!r} ... {text[-1][:80]!r}, expected {last!r}")
            fs = [os.path.basename(x.split('"')[1]) for x in text if x.startswith('  File "')]
            f = "__main__.py" if "dir" in c["form"] else "prog.py"
            if kind[0] == "exc" and [x for x in fs if x == "mchelper.py"] != ["mchelper.py"] * kind[2].count(H) or f not in fs and kind[0] != "run":
                bad.append(f"the traceback names {fs}")
    elif errors:
        bad.append(f"error messages {errors}")
    if kind[0] == "exit" and kind[2] and kind[2] not in stderr.getvalue():
        bad.append(f"{kind[2]!r} is not on stderr")
    if c["end"] == "print" and (stdout.getvalue().count("to stdout") != 1 or stderr.getvalue().count("to stderr") != 1):
        bad.append("what the program printed is not there once")
    if kind[0] != "syntax":
        settings = set(PVARS[:3]) <= set(c["vars"])
        own = c["conf"] and settings  # without settings the project has another name
        saw = {"name": "__main__", "file": "__main__.py" if "dir" in c["form"] else "prog.py", "project": "proj" if settings else "project", "stack": "stk" if settings else "stack", "dry": settings and c["dry"] == "true",
               "org": "acme" if settings and "PULUMI_ORGANIZATION" in c["vars"] else "Exception: organization is not available", "cwd": top,
               "config": ["abc" if own else None, 7 if own else None, "secret text" if c["conf"] else None, "" if own else None, None]}
        if rec.saw is None:
            bad.append("the program did not run")
        else:
            for k, v in saw.items():
                if (rec.saw[k] or False) != (v or False) if k == "dry" else rec.saw[k] != v:
                    bad.append(f"the program saw {k}={rec.saw[k]!r} instead of {v!r}")
        if rec.ended != (1 if kind[0] == "ok" else 0):
            bad.append(f"the program was run to its end {rec.ended} times")
    return bad, res, rec


def policy_work(st, it):
    for i, c in enumerate(policy_cases(it["tier"])):
        if i % 8 != it["policy"]:
            continue
        bad, res, rec = policy_run(c)
        st.case(["policy", c], outcome=f"policy {c['end']} {res.get('status')}", transitions=1, sample={"case": c, "saw": rec.saw})
        for m in bad[:3]:
            st.add_violation(f"policy:{c['end']}:{c['form']}:{len(c['vars'])}:{m[:40]}", f"policy pack {c}: {m}", {"policy": c})


def items(tier, seed):
    return [{"policy": k, "tier": tier} for k in range(8)] + run_items(tier)


def run_items(tier):
    gs = [g for g, _ in groups(tier)]
    n = 48 if tier == "quick" else 200
    return [{"shard": s, "shards": n, "tier": tier, "count": len(gs)} for s in range(n)]


def explore_case(case, place, tier):
    n = 3 if tier == "thorough" else 1 if case.get("faults") else 2
    budget = {"order": n, "fault": 1} if case.get("faults") else {"order": n}

    def one(ch):
        o = run(case, place, ch)
        return o, judge(case, place, o)

    return core.explore(one, budget)


def work(st, it):
    if "policy" in it:
        return policy_work(st, it)
    for i, (g, cases) in enumerate(groups(it["tier"])):
        if i % it["shards"] != it["shard"]:
            continue
        place = Place(g["body"], g["end"])
        try:
            for case in cases:
                for ch, (o, bad) in explore_case(case, place, it["tier"]):
                    e = o["engine"]
                    st.case([case, ch.choices], outcome=f"{case['end']} {o['res'].get('status')} {[f for _, f in e.failed]}", transitions=len(e.events) + len(e.logs),
                            sample={"case": case, "status": o["res"], "events": [v.key for v in e.events]})
                    for m in bad[:3]:
                        st.add_violation(f"{'+'.join(case['body'])}:{case['end']}:{case['form']}:{case.get('faults')}:{m[:40]}",
                                         f"body {case['body']}, ending {case['end']}, {({k: v for k, v in case.items() if k not in ('body', 'end')})}, schedule {ch.choices}: {m}", {"case": case, "choices": ch.choices})
        finally:
            place.close()


def replay(c):
    if "policy" in c:
        return policy_run(c["policy"])[0]
    place = Place(c["case"]["body"], c["case"]["end"])
    try:
        o = run(c["case"], place, core.Chooser(c["choices"]))
        return judge(c["case"], place, o)
    finally:
        place.close()
