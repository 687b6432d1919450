"""C21: automation commands run the CLI with exactly the requested arguments."""
import copy
import itertools
import json
import os
import shutil
import socket
import tempfile
import time
from datetime import datetime

from .. import autosim, core, report

LEVEL = "model_checking"
RULE = ("On the real Stack and LocalWorkspace with a stand-in for the CLI that records its arguments, directory and environment: up/preview/refresh/destroy under all subsets (quick: the small and the large ones) of their options, all text classes in every text or list option, "
        "all combinations of workspace settings and ambient environment; every other workspace and stack operation over its parameters; every command of every operation failing in every way (each error text, in the output or the error output, not started at all); "
        "results decoded from every shape the CLI writes; stack creation over initialisation modes, option subsets and reuse of one options object; inline programs with their servers; and all pairs of operations one after another. "
        "Arguments are compared after parsing as the CLI parses them; states = distinct (operation, environment, outcome).")
ASSUMPTIONS = ["an option given as an empty or zero value is not given", "an option value is not the text --non-interactive itself, and plugin version ranges come with a plugin name",
               "the CLI writes what pkg/cmd/pulumi writes", "the stand-in CLI does not read its standard input"]

VALUED = {"message", "target", "replace", "policy-pack", "policy-pack-config", "parallel", "color", "verbose", "tracing", "plan", "save-plan", "exec-kind", "event-log", "client", "stack", "secrets-provider", "file", "page-size", "page", "exec-agent", "cwd", "config-file"}
SHORT = {"m": "message", "t": "target", "s": "stack", "y": "yes", "f": "skip-preview", "p": "parallel", "d": "debug", "v": "verbose", "j": "json"}


def parse(argv):
    """(positional arguments, flags) as the CLI sees them."""
    pos, flags = [], {}
    it = iter(argv)
    setall = "set-all" in argv[:2]
    rest = False
    for a in it:
        if rest or not a.startswith("-") or a == "-":
            pos.append(a)
            continue
        if a == "--":
            rest = True
            continue
        if a.startswith("--"):
            name, eq, val = a[2:].partition("=")
        else:
            name, eq, val = SHORT.get(a[1], a[1]), bool(a[2:]), a[2:].lstrip("=")
        if name in VALUED or setall and name in ("plaintext", "secret"):
            if not eq:
                val = next(it, None)
                if val is None:
                    flags.setdefault("!", []).append(f"--{name} without a value")
                    continue
            flags.setdefault(name, []).append(val)
        elif eq and val in ("false", "0"):
            flags.pop(name, None)
        else:
            flags[name] = [True]
    return pos, flags


TIME = "2022-03-04T05:06:07.000Z"
HIST = {"version": 3, "kind": "update", "startTime": TIME, "message": "m", "environment": {"a": "b"}, "config": {"p:k": {"value": "v", "secret": False}}, "result": "succeeded", "endTime": "2022-03-04T05:06:09.000Z", "resourceChanges": {"create": 1}}
EVENTS = [{"sequence": 0, "timestamp": 1, "summaryEvent": {"maybeCorrupt": False, "durationSeconds": 1, "resourceChanges": {"create": 2}, "PolicyPacks": {}}}, {"sequence": 1, "timestamp": 1, "cancelEvent": {}}]
LOG = b"".join(json.dumps(e).encode() + b"\n" for e in EVENTS)


def key_of(argv):
    pos, flags = parse(argv)
    two = {"stack", "config", "plugin"}
    if pos and pos[0] in two and len(pos) > 1:
        return " ".join(pos[:2])
    return pos[0] if pos else ""


class CLI:
    """Answers commands; ``answers`` overrides {key or (key, nth): (code, out, err) or an exception}."""

    def __init__(self, answers=None):
        self.answers = answers or {}
        self.seen = {}
        self.files = {}
        self.on_main = None

    def __call__(self, call, sim):
        argv = call["argv"][1:]
        k = key_of(argv)
        n = self.seen[k] = self.seen.get(k, 0) + 1
        call["key"] = k
        pos, flags = parse(argv)
        for f in flags.get("file", []):
            try:
                with open(f, encoding="utf-8") as fh:
                    call["file"] = json.load(fh)
            except Exception as e:  # noqa
                call["file"] = f"unreadable: {e}"
        a = self.answers.get(f"{k}#{n}", self.answers.get(k))
        if isinstance(a, str):
            return [("fail", {"missing": FileNotFoundError(2, "No such file or directory", "pulumi"), "denied": PermissionError(13, "Permission denied", "pulumi")}[a])]
        if self.on_main is not None and "client" in flags:
            self.on_main(flags["client"][0])
        if a is None:
            a = [0, self.default(k, flags), ""]
        code, out, err = a
        steps = []
        if flags.get("event-log"):
            steps.append(("log", LOG))
        if out:
            steps.append(("out", out.encode()))
        steps.append(("exit", code, err.encode()))
        return steps

    def default(self, k, flags):
        if k == "version":
            return "v3.44.1\n"
        if k == "stack history":
            return json.dumps([HIST]) + "\n"
        if k == "stack output":
            return json.dumps({"plain": 1, "sec": "x" if "show-secrets" in flags else "[secret]"}, indent=2) + "\n"
        if k == "config get":
            return json.dumps({"value": "v", "secret": True}) + "\n"
        if k == "config":
            return json.dumps({"p:k": {"value": "v", "secret": False}, "p:s": {"value": "w", "secret": True}}) + "\n"
        if k in ("stack ls", "plugin ls"):
            return "[]\n"
        if k == "stack export":
            return json.dumps({"version": 3, "deployment": {"resources": []}}) + "\n"
        if k == "whoami":
            return "me\n"
        return "Updating (dev)\n\n  done \n"


# ---- executing an operation

WORDS = ["x", "a b", "-x", "--yes", "--", "a=b", "$(id)`id`", "'q' \"r\"", "l1\nl2", "\u00e9\u20ac", "\\", "*", ",a,b", "urn:pulumi:s::p::aws:s3/b:B$t::n", "--message", "%s {0}", "\t "]

OPTS = {
    "parallel": ("parallel", "int"), "message": ("message", "str"), "target": ("target", "list"), "policy_packs": ("policy-pack", "list"), "policy_pack_configs": ("policy-pack-config", "list"),
    "expect_no_changes": ("expect-no-changes", "bool"), "diff": ("diff", "bool"), "target_dependents": ("target-dependents", "bool"), "replace": ("replace", "list"), "color": ("color", "str"),
    "plan": ("plan", "str"), "log_flow": ("logflow", "bool"), "log_verbosity": ("verbose", "int"), "log_to_std_err": ("logtostderr", "bool"), "tracing": ("tracing", "str"), "debug": ("debug", "bool"),
}
COMMON = ["parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"]
OPOPTS = {
    "up": list(OPTS),
    "preview": list(OPTS),
    "refresh": COMMON + ["expect_no_changes"],
    "destroy": COMMON + ["target_dependents"],
}
DEF = {"int": 4, "str": "v w", "list": ["one", "two"], "bool": True}


def expect_main(op, opts, ws, name, inline=False, events=False):
    pos = [op]
    fl = {"stack": [name], "non-interactive": [True], "exec-kind": ["auto.inline" if inline else "auto.local"]}
    if op != "preview":
        fl["yes"] = [True]
        fl["skip-preview"] = [True]
    if events or op == "preview":
        fl["event-log"] = ["*"]
    if inline and op in ("up", "preview"):
        fl["client"] = ["*"]
    for o, v in opts.items():
        flag, kind = OPTS[o]
        if o == "plan" and op == "preview":
            flag = "save-plan"
        if not v:
            continue
        fl[flag] = [True] if kind == "bool" else [str(x) for x in v] if kind == "list" else [str(v)]
    return pos, fl


AMBIENT = {"MC21_AMBIENT": "amb", "PULUMI_ACCESS_TOKEN": "tok"}


def expect_env(ws, stackcmd):
    env = {**os.environ, **AMBIENT}
    if stackcmd:
        env["PULUMI_DEBUG_COMMANDS"] = "true"
    if ws.get("pulumi_home") is not None:
        env["PULUMI_HOME"] = ws["pulumi_home"]
    env.update(ws.get("env_vars") or {})
    return env


def compare_call(call, pos, flags, env, cwd, what):
    argv = call["argv"]
    bad = []
    if call["shell"]:
        bad.append(f"{what}: run through a shell")
    if not argv or argv[0] != "pulumi":
        bad.append(f"{what}: runs {argv[:1]}")
    if not all(isinstance(a, str) for a in argv):
        bad.append(f"{what}: argument that is no string: {[a for a in argv if not isinstance(a, str)]}")
        return bad
    p, f = parse(argv[1:])
    if p != pos:
        bad.append(f"{what}: arguments are {p}, expected {pos}")
    for k in sorted(set(f) | set(flags)):
        g, w = f.get(k), flags.get(k)
        if w == ["*"] and g and len(g) == 1 and g[0]:
            continue
        if g != w:
            bad.append(f"{what}: --{k} is {g}, expected {w}")
    if call["cwd"] is None or os.path.realpath(call["cwd"]) != os.path.realpath(cwd):
        bad.append(f"{what}: run in {call['cwd']}")
    if call["env"] != env:
        diff = {k: (call["env"].get(k), env.get(k)) for k in set(env) | set(call["env"]) if env.get(k) != call["env"].get(k)}
        bad.append(f"{what}: environment differs (is, expected): {diff}")
    return bad


class Env:
    """A scratch place in which automation code runs against the stand-in."""

    def __init__(self, answers=None, real=False):
        self.scratch = tempfile.mkdtemp(prefix="mc-c21-", dir=autosim.FAST)
        self.work = os.path.join(self.scratch, "work")
        self.tmp = os.path.join(self.scratch, "tmp")
        os.mkdir(self.work)
        os.mkdir(self.tmp)
        self.cli = CLI(answers)
        self.real = real
        self.calls = []
        self.late = []

    def run(self, f):
        saved = tempfile.tempdir
        env = dict(os.environ)
        os.environ.update(AMBIENT)
        try:
            if self.real:
                with autosim.Direct(self.cli) as sim:
                    tempfile.tempdir = self.tmp
                    self.calls = sim.calls
                    return f()
            sim = autosim.Sim(core.Chooser(), self.cli, self.tmp)
            self.calls = sim.calls
            try:
                return sim.run(f)
            finally:
                self.late = sim.at_end
        finally:
            tempfile.tempdir = saved
            os.environ.clear()
            os.environ.update(env)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def left(self):
        return sorted(os.listdir(self.tmp))


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa
        return None, e


def result_of(op, res, err=""):
    """What the default answers mean for the result of an operation."""
    bad = []
    if res.stdout != "Updating (dev)\n\n  done":
        bad.append(f"{op}: stdout of the result is {res.stdout!r}")
    if res.stderr != err:
        bad.append(f"{op}: stderr of the result is {res.stderr!r}")
    if op == "preview":
        if res.change_summary != {"create": 2}:
            bad.append(f"{op}: change summary {res.change_summary!r}")
    else:
        bad += [f"{op}: " + b for b in history_bad([HIST], [res.summary])]
    if op == "up":
        outs = {k: (v.value, v.secret) for k, v in res.outputs.items()}
        if outs != {"plain": (1, False), "sec": ("x", True)}:
            bad.append(f"{op}: outputs {outs!r}")
    return bad


def ts(s):
    return datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%fZ")


def history_bad(js, got):
    bad = []
    if len(js) != len(got):
        return [f"{len(got)} updates of {len(js)}"]
    for j, u in zip(js, got):
        want = {"version": j.get("version"), "kind": j["kind"], "start_time": ts(j["startTime"]), "message": j["message"], "environment": j["environment"], "result": j.get("result"),
                "end_time": ts(j["endTime"]) if "endTime" in j else None, "resource_changes": j.get("resourceChanges")}
        for k, w in want.items():
            if getattr(u, k) != w:
                bad.append(f"update {k} is {getattr(u, k)!r}, expected {w!r}")
        cfg = {k: (v.value, v.secret) for k, v in u.config.items()}
        wcfg = {k: (v.get("value"), v["secret"]) for k, v in j["config"].items()}
        if cfg != wcfg:
            bad.append(f"update config is {cfg!r}, expected {wcfg!r}")
    return bad


def followups(op, name, show_secrets=True):
    """The commands that tell the result of an operation."""
    hist = (["stack", "history"], {"json": [True], "page-size": ["1"], "page": ["1"], "stack": [name], "non-interactive": [True], **({"show-secrets": [True]} if show_secrets else {})}, True)
    out1 = (["stack", "output"], {"json": [True], "stack": [name], "non-interactive": [True]}, False)
    out2 = (["stack", "output"], {"json": [True], "show-secrets": [True], "stack": [name], "non-interactive": [True]}, False)
    return {"up": [out1, out2, hist], "preview": [], "refresh": [hist], "destroy": [hist]}[op]


def check_calls(calls, want, ws, cwd, what):
    bad = []
    if len(calls) != len(want):
        bad.append(f"{what}: {len(calls)} commands run ({[c.get('key') for c in calls]}), expected {len(want)}")
    # the order of the commands that only read does not matter
    rest = list(want[1:])
    first = want[:1]
    for i, c in enumerate(calls):
        if i == 0 and first:
            w = first[0]
        else:
            w = next((x for x in rest if x[0] == parse(c["argv"][1:])[0] and ("show-secrets" in x[1]) == ("show-secrets" in parse(c["argv"][1:])[1])), rest[0] if rest else None)
            if w is None:
                bad.append(f"{what}: unexpected command {c['argv']}")
                break
            rest.remove(w)
        bad += compare_call(c, w[0], w[1], expect_env(ws, w[2]), cwd, f"{what} [{' '.join(w[0][:2])}]")
    return bad


def make_stack(env, ws, name, program=None):
    from pulumi import automation as auto

    w = auto.LocalWorkspace(work_dir=env.work, program=program, **ws)
    return auto.Stack.select(name, w)


def op_case(case):
    """One of up/preview/refresh/destroy with options."""
    op, opts, ws, name, extra = case["op"], case["opts"], case.get("ws", {}), case.get("name", "dev"), case.get("extra", {})
    env = Env(case.get("answers"))
    try:
        lines, evs = [], []
        opts0 = copy.deepcopy(opts)

        def main():
            st = make_stack(env, ws, name)
            n = len(env.calls)
            kw = dict(copy.deepcopy(opts))
            if extra.get("out"):
                kw["on_output"] = lines.append
            if extra.get("events"):
                kw["on_event"] = evs.append
            if "show_secrets" in extra:
                kw["show_secrets"] = extra["show_secrets"]
            mine = {k: v for k, v in kw.items() if k in opts}
            r = attempt(lambda: getattr(st, op)(**kw))
            if mine != opts0:
                return r, n, "the operation changed its arguments"
            return r, n, None

        with_env = env.run(main)
        (res, exc), n, chg = with_env
        bad = [chg] if chg else []
        if exc is not None:
            bad.append(f"{op} raises {type(exc).__name__}: {str(exc)[:150]}")
        else:
            bad += result_of(op, res)
        want = [(*expect_main(op, opts, ws, name, events=extra.get("events")), True)] + followups(op, name, extra.get("show_secrets", True))
        bad += check_calls(env.calls[n:], want, ws, env.work, op)
        if extra.get("out") and lines != ["Updating (dev)", "", "  done"]:
            bad.append(f"{op}: on_output got {lines!r}")
        if extra.get("events") and len(evs) != 2:
            bad.append(f"{op}: {len(evs)} events")
        if env.left():
            bad.append(f"{op}: temporary files left")
        if env.late:
            bad.append(f"{op}: threads left")
        return bad
    finally:
        env.close()


# ---- every other operation

def T(d):
    return None if d is None else ts(d)


def cv(v, s):
    from pulumi.automation import ConfigValue

    return ConfigValue(value=v, secret=s)


def plain_cfg(m):
    return {k: (v.value, v.secret) for k, v in m.items()}


def sm(x):
    return None if x is None else {k: getattr(x, k) for k in ("name", "current", "update_in_progress", "last_update", "resource_count", "url")}


def sm_want(j):
    return {"name": j["name"], "current": j["current"], "update_in_progress": j["updateInProgress"], "last_update": T(j.get("lastUpdate")), "resource_count": j.get("resourceCount"), "url": j.get("url")}


def pl(x):
    return {k: getattr(x, k) for k in ("name", "kind", "size", "last_used_time", "install_time", "version")}


def pl_want(j):
    return {"name": j["name"], "kind": j["kind"], "size": j["size"], "last_used_time": T(j.get("lastUsedTime")), "install_time": T(j.get("installTime")), "version": j.get("version")}


STATE = {"version": 3, "deployment": {"manifest": {"time": TIME, "magic": "\u00e9", "n": None}, "resources": [{"urn": "u", "inputs": {"a": [1, 2.5, True, ""]}}]}}
OUTS = {"plain": 1, "sec": {"a": ["x", None]}, "null": None, "text": "t", "list": [1, [2]], "ss": "s"}
MASKED = {**OUTS, "sec": "[secret]", "ss": "[secret]"}
CFG = {"p:k": {"value": "v", "secret": False}, "p:s": {"value": "w", "secret": True}, "p:o": {"value": '{"a":1}', "objectValue": {"a": 1}, "secret": False}}


def simple_ops():
    """name -> (arguments, call, commands, answers, what the result must be)."""
    def stackop(f):
        return f

    R = {}
    S = lambda name, **kw: {"stack": [name], "non-interactive": [True], **kw}
    NI = {"non-interactive": [True]}

    def get_config(st, ws, n, via, key="p:k"):
        return plain_cfg({"x": (st.get_config(key) if via == "stack" else ws.get_config(n, key))})["x"]

    R["get_config"] = (get_config, lambda n, key="p:k": [(["config", "get", key], S(n, json=[True]), False)], {"config get": (0, '{\n  "value": "va\\u00e9",\n  "secret": true\n}\n', "")}, ("va\u00e9", True))
    R["get_all_config"] = (lambda st, ws, n, via: plain_cfg(st.get_all_config() if via == "stack" else ws.get_all_config(n)), lambda n: [(["config"], S(n, json=[True], **{"show-secrets": [True]}), False)],
                           {"config": (0, json.dumps(CFG, indent=2), "warning: w\n")}, {k: (v["value"], v["secret"]) for k, v in CFG.items()})

    def set_config(st, ws, n, via, key="p:k", value="v", secret=False):
        v = cv(value, secret)
        return st.set_config(key, v) if via == "stack" else ws.set_config(n, key, v)

    R["set_config"] = (set_config, lambda n, key="p:k", value="v", secret=False: [(["config", "set", key, value], S(n, **{"secret" if secret else "plaintext": [True]}), False)], {}, None)

    def set_all(st, ws, n, via, cfg=None):
        m = {k: cv(v, s) for k, v, s in cfg}
        before = plain_cfg(m)
        r = st.set_all_config(m) if via == "stack" else ws.set_all_config(n, m)
        return r if plain_cfg(m) == before else "the map was changed"

    def set_all_cmd(n, cfg=None):
        fl = S(n)
        for k, v, s in cfg:
            fl.setdefault("secret" if s else "plaintext", []).append(f"{k}={v}")
        return [(["config", "set-all"], fl, False)]

    R["set_all_config"] = (set_all, set_all_cmd, {}, None)
    R["remove_config"] = (lambda st, ws, n, via, key="p:k": st.remove_config(key) if via == "stack" else ws.remove_config(n, key), lambda n, key="p:k": [(["config", "rm", key], S(n), False)], {}, None)
    R["remove_all_config"] = (lambda st, ws, n, via, keys=(): st.remove_all_config(list(keys)) if via == "stack" else ws.remove_all_config(n, list(keys)), lambda n, keys=(): [(["config", "rm-all", *keys], S(n), False)], {}, None)
    R["refresh_config"] = (lambda st, ws, n, via: st.refresh_config() if via == "stack" else ws.refresh_config(n), lambda n: [(["config", "refresh"], S(n, force=[True]), False), (["config"], S(n, json=[True], **{"show-secrets": [True]}), False)], {}, None)
    R["who_am_i"] = (lambda st, ws, n, via: ws.who_am_i().user, lambda n: [(["whoami"], NI, False)], {"whoami": (0, "m\u00e9-1\n", "")}, "m\u00e9-1")
    R["create_stack"] = (lambda st, ws, n, via: ws.create_stack(n), lambda n: [(["stack", "init", n], NI, False)], {}, None)
    R["select_stack"] = (lambda st, ws, n, via: ws.select_stack(n), lambda n: [(["stack", "select", n], NI, False)], {}, None)
    R["remove_stack"] = (lambda st, ws, n, via: ws.remove_stack(n), lambda n: [(["stack", "rm", n], {**NI, "yes": [True]}, False)], {}, None)
    R["list_stacks"] = (lambda st, ws, n, via: [sm(x) for x in ws.list_stacks()], lambda n: [(["stack", "ls"], {**NI, "json": [True]}, False)], None, None)
    R["stack"] = (lambda st, ws, n, via: sm(ws.stack()), lambda n: [(["stack", "ls"], {**NI, "json": [True]}, False)], None, None)
    R["install_plugin"] = (lambda st, ws, n, via, **k: ws.install_plugin(**k), lambda n, name="aws", version="v1", kind="resource": [(["plugin", "install", kind, name, version], NI, False)], {}, None)
    R["remove_plugin"] = (lambda st, ws, n, via, **k: ws.remove_plugin(**k), lambda n, name=None, version_range=None, kind="resource": [(["plugin", "rm", kind, *[x for x in (name, version_range) if x]], {**NI, "yes": [True]}, False)], {}, None)
    R["list_plugins"] = (lambda st, ws, n, via: [pl(x) for x in ws.list_plugins()], lambda n: [(["plugin", "ls"], {**NI, "json": [True]}, False)], None, None)
    R["export_stack"] = (lambda st, ws, n, via: vars(st.export_stack() if via == "stack" else ws.export_stack(n)), lambda n: [(["stack", "export"], S(n, **{"show-secrets": [True]}), False)], {"stack export": (0, json.dumps(STATE, indent=4) + "\n", "")}, STATE)

    def imp(st, ws, n, via, state=None):
        from pulumi.automation import Deployment

        d = Deployment(**copy.deepcopy(state or STATE))
        r = st.import_stack(d) if via == "stack" else ws.import_stack(n, d)
        return r if vars(d) == (state or STATE) else "the state was changed"

    R["import_stack"] = (imp, lambda n, state=None: [(["stack", "import"], S(n, file=["*"]), False)], {}, None)
    R["outputs"] = (lambda st, ws, n, via: plain_cfg(st.outputs() if via == "stack" else ws.stack_outputs(n)), lambda n: [(["stack", "output"], S(n, json=[True]), False), (["stack", "output"], S(n, json=[True], **{"show-secrets": [True]}), False)],
                    None, {k: (v, MASKED[k] == "[secret]") for k, v in OUTS.items()})
    R["cancel"] = (lambda st, ws, n, via: st.cancel(), lambda n: [(["cancel"], S(n, yes=[True]), True)], {}, None)

    def hist_cmd(n, page_size=None, page=None, show_secrets=True):
        fl = S(n, json=[True])
        if show_secrets:
            fl["show-secrets"] = [True]
        if page_size is not None:
            fl["page-size"] = [str(page_size)]
            fl["page"] = [str(1 if page is None else page)]
        return [(["stack", "history"], fl, True)]

    R["history"] = (lambda st, ws, n, via, **k: history_bad([HIST], st.history(**k)), hist_cmd, {}, [])
    R["info"] = (lambda st, ws, n, via, **k: history_bad([HIST], [st.info(**k)]), lambda n, show_secrets=True: hist_cmd(n, 1, None, show_secrets), {}, [])
    return R


class OutsCLI(CLI):
    def default(self, k, flags):
        if k == "stack output":
            return json.dumps(OUTS if "show-secrets" in flags else MASKED, indent=2) + "\n"
        return super().default(k, flags)


VIA_STACK = {"get_config", "get_all_config", "set_config", "set_all_config", "remove_config", "remove_all_config", "refresh_config", "export_stack", "import_stack", "outputs"}
NAMES = ["dev", "org/proj/dev", "a.b-c_d"]
WS = [{}, {"env_vars": {"A": "1", "MC21_AMBIENT": "over", "PULUMI_CONFIG_PASSPHRASE": "p q\n"}}, {"pulumi_home": "/home/x y"}, {"pulumi_home": "/h", "env_vars": {"PULUMI_HOME": "/other", "PULUMI_DEBUG_COMMANDS": "false"}}, {"env_vars": {}, "secrets_provider": "awskms://k?a=b"}]


def params(op):
    if op == "set_config":
        return [{"key": k, "value": v, "secret": s} for k in ("p:k", "k") for v in WORDS + ["", "-", "0"] for s in (False, True)]
    if op == "set_all_config":
        one = [[[f"k{i}", v, s]] for i, v in enumerate(WORDS + [""]) for s in (False, True)]
        two = [[["a", v, s], ["b", w, t]] for v in ("", "-x", "c=d") for w in ("l1\nl2", "--secret") for s in (False, True) for t in (False, True)]
        return [{"cfg": []}] + [{"cfg": c} for c in one + two] + [{"cfg": [["a", "1", True], ["b", "2", False], ["c", "3", True], ["d", "4", False]]}]
    if op in ("get_config", "remove_config"):
        return [{}, {"key": "k"}, {"key": "aws:a b"}]
    if op == "remove_all_config":
        return [{"keys": k} for k in ([], ["a"], ["p:a", "b c", "p:d"])]
    if op == "install_plugin":
        return [{"name": "aws", "version": "v4.0.0"}, {"name": "x", "version": "1.0.0-a.1+b", "kind": "language"}]
    if op == "remove_plugin":
        return [{}, {"name": "aws"}, {"name": "aws", "version_range": ">=1.0.0 <2"}, {"kind": "analyzer"}, {"name": "n", "version_range": "1", "kind": "language"}]
    if op == "history":
        return [{"page_size": s, "page": p, "show_secrets": x} for s in (None, 0, 1, 10) for p in ((None, 0, 1, 7) if s is not None else (None,)) for x in (True, False)] + [{}]
    if op == "info":
        return [{}, {"show_secrets": False}, {"show_secrets": True}]
    if op == "import_stack":
        return [{}, {"state": {"version": None, "deployment": None}}, {"state": {"version": 1, "deployment": {"k\u20ac": ["\u2028", "\U0001f600"]}}}]
    return [{}]


def listing(case):
    """The shape of a listing in a case: (answers, expected result) or None."""
    k = case.get("list")
    if k is None:
        return None
    if case["op"] == "list_stacks":
        return {"stack ls": (0, json.dumps(k, indent=2) + "\n", "")}, [sm_want(j) for j in k]
    if case["op"] == "stack":
        return {"stack ls": (0, json.dumps(k), "")}, next((sm_want(j) for j in k if j["current"]), None)
    if case["op"] == "list_plugins":
        return {"plugin ls": (0, json.dumps(k, indent=2), "")}, [pl_want(j) for j in k]
    raise core.HarnessError(case["op"])


def stack_listings():
    opt = {"lastUpdate": TIME, "resourceCount": 0, "url": "https://x/y"}
    out = [[]]
    rows = []
    for r in range(4):
        for c in itertools.combinations(opt, r):
            for up in (False, True):
                rows.append({"name": "s", "current": False, "updateInProgress": up, **{k: opt[k] for k in c}})
    for r in rows:
        for cur in (False, True):
            out.append([{**r, "current": cur}])
    for i in range(3):
        for cur in (None, 0, 1, 2):
            out.append([{**rows[(5 * i + 3 * j) % len(rows)], "name": f"s{j}", "current": j == cur, "resourceCount": j} for j in range(3)])
    return out


def plugin_listings():
    opt = {"version": "1.2.3", "installTime": TIME, "lastUsedTime": "2022-12-31T23:59:59.999Z"}
    rows = [{"name": "aws", "kind": "resource", "size": sz, **{k: opt[k] for k in c}} for r in range(4) for c in itertools.combinations(opt, r) for sz in (0, 10 ** 10)]
    return [[]] + [[r] for r in rows] + [[rows[i], {**rows[(i * 3 + 1) % len(rows)], "name": "gcp"}] for i in range(len(rows))]


def simple_case(case):
    op, kw, ws, name, via = case["op"], case.get("kw", {}), case.get("ws", {}), case.get("name", "dev"), case.get("via", "ws")
    f, cmds, answers, want = simple_ops()[op]
    li = listing(case)
    if li:
        answers, want = li
    env = Env()
    env.cli = OutsCLI(answers)
    try:
        def main():
            st = make_stack(env, ws, name)
            n = len(env.calls)
            kw0 = copy.deepcopy(kw)
            r = attempt(lambda: f(st, st.workspace, name, via, **kw))
            return r, n, kw != kw0

        (res, exc), n, changed = env.run(main)
        bad = ["the arguments were changed"] if changed else []
        if exc is not None:
            bad.append(f"{op} raises {type(exc).__name__}: {str(exc)[:150]}")
        elif not strict(res, want):
            bad.append(f"{op} gives {res!r}, expected {want!r}")
        c = cmds(name, **kw)
        if op == "create_stack" and ws.get("secrets_provider"):
            c[0][1]["secrets-provider"] = [ws["secrets_provider"]]
        bad += check_calls(env.calls[n:], c, ws, env.work, op)
        if op == "import_stack" and env.calls[n:] and env.calls[n].get("file") != (kw.get("state") or STATE):
            bad.append(f"the file imported holds {env.calls[n].get('file')!r}")
        if env.left():
            bad.append(f"{op}: temporary files left")
        return bad
    finally:
        env.close()


def strict(a, b):
    if type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict, a, b))
    return a == b


# ---- shapes of results


def histories():
    opt = {"endTime": TIME, "resourceChanges": {"create": 1, "same": 2}, "version": 7}
    base = {"kind": "update", "startTime": TIME, "message": "", "environment": {}, "result": "in-progress"}
    cfgs = [{}, {"p:k": {"value": "", "secret": False}}, {"p:k": {"secret": True}}, {"p:k": {"value": "v", "secret": True}, "q:l": {"value": '{"a":1}', "objectValue": {"a": 1}, "secret": False}}]
    rows = [{**base, "config": cfg, **{k: opt[k] for k in c}} for r in range(4) for c in itertools.combinations(opt, r) for cfg in cfgs]
    out = [[]] + [[r] for r in rows]
    out += [[rows[i], {**rows[(7 * i + 3) % len(rows)], "kind": "destroy", "message": "m\u00e9\nn", "environment": {"exec.kind": "auto.local"}, "result": "failed"}, rows[(5 * i + 1) % len(rows)]] for i in range(len(rows))]
    return out


def shape_case(case):
    """history and the summaries of operations over what the history command answers."""
    js = case["history"]
    env = Env({"stack history": (0, json.dumps(js, indent=2) + "\n", "")})
    bad = []
    try:
        def main():
            st = make_stack(env, {}, "dev")
            return attempt(st.history), attempt(st.info), attempt(st.refresh) if js else None

        h, i, r = env.run(main)
        for what, x in (("history", h), ("info", i), ("refresh", r)):
            if x is None:
                continue
            res, exc = x
            if exc is not None:
                bad.append(f"{what} raises {type(exc).__name__}: {exc}")
            elif what == "history":
                bad += history_bad(js, res)
            elif what == "info":
                bad += history_bad(js[:1], [res] if res is not None else [])
            else:
                bad += history_bad(js[:1], [res.summary])
        return bad
    finally:
        env.close()


VALUES = [None, True, False, 0, 1, -1.5, 10 ** 18, "", "x", "[secret", "\u00e9\u2028", "l1\nl2 ", [], [None], ["[secret]"], {}, {"a": {"b": [1, "[secret]"]}}, {"secret": True}]


def outs_case(case):
    vals, secs = case["values"], case["secret"]
    full = {f"k{i}": v for i, v in enumerate(vals)}
    masked = {k: "[secret]" if s else v for (k, v), s in zip(full.items(), secs)}
    env = Env()

    class C(CLI):
        def default(self, k, flags):
            if k == "stack output":
                return json.dumps(full if "show-secrets" in flags else masked, indent=case.get("indent")) + "\n"
            return super().default(k, flags)

    env.cli = C()
    try:
        def main():
            st = make_stack(env, {}, "dev")
            return attempt(st.outputs), attempt(st.up)

        o, u = env.run(main)
        bad = []
        want = {k: (v, s) for (k, v), s in zip(full.items(), secs)}
        for what, (res, exc) in (("outputs", o), ("up", u)):
            if exc is not None:
                bad.append(f"{what} raises {type(exc).__name__}: {exc}")
                continue
            got = plain_cfg(res if what == "outputs" else res.outputs)
            if not strict(got, want):
                bad.append(f"{what}: outputs are {got!r}, expected {want!r}")
        return bad
    finally:
        env.close()


# ---- failures

ERR = [  # (name, code, stdout, stderr, class)
    ("other", 255, "", "error: something else\n", "CommandError"),
    ("quiet", 1, "", "", "CommandError"),
    ("signal", -9, "Updating\n", "", "CommandError"),
    ("notfound", 255, "", "error: no stack named 'dev' found\n", "StackNotFoundError"),
    ("notfound2", 255, "", "warning: w\nerror: no stack named 'org/proj/dev' found, it may have been renamed\n", "StackNotFoundError"),
    ("exists", 255, "", "warning: w\nerror: stack 'dev' already exists\n", "StackAlreadyExistsError"),
    ("conflict", 255, "Updating (dev)\n", "error: [409] Conflict: Another update is currently in progress.\nTo learn more\n", "ConcurrentUpdateError"),
    ("compile-ts", 1, "error: Running program failed with an unhandled exception:\n  TSError: \u2a2f Unable to compile TypeScript:\n index.ts(1,1)\n", "", "CompilationError"),
    ("compile-net", 1, "  Build FAILED.\n", "", "CompilationError"),
    ("compile-go", 1, "./main.go:6:2: syntax error: unexpected\n", "", "CompilationError"),
    ("compile-go2", 1, "./main.go:6:2: undefined: x\n", "x", "CompilationError"),
    ("inline", 1, "error: python inline source runtime error: boom\n Traceback\n", "", "InlineSourceRuntimeError"),
    ("runtime-node", 255, "error: Running program 'x' failed with an unhandled exception:\n", "", "RuntimeError"),
    ("runtime-go", 2, "panic: runtime error: index out of range\n", "", "RuntimeError"),
    ("runtime-py", 1, "error: an unhandled error occurred: Program exited\n", "warning\n", "RuntimeError"),
    ("stdout-exists", 1, "error: stack 'dev' already exists\n no stack named 'x' found", "", "CommandError"),
]
ERRS = {e[0]: e for e in ERR}
STARTS = {"missing": FileNotFoundError, "denied": PermissionError}

MAIN = {"up": ["up", "stack output", "stack output", "stack history"], "preview": ["preview"], "refresh": ["refresh", "stack history"], "destroy": ["destroy", "stack history"]}


def fail_answer(kind):
    if kind in STARTS:
        return kind
    _, code, out, err, _ = ERRS[kind]
    return [code, out, err]


def error_bad(kind, exc, what):
    from pulumi.automation import errors

    if exc is None:
        return [f"{what}: the command failed ({kind}) and nothing is raised"]
    if kind in STARTS:
        return [] if isinstance(exc, STARTS[kind]) else [f"{what}: the CLI cannot be started and {type(exc).__name__} is raised"]
    _, code, out, err, cls = ERRS[kind]
    bad = []
    if type(exc) is not getattr(errors, cls) or not isinstance(exc, errors.CommandError):
        bad.append(f"{what}: {type(exc).__name__} is raised for {kind}, expected {cls}: {str(exc)[:100]}")
    else:
        if getattr(exc, "name", None) != cls:
            bad.append(f"{what}: the error's name is {getattr(exc, 'name', None)}")
        text = str(exc)
        for part in [str(code), *out.splitlines(), *err.splitlines()]:
            if part.strip() and part.strip() not in text:
                bad.append(f"{what}: the error does not say {part.strip()!r}")
    return bad


def fail_case(case):
    """One command of one operation fails."""
    op, nth, kind, extra = case["op"], case["nth"], case["fail"], case.get("extra", {})
    if op in MAIN:
        cmds = MAIN[op]
    else:
        f, c, answers, want = simple_ops()[op]
        cmds = [" ".join(x[0][:2]) if x[0][0] in ("stack", "config", "plugin") else x[0][0] for x in c("dev", **case.get("kw", {}))]
    key = cmds[nth]
    inst = cmds[: nth + 1].count(key)
    if key == "config set-all" or key == "config set" or key == "config rm-all":
        pass
    env = Env({})
    env.cli = OutsCLI({})
    try:
        def main():
            st = make_stack(env, {}, "dev")
            n = len(env.calls)
            env.cli.seen = {}
            env.cli.answers = {f"{key}#{inst}": fail_answer(kind)}
            if op in MAIN:
                kw = {}
                if extra.get("events"):
                    kw["on_event"] = lambda e: None
                if extra.get("out"):
                    kw["on_output"] = lambda l: None
                r = attempt(lambda: getattr(st, op)(**kw))
            else:
                r = attempt(lambda: f(st, st.workspace, "dev", case.get("via", "ws"), **case.get("kw", {})))
            return r, n

        (res, exc), n = env.run(main)
        what = f"{op}, {key}"
        bad = error_bad(kind, exc, what)
        ran = [c["key"] for c in env.calls[n:]]
        # which of two reading commands comes first is the SDK's choice
        if len(ran) > len(cmds) or sorted(ran) != sorted(cmds[: len(ran)]) or len(ran) < 1 or cmds[0] != ran[0]:
            bad.append(f"{what}: commands run: {ran}")
        if ran and ran[-1] != key:
            bad.append(f"{what}: {ran[-1]} is run after {key} failed")
        if env.left():
            bad.append(f"{what}: temporary files left: {len(env.left())}")
        if env.late:
            bad.append(f"{what}: threads left")
        return bad
    finally:
        env.close()


# ---- versions

VERSIONS = ["v3.44.1", "3.1.0", "v3.1.0", "3.0.9", "v2.99.99", "4.0.0", "v3.1.0-alpha.1", "3.1.1-dev.5+dirty", "v3.44.1-dirty", "3.1.0+build", "10.0.0", "3", "v", "", "dev", "v3.x.1", "vv3.4.5"]


def version_want(v):
    import re

    t = v[1:] if v.startswith("v") else v
    m = re.fullmatch(r"(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-[0-9A-Za-z.-]+)?(\+[0-9A-Za-z.-]+)?", t)
    if not m:
        return None, False
    n = tuple(int(x) for x in m.groups()[:3])
    ok = n[0] == 3 and (n > (3, 1, 0) or n == (3, 1, 0) and not m.group(4))
    return t, ok


def version_case(case):
    from pulumi import automation as auto
    from pulumi.automation.errors import InvalidVersionError

    env = Env({"version": (0, case["version"] + "\n", "")})
    var = "PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"
    saved = os.environ.pop(var, None)
    if case["out"] == "ambient":
        os.environ[var] = "true"
    try:
        def main():
            return attempt(lambda: auto.LocalWorkspace(work_dir=env.work, env_vars={var: "1"} if case["out"] == "env_vars" else None))

        ws, exc = env.run(main)
        t, ok = version_want(case["version"])
        opt = case["out"] is not None
        if opt or ok:
            if exc is not None:
                return [f"version {case['version']!r}: {type(exc).__name__}: {exc}"]
            got, exc = attempt(lambda: ws.pulumi_version)
            if t is None:
                return [] if isinstance(exc, InvalidVersionError) else [f"version {case['version']!r}: pulumi_version is {got!r} ({exc})"]
            return [] if got == t else [f"version {case['version']!r}: pulumi_version is {got!r} ({exc})"]
        return [] if isinstance(exc, InvalidVersionError) else [f"version {case['version']!r} is accepted ({type(exc).__name__})"]
    finally:
        os.environ.pop(var, None)
        if saved is not None:
            os.environ[var] = saved
        env.close()


# ---- stack creation

FLAGS_NI = {"non-interactive": [True]}


def init_case(case):
    """mode x outcome of init x outcome of select, through Stack and through the helper functions."""
    from pulumi import automation as auto

    mode, how, oi, osel = case["mode"], case["how"], case["init"], case["select"]
    name = case.get("name", "dev")
    present = case.get("opts", {})
    answers = {}
    if oi:
        answers["stack init"] = fail_answer(oi)
    if osel:
        answers["stack select"] = fail_answer(osel)
    env = Env(answers)
    bad = []
    try:
        def prog():
            pass

        def other():
            pass

        # what may be there
        if case.get("project_file"):
            with open(os.path.join(env.work, "Pulumi.yaml"), "w", encoding="utf-8") as f:
                f.write("name: there\nruntime: go\n")
        vals = {"work_dir": env.work, "pulumi_home": "/h h", "program": other, "env_vars": {"A": "b"}, "secrets_provider": "passphrase", "project_settings": auto.ProjectSettings(name="given", runtime="python", author="a"), "stack_settings": {name: auto.StackSettings(encryption_salt="salt"), "o/p/q": auto.StackSettings(config={"a": "b"})}}
        rounds = case.get("rounds", 1)

        def main():
            out = []
            opts = None
            if how != "stack":
                opts = auto.LocalWorkspaceOptions(**{k: vals[k] for k in present}) if present or case.get("empty_opts") else None
            before = dict(vars(opts)) if opts is not None else None
            for r in range(rounds):
                n = len(env.calls)
                if how == "stack":
                    ws = auto.LocalWorkspace(work_dir=env.work, **{k: vals[k] for k in present if k != "work_dir"})
                    n = len(env.calls) - 1
                    res = attempt(lambda: getattr(auto.Stack, mode)(name, ws))
                else:
                    fn = {"create": auto.create_stack, "select": auto.select_stack, "create_or_select": auto.create_or_select_stack}[mode]
                    kw = {"opts": opts} if opts is not None else {}
                    if how == "inline":
                        kw.update(program=prog, project_name=f"proj{r}")
                    elif how == "both":
                        kw.update(program=prog, project_name=f"proj{r}", work_dir=os.path.join(env.scratch, "none"))
                    else:
                        kw.update(work_dir=env.work)
                        if how == "local-extra":
                            kw.update(project_name="ignored")
                    res = attempt(lambda: fn(name, **kw))
                out.append((res, n, len(env.calls)))
                if opts is not None and (vars(opts).keys() != before.keys() or any(vars(opts)[k] is not before[k] for k in before)):
                    bad.append(f"{how}: the caller's options were changed: {[k for k in vars(opts) if vars(opts)[k] is not before.get(k)]}")
                # what the workspace directory holds then
                st = res[0]
                if st is not None:
                    w = st.workspace
                    ps = attempt(lambda: w.project_settings())
                    out[-1] += ((ps[0].name, ps[0].runtime, ps[0].author) if ps[0] is not None else None, sorted(os.listdir(w.work_dir)))
            return out

        for r, (res, n, m, *rest) in enumerate(env.run(main)):
            st, exc = res
            inline = how in ("inline", "both")
            fails = None
            cmds = [(["version"], FLAGS_NI, False)]
            secret = {"secrets-provider": ["passphrase"]} if "secrets_provider" in present else {}
            if mode in ("create", "create_or_select"):
                cmds.append((["stack", "init", name], {**FLAGS_NI, **secret}, False))
                fails = oi
            if mode == "select" or mode == "create_or_select" and oi == "exists":
                cmds.append((["stack", "select", name], FLAGS_NI, False))
                fails = osel
            if fails:
                bad += error_bad(fails, exc, f"{how} {mode}")
            elif exc is not None:
                bad.append(f"{how} {mode}: {type(exc).__name__}: {str(exc)[:150]}")
            # directory
            wd = env.work if how in ("stack", "local", "local-extra") or "work_dir" in present else None
            calls = env.calls[n:m]
            if wd is None:
                dirs = {os.path.realpath(c["cwd"]) for c in calls}
                if len(dirs) != 1 or not next(iter(dirs)).startswith(os.path.realpath(env.tmp) + os.sep) or os.path.basename(next(iter(dirs))) in [os.path.basename(x) for x in env.__dict__.setdefault("dirs", [])]:
                    bad.append(f"{how}: run in {dirs}")
                wd = next(iter(dirs), env.tmp)
                env.dirs.append(wd)
            w = {k: vals[k] for k in present if k in ("pulumi_home", "env_vars")}
            bad += check_calls(calls, cmds, w, wd, f"{how} {mode}")
            if st is None:
                continue
            ws = st.workspace
            if st.name != name:
                bad.append(f"the stack's name is {st.name}")
            wantp = prog if inline else vals["program"] if "program" in present else None
            if ws.program is not wantp:
                bad.append(f"{how}: the program is {ws.program}")
            for k in ("pulumi_home", "secrets_provider"):
                if getattr(ws, k) != (vals[k] if k in present else None):
                    bad.append(f"{how}: {k} is {getattr(ws, k)}")
            if dict(ws.env_vars) != (vals["env_vars"] if "env_vars" in present else {}):
                bad.append(f"{how}: env_vars is {ws.env_vars}")
            ps, files = rest
            if "project_settings" in present:
                want = ("given", "python", "a")
            elif case.get("project_file") and wd == env.work:
                want = ("there", "go", None)
            elif inline:
                # the first project's settings stay in a directory used again
                want = ("proj0" if "work_dir" in present else f"proj{r}", "python", None)
            else:
                want = None
            if ps != want:
                bad.append(f"{how}: the project is {ps}, expected {want}")
            wf = (["Pulumi.yaml"] if want else []) + ([f"Pulumi.{name.split('/')[-1]}.yaml", "Pulumi.q.yaml"] if "stack_settings" in present else [])
            if files != sorted(wf):
                bad.append(f"{how}: the files are {files}, expected {sorted(wf)}")
        return bad
    finally:
        env.close()


def repo_case(case):
    """Arguments that fit no way of finding a program are refused before anything runs."""
    from pulumi import automation as auto

    env = Env()
    try:
        fn = {"create": auto.create_stack, "select": auto.select_stack, "create_or_select": auto.create_or_select_stack}[case["mode"]]
        kw = {k: {"program": lambda: None, "project_name": "p"}[k] for k in case["given"]}
        if case["optsdir"]:
            kw["opts"] = auto.LocalWorkspaceOptions(work_dir=env.work)
        r, exc = env.run(lambda: attempt(lambda: fn("dev", **kw)))
        bad = []
        if exc is None:
            bad.append(f"create with {case} gives {r}")
        if env.calls:
            bad.append(f"{case} runs {env.calls[0]['argv']}")
        return bad
    finally:
        env.close()


# ---- pairs of operations


def ops_for_pairs():
    out = [["main", op, o, ev] for op in OPOPTS for o in ({}, {k: DEF[OPTS[k][1]] for k in OPOPTS[op]}) for ev in (False, True)]
    out += [["simple", n, (params(n)[-1] if n not in ("import_stack",) else {})] for n in simple_ops()]
    return out


def do(st, op):
    if op[0] == "main":
        kw = copy.deepcopy(op[2])
        if op[3]:
            kw["on_event"] = lambda e: None
        return getattr(st, op[1])(**kw)
    return simple_ops()[op[1]][0](st, st.workspace, st.name, "stack" if op[1] in VIA_STACK else "ws", **copy.deepcopy(op[2]))


def want_cmds(op, name):
    if op[0] == "main":
        return [(*expect_main(op[1], op[2], {}, name, events=op[3]), True)] + followups(op[1], name)
    return simple_ops()[op[1]][1](name, **op[2])


def seq_case(case):
    """Operations one after another on one stack (some failing), with the workspace's environment changed in between."""
    env = Env({})
    env.cli = OutsCLI({})
    bad = []
    try:
        def main():
            st = make_stack(env, {"env_vars": {"A": "1"}}, "dev")
            for i, (op, fails) in enumerate(case["ops"]):
                if i and case.get("change"):
                    st.workspace.env_vars = {"B": str(i)}
                    if i == 1:
                        st.workspace.pulumi_home = "/later"
                ws = {"env_vars": dict(st.workspace.env_vars), "pulumi_home": st.workspace.pulumi_home}
                n = len(env.calls)
                env.cli.seen = {}
                w = want_cmds(op, "dev")
                first = " ".join(w[0][0][:2]) if w[0][0][0] in ("stack", "config", "plugin") else w[0][0][0]
                env.cli.answers = {first: fail_answer(fails)} if fails else {}
                res, exc = attempt(lambda: do(st, op))
                if fails:
                    bad.extend(error_bad(fails, exc, f"{i}: {op[1]}"))
                    w = w[:1]
                elif exc is not None and not (op[1] in ("list_stacks",) and False):
                    bad.append(f"{i}: {op[1]} raises {type(exc).__name__}: {str(exc)[:120]}")
                elif op[0] == "main":
                    saved = OUTS
                    if op[1] == "up":
                        got = plain_cfg(res.outputs)
                        if not strict(got, {k: (v, MASKED[k] == "[secret]") for k, v in saved.items()}):
                            bad.append(f"{i}: outputs {got!r}")
                    elif op[1] == "preview" and res.change_summary != {"create": 2}:
                        bad.append(f"{i}: change summary {res.change_summary!r}")
                bad.extend(check_calls(env.calls[n:], w, ws, env.work, f"{i}: {op[1]}"))
                if {"env_vars": dict(st.workspace.env_vars), "pulumi_home": st.workspace.pulumi_home} != ws or st.name != "dev":
                    bad.append(f"{i}: {op[1]} changes the workspace")

        env.run(main)
        if env.left():
            bad.append("temporary files left")
        if env.late:
            bad.append("threads left")
        return bad
    finally:
        env.close()


# ---- inline programs, over a real server


class _Monitor:
    """Enough of an engine to run an empty program against."""

    def __enter__(self):
        from concurrent import futures

        import grpc
        from google.protobuf import empty_pb2
        from pulumi.runtime.proto import engine_pb2, engine_pb2_grpc, resource_pb2, resource_pb2_grpc

        class M(resource_pb2_grpc.ResourceMonitorServicer):
            def SupportsFeature(self, request, context):
                return resource_pb2.SupportsFeatureResponse(hasSupport=False)

            def RegisterResource(self, request, context):
                return resource_pb2.RegisterResourceResponse(urn="urn:pulumi:s::p::" + request.type + "::" + request.name, object=request.object)

            def RegisterResourceOutputs(self, request, context):
                return empty_pb2.Empty()

        class E(engine_pb2_grpc.EngineServicer):
            def Log(self, request, context):
                return empty_pb2.Empty()

            def SetRootResource(self, request, context):
                return engine_pb2.SetRootResourceResponse()

            def GetRootResource(self, request, context):
                return engine_pb2.GetRootResourceResponse(urn="")

        self.server = grpc.server(futures.ThreadPoolExecutor(max_workers=2))
        resource_pb2_grpc.add_ResourceMonitorServicer_to_server(M(), self.server)
        engine_pb2_grpc.add_EngineServicer_to_server(E(), self.server)
        self.addr = f"127.0.0.1:{self.server.add_insecure_port('127.0.0.1:0')}"
        self.server.start()
        return self

    def __exit__(self, *a):
        self.server.stop(0).wait(5)


def is_open(addr):
    host, port = addr.rsplit(":", 1)
    s = socket.socket()
    s.settimeout(2)
    try:
        s.connect((host, int(port)))
        return True
    except OSError:
        return False
    finally:
        s.close()


def inline_case(case, monitor):
    """Operations with an inline program: which program is served, when, and that nothing stays."""
    import grpc
    from pulumi import automation as auto
    from pulumi.runtime.proto import language_pb2, language_pb2_grpc

    env = Env({}, real=True)
    bad, ran, addrs = [], [], []

    def prog(tag):
        def f():
            ran.append(tag)
        return f

    def on_main(addr):
        addrs.append(addr)
        if not is_open(addr):
            bad.append(f"nothing listens on --client={addr}")
            return
        if case.get("run", True):
            with grpc.insecure_channel(addr) as ch:
                stub = language_pb2_grpc.LanguageRuntimeStub(ch)
                r = stub.Run(language_pb2.RunRequest(project="p", stack="dev", monitor_address=monitor.addr, args=[monitor.addr], dryRun=False), timeout=30)
                if r.error:
                    bad.append(f"the program fails: {r.error[:150]}")

    try:
        def main():
            ws = auto.LocalWorkspace(work_dir=env.work, program=prog("ws") if case["ws_program"] else None)
            st = auto.Stack.select("dev", ws)
            env.cli.on_main = on_main
            for op, arg, fails, ev in case["ops"]:
                n = len(env.calls)
                ran.clear()
                addrs.clear()
                env.cli.seen = {}
                env.cli.answers = {op: fail_answer(fails)} if fails else {}
                kw = {}
                if arg:
                    kw["program"] = prog("arg")
                if ev:
                    kw["on_event"] = lambda e: None
                res, exc = attempt(lambda: getattr(st, op)(**kw))
                has = (arg or case["ws_program"]) and op in ("up", "preview")
                if fails:
                    bad.extend(error_bad(fails, exc, op))
                elif exc is not None:
                    bad.append(f"{op} raises {type(exc).__name__}: {str(exc)[:150]}")
                else:
                    bad.extend(result_of(op, res))
                inline = has or bool(case["ws_program"])
                pos, fl = expect_main(op, {}, {}, "dev", inline=inline, events=ev)
                if not has:
                    fl.pop("client", None)
                want = [(pos, fl, True)] + ([] if fails else followups(op, "dev"))
                bad.extend(check_calls(env.calls[n:], want, {}, env.work, op))
                started = bool(env.calls[n:]) and fails not in STARTS
                if has and started and case.get("run", True) and ran != ["arg" if arg else "ws"]:
                    bad.append(f"{op}: the programs run are {ran}")
                if not has and ran:
                    bad.append(f"{op}: ran {ran}")
                client = parse(env.calls[n]["argv"][1:])[1].get("client") if env.calls[n:] else None
                if client:
                    end = time.monotonic() + 8
                    while is_open(client[0]) and time.monotonic() < end:
                        time.sleep(0.01)
                    if is_open(client[0]):
                        bad.append(f"{op}: the server is still there after the operation")
                if env.left():
                    bad.append(f"{op}: temporary files left")

        env.run(main)
        return bad
    finally:
        env.close()


# ---- cases


def subsets(names, lo, hi):
    n = len(names)
    for r in range(n + 1):
        if r <= lo or r >= n - hi:
            yield from itertools.combinations(names, r)


def op_cases(op, tier):
    names = OPOPTS[op]
    i = 0
    lo, hi = (3, 2) if tier == "quick" else (5, 4)
    if op in ("refresh", "destroy"):
        lo = len(names)
    for c in subsets(names, lo, hi):
        i += 1
        yield {"k": "op", "op": op, "opts": {k: DEF[OPTS[k][1]] for k in c}, "ws": WS[i % len(WS)] if i % 3 == 0 else {}, "name": NAMES[i % len(NAMES)], "extra": {"out": i % 2 == 0, "events": i % 5 == 0, **({"show_secrets": i % 4 == 1} if op != "preview" else {})}}
    for o in names:
        kind = OPTS[o][1]
        if kind == "str":
            vals = WORDS
        elif kind == "list":
            vals = [[w] for w in WORDS] + [[], ["a", "a"], ["b", "a", "c"], WORDS] + [[a, b] for a in WORDS[:6] for b in WORDS[:6]]
        elif kind == "int":
            vals = [1, 2, 2147483647, 10 ** 6]
        else:
            vals = [False, None, True]
        for v in vals:
            yield {"k": "op", "op": op, "opts": {o: v}}
    # pairs of options with awkward values
    texts = [o for o in names if OPTS[o][1] in ("str", "list")]
    for a, b in itertools.combinations(texts, 2):
        for v, w in (("--yes", "-x"), ("--", "a=b"), ("", "x")):
            wrap = lambda o, x: [x] if OPTS[o][1] == "list" else x
            if v == "" and (a == "plan" or OPTS[a][1] == "list"):
                continue
            yield {"k": "op", "op": op, "opts": {a: wrap(a, v), b: wrap(b, w)}}
    for ws in WS:
        for name in NAMES:
            for ev in (False, True):
                for out in (False, True):
                    for ss in ((True, False) if op != "preview" else (None,)):
                        yield {"k": "op", "op": op, "opts": {}, "ws": ws, "name": name, "extra": {"out": out, "events": ev, **({} if ss is None else {"show_secrets": ss})}}


def simple_cases(tier):
    for op in simple_ops():
        lists = stack_listings() if op in ("list_stacks", "stack") else plugin_listings() if op == "list_plugins" else [None]
        for li in lists:
            for i, kw in enumerate(params(op)):
                for via in (("stack", "ws") if op in VIA_STACK else ("ws",)):
                    case = {"k": "simple", "op": op, "kw": kw, "via": via}
                    if li is not None:
                        case["list"] = li
                    yield case
        if op == "create_stack":
            for w in WORDS + ["azurekeyvault://V.net/Keys/K", "Default"]:
                yield {"k": "simple", "op": op, "ws": {"secrets_provider": w}}
        for ws in WS:
            for name in NAMES:
                for via in (("stack", "ws") if op in VIA_STACK else ("ws",)):
                    yield {"k": "simple", "op": op, "kw": params(op)[-1], "via": via, "ws": ws, "name": name, **({"list": lists[-1]} if lists[-1] is not None else {})}


def fail_cases(tier):
    kinds = [e[0] for e in ERR] + list(STARTS)
    for op in MAIN:
        for nth in range(len(MAIN[op])):
            for kind in kinds:
                for ev in (False, True):
                    for out in (False, True):
                        yield {"k": "fail", "op": op, "nth": nth, "fail": kind, "extra": {"events": ev, "out": out}}
    for op in simple_ops():
        kw = params(op)[-1] if op not in ("import_stack",) else {}
        n = len(simple_ops()[op][1]("dev", **kw))
        for nth in range(n):
            for kind in kinds:
                for via in (("stack", "ws") if op in VIA_STACK else ("ws",)):
                    yield {"k": "fail", "op": op, "nth": nth, "fail": kind, "kw": kw, "via": via}


def init_cases(tier):
    modes = ("create", "select", "create_or_select")
    outcomes = [None, "exists", "notfound", "other", "conflict", "stdout-exists", "missing", "signal"]
    for mode in modes:
        for oi in outcomes:
            for osel in outcomes:
                for how in ("stack", "local", "inline"):
                    yield {"k": "init", "mode": mode, "how": how, "init": oi, "select": osel, "name": NAMES[(outcomes.index(oi) + outcomes.index(osel)) % 3]}
    optn = ["work_dir", "pulumi_home", "program", "env_vars", "secrets_provider", "project_settings", "stack_settings"]
    for i, c in enumerate(subsets(optn, len(optn), 0)):
        for how in ("stack", "local", "local-extra", "inline", "both"):
            for pf in (False, True):
                for rounds in (1, 2):
                    if tier == "quick" and rounds == 2 and pf and i % 2:
                        continue
                    yield {"k": "init", "mode": modes[i % 3], "how": how, "init": None if i % 4 else "exists" if modes[i % 3] == "create_or_select" else None, "select": None, "opts": list(c), "project_file": pf, "rounds": rounds, "empty_opts": i % 2 == 0, "name": NAMES[i % 3]}
    for mode in modes:
        for given in ([], ["program"], ["project_name"]):
            for od in (False, True):
                yield {"k": "args", "mode": mode, "given": given, "optsdir": od}


def other_cases(tier):
    for v in VERSIONS:
        for out in (None, "ambient", "env_vars"):
            yield {"k": "version", "version": v, "out": out}
    for h in histories():
        yield {"k": "shape", "history": h}
    for v in VALUES:
        for s in (False, True):
            for ind in (None, 2):
                yield {"k": "outs", "values": [v], "secret": [s], "indent": ind}
    for a, b in itertools.product(VALUES, repeat=2):
        for s in itertools.product((False, True), repeat=2):
            yield {"k": "outs", "values": [a, b], "secret": list(s), "indent": 2}
    yield {"k": "outs", "values": [], "secret": []}


def seq_cases(i, tier):
    ops = ops_for_pairs()
    a = ops[i]
    for j, b in enumerate(ops):
        for f in (None, "other") if tier == "quick" else (None, "other", "missing", "conflict"):
            for ch in (False, True):
                yield {"k": "seq", "ops": [[a, f], [b, None]], "change": ch}
        if tier != "quick":
            for c in ops[:: 3]:
                yield {"k": "seq", "ops": [[a, None], [b, "conflict"], [c, None]], "change": True}


def inline_cases(tier):
    one = [[op, arg, f, ev] for op in OPOPTS for arg in ((False, True) if op in ("up", "preview") else (False,)) for f in (None, "inline", "missing") for ev in (False, True)]
    for w in (False, True):
        for o in one:
            yield {"k": "inline", "ws_program": w, "ops": [o]}
        pairs = [[op, arg, f, False] for op in OPOPTS for arg in ((False, True) if op in ("up", "preview") else (False,)) for f in (None, "other")]
        for a in pairs:
            for b in pairs:
                if b[2] is None or tier != "quick":
                    yield {"k": "inline", "ws_program": w, "ops": [a, b]}


def items(tier, seed):
    out = []
    for op in OPOPTS:
        n = 8 if op in ("up", "preview") else 4
        out += [["op", op, k, n, tier] for k in range(n)]
    out += [["simple", k, 4, tier] for k in range(4)] + [["fail", k, 4, tier] for k in range(4)] + [["init", k, 8, tier] for k in range(8)] + [["other", k, 4, tier] for k in range(4)] + [["inline", k, 8, tier] for k in range(8)]
    out += [["seq", i, tier] for i in range(len(ops_for_pairs()))]
    return out


RUN = {"op": op_case, "simple": simple_case, "fail": fail_case, "init": init_case, "args": repo_case, "version": version_case, "shape": shape_case, "outs": outs_case, "seq": seq_case}


def cases(item):
    kind, tier = item[0], item[-1]
    if kind == "op":
        return itertools.islice(op_cases(item[1], tier), item[2], None, item[3])
    if kind == "seq":
        return seq_cases(item[1], tier)
    gen = {"simple": simple_cases, "fail": fail_cases, "init": init_cases, "other": other_cases, "inline": inline_cases}[kind]
    return itertools.islice(gen(tier), item[1], None, item[2])


def run_case(c, monitor=None):
    environ = dict(os.environ)
    cwd = os.getcwd()
    if c["k"] == "inline":
        bad = inline_case(c, monitor)
    else:
        bad = RUN[c["k"]](c)
    if dict(os.environ) != environ:
        bad.append("the process environment was changed")
        os.environ.clear()
        os.environ.update(environ)
    if os.getcwd() != cwd:
        bad.append("the current directory was changed")
        os.chdir(cwd)
    return bad


def work(st, item):
    mon = _Monitor().__enter__() if item[0] == "inline" else None
    try:
        for c in cases(item):
            bad = run_case(c, mon)
            st.case(c, "ok" if not bad else bad[0][:60], transitions=len(c.get("ops", [])) + 1, sample=c if len(json.dumps(c)) < 500 else None)
            if bad:
                st.add_violation(f"{c['k']}:{c.get('op', '')}:{bad[0][:60]}", f"{json.dumps(c)[:500]}: {'; '.join(bad[:4])}", c)
    finally:
        if mon:
            mon.__exit__()


def replay(c):
    if c["k"] == "inline":
        with _Monitor() as m:
            return "; ".join(run_case(c, m)) or None
    return "; ".join(run_case(c)) or None
