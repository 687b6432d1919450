"""C20: project and stack settings survive a save and load unchanged."""
import itertools
import json
import os
import shutil
import tempfile

import yaml

from .. import autosim, core, report

LEVEL = "model_checking"
RULE = ("Every ProjectSettings over all subsets of the optional fields x runtimes x files already there, every text class in every text field, every template over its parts; every StackSettings over all subsets of fields x config shapes (all text classes, numbers, booleans, "
        "null, lists, objects, secure values); each saved by a real LocalWorkspace (by the constructor, by save_*), loaded again, and the file parsed on its own; the same settings in files written by another writer (YAML block and flow, JSON, unknown project keys) loaded, and saved again; "
        "and every sequence up to the bound of saves of two projects' and two stacks' settings, loads, and files appearing and disappearing under the three extensions, against a model: what is loaded is what was last saved, nothing else changes; states = distinct (settings, file, outcome).")
ASSUMPTIONS = ["config values are JSON-like; runtimes and fields are those the classes declare, other project keys are only passed on", "an absent part and an empty one are the same settings", "PyYAML is right"]

EXTS = [".yaml", ".yml", ".json"]
TEXTS = ["x", "yes", "null", "~", "123", "1.5", "1e3", "2022-01-01", "2022-01-01T00:00:00Z", "a: b", "- x", "l1\nl2", "l1\n\n  l2\n", " lead", "trail ", "#c", "a #b", "'", '"', "it's \"q\"", "!!str x", "{}", "[]", "*a", "&a", "0777", "0x1f", "0o17", "1_000",
         "12:30:45", "on", "NO", ".inf", ".NaN", "=", "<<", "?", "-", "---", "...", "%x", "@x", "`x", "|", ">", "a\tb", "\u0085", "\u2028x", "\u00e9\u20ac\U0001f600", "w " * 80, "\\n\\u0041", "${x}", "true", "\x7f", "\ufeffx", "a\r\nb", ","]


def norm(v):
    """Settings as plain data, with absent and empty parts left out."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def drop(d):
    return {k: v for k, v in d.items() if v is not None and v != "" and v != {} and v is not False}


def proj_plain(p):
    """What a ProjectSettings means."""
    rt = p.runtime if isinstance(p.runtime, str) else {"obj": type(p.runtime).__name__, **drop({"name": p.runtime.name, "options": norm(p.runtime.options)})}
    t = p.template
    if t is not None:
        t = {"obj": type(t).__name__, **drop({"description": t.description, "quickstart": t.quickstart, "important": t.important,
             "config": {k: {"obj": type(c).__name__, **drop({"description": c.description, "default": c.default, "secret": c.secret})} for k, c in (t.config or {}).items()}})}
    b = p.backend
    if b is not None:
        b = {"obj": type(b).__name__, **drop({"url": b.url})}
    return {"name": p.name, "runtime": rt, "template": t, "backend": b, **{k: getattr(p, k) or None for k in ("main", "description", "author", "website", "license", "config")}}


def strip_obj(v):
    if isinstance(v, dict):
        return {k: strip_obj(x) for k, x in v.items() if k != "obj"}
    return v


def proj_doc(plain):
    """The document of the project file."""
    return {k: v for k, v in strip_obj(plain).items() if v is not None}


def doc_norm(v):
    """A document without empty parts (the top level, templates and the like)."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            x = doc_norm(x)
            if x is None or x == "" or x is False:
                continue
            out[k] = x
        return out
    return v


def proj_norm(doc):
    d = doc_norm(doc)
    if isinstance(d.get("template"), dict) and d["template"].get("config") == {}:
        d["template"] = {k: v for k, v in d["template"].items() if k != "config"}
    if isinstance(d.get("runtime"), dict) and d["runtime"].get("options") == {}:
        d["runtime"] = {k: v for k, v in d["runtime"].items() if k != "options"}
    return d


def build_project(plain):
    from pulumi.automation import ProjectSettings
    from pulumi.automation._project_settings import ProjectBackend, ProjectRuntimeInfo, ProjectTemplate, ProjectTemplateConfigValue

    a = dict(plain)
    if isinstance(a["runtime"], dict):
        a["runtime"] = ProjectRuntimeInfo(**{k: v for k, v in a["runtime"].items() if k != "obj"})
    if a.get("template") is not None:
        t = {k: v for k, v in a["template"].items() if k != "obj"}
        if "config" in t:
            t["config"] = {k: ProjectTemplateConfigValue(**{x: y for x, y in c.items() if x != "obj"}) for k, c in t["config"].items()}
        a["template"] = ProjectTemplate(**t)
    if a.get("backend") is not None:
        a["backend"] = ProjectBackend(**{k: v for k, v in a["backend"].items() if k != "obj"})
    return ProjectSettings(**a)


class Secure:
    """Marks a secure value in the plain form of a stack's config."""

    def __init__(self, v):
        self.v = v


def stack_plain(s):
    from pulumi.automation._stack_settings import StackSettingsSecureConfigValue as SV

    cfg = {k: ["secure", v.secure] if isinstance(v, SV) else ["plain", v] for k, v in (s.config or {}).items()}
    return {"secrets_provider": s.secrets_provider or None, "encrypted_key": s.encrypted_key or None, "encryption_salt": s.encryption_salt or None, "config": cfg}


def build_stack(plain):
    from pulumi.automation import StackSettings
    from pulumi.automation._stack_settings import StackSettingsSecureConfigValue as SV

    a = dict(plain)
    if a.get("config") is not None:
        a["config"] = {k: SV(secure=v) if t == "secure" else v for k, (t, v) in a["config"].items()}
    return StackSettings(**a)


def stack_doc(plain):
    d = {}
    for k, js in (("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt")):
        if plain.get(k):
            d[js] = plain[k]
    if plain.get("config"):
        d["config"] = {k: {"secure": v} if t == "secure" else v for k, (t, v) in plain["config"].items()}
    return d


def strict(a, b):
    """Equality that tells 1 from True and 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(strict, a, b))
    return a == b


def parse(path):
    with open(path, encoding="utf-8") as f:
        return (json.load(f) if path.endswith(".json") else yaml.safe_load(f)) or {}


def write(path, doc, style):
    with open(path, "w", encoding="utf-8") as f:
        if path.endswith(".json"):
            json.dump(doc, f, ensure_ascii=style == "ascii", indent=None if style == "flow" else 4)
        else:
            yaml.safe_dump(doc, f, default_flow_style=True if style == "flow" else False, allow_unicode=style != "ascii", sort_keys=False, width=10000 if style == "flow" else 60)
    if style != "block" and not strict(parse(path), doc):  # PyYAML writes U+0085 as it is
        with open(path, "w", encoding="utf-8") as f:
            json.dump(doc, f)


def answers(call, sim):
    if call["argv"][1:2] == ["version"]:
        return [("out", b"v3.44.1\n"), ("exit", 0, b"")]
    return [("exit", 0, b"")]


class Place:
    """A work directory with a workspace over it."""

    def __init__(self):
        from pulumi import automation as auto

        self.dir = tempfile.mkdtemp(prefix="mc-c20-", dir=autosim.FAST)
        with autosim.Direct(answers):
            self.ws = auto.LocalWorkspace(work_dir=self.dir)

    def clear(self):
        for n in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, n))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def attempt(f, *a):
    try:
        return f(*a), None
    except Exception as e:  # noqa
        return None, f"{type(e).__name__}: {str(e)[:120]}"


# ---- single settings


def project_case(pl, plain, ext, how):
    """Saves and loads; returns the problem."""
    from pulumi import automation as auto

    pl.clear()
    if ext:
        write(os.path.join(pl.dir, "Pulumi" + ext), {"name": "old", "runtime": "go", "author": "old"}, "block")
    want = proj_plain(build_project(plain))
    p = build_project(plain)
    if how == "save":
        _, e = attempt(pl.ws.save_project_settings, p)
    else:
        with autosim.Direct(answers):
            _, e = attempt(lambda: auto.LocalWorkspace(work_dir=pl.dir, project_settings=p))
    if e:
        return f"saving raises {e}"
    if not strict(proj_plain(p), want):
        return "saving changed the settings object"
    files = sorted(os.listdir(pl.dir))
    if files != ["Pulumi" + (ext or ".yaml")]:
        return f"the files are {files}"
    doc, e = attempt(parse, os.path.join(pl.dir, files[0]))
    if e:
        return f"the file cannot be parsed: {e}"
    if not strict(proj_norm(doc), proj_norm(proj_doc(want))):
        return f"the file says {doc!r}"
    got, e = attempt(pl.ws.project_settings)
    if e:
        return f"loading raises {e}"
    if not strict(proj_plain(got), want):
        return f"loaded {proj_plain(got)!r}"
    return None


def foreign_project(pl, doc, plain, ext, style):
    pl.clear()
    path = os.path.join(pl.dir, "Pulumi" + ext)
    write(path, doc, style)
    got, e = attempt(pl.ws.project_settings)
    if e:
        return f"loading raises {e}"
    if not strict(proj_plain(got), proj_plain(build_project(plain))):
        return f"loaded {proj_plain(got)!r}"
    _, e = attempt(pl.ws.save_project_settings, got)
    if e:
        return f"saving what was loaded raises {e}"
    again, e = attempt(parse, path)
    if e:
        return f"after load and save the file cannot be parsed: {e}"
    if not strict(proj_norm(again), proj_norm(doc)):
        return f"after load and save the file says {again!r}"
    return None


def stack_case(pl, name, plain, ext, how):
    from pulumi import automation as auto

    pl.clear()
    fname = "Pulumi." + name.split("/")[-1]
    if ext:
        write(os.path.join(pl.dir, fname + ext), {"secretsprovider": "old", "config": {"old:k": "v"}}, "block")
    want = stack_plain(build_stack(plain))
    s = build_stack(plain)
    if how == "save":
        _, e = attempt(pl.ws.save_stack_settings, name, s)
    else:
        with autosim.Direct(answers):
            _, e = attempt(lambda: auto.LocalWorkspace(work_dir=pl.dir, stack_settings={name: s}))
    if e:
        return f"saving raises {e}"
    if not strict(stack_plain(s), want):
        return "saving changed the settings object"
    files = sorted(os.listdir(pl.dir))
    if files != [fname + (ext or ".yaml")]:
        return f"the files are {files}"
    doc, e = attempt(parse, os.path.join(pl.dir, files[0]))
    if e:
        return f"the file cannot be parsed: {e}"
    if not strict(doc, stack_doc(want)):
        return f"the file says {doc!r}"
    got, e = attempt(pl.ws.stack_settings, name)
    if e:
        return f"loading raises {e}"
    if not strict(stack_plain(got), want):
        return f"loaded {stack_plain(got)!r}"
    return None


def foreign_stack(pl, name, plain, ext, style):
    pl.clear()
    doc = stack_doc(plain)
    path = os.path.join(pl.dir, "Pulumi." + name.split("/")[-1] + ext)
    if style == "empty":
        open(path, "w").close()
    else:
        write(path, doc, style)
    got, e = attempt(pl.ws.stack_settings, name)
    if e:
        return f"loading raises {e}"
    if not strict(stack_plain(got), stack_plain(build_stack(plain))):
        return f"loaded {stack_plain(got)!r}"
    _, e = attempt(pl.ws.save_stack_settings, name, got)
    if e:
        return f"saving what was loaded raises {e}"
    again, e = attempt(parse, path)
    if e:
        return f"after load and save the file cannot be parsed: {e}"
    if not strict(again, doc):
        return f"after load and save the file says {again!r}"
    return None


# ---- alphabets

RUNTIMES = ["python", "nodejs", "go", "dotnet", {"name": "python"}, {"name": "python", "options": {"virtualenv": "venv", "n": [1, None, {"a": True}]}}, {"name": "go", "options": {}}]
OPTIONAL = {"main": "src/", "description": "d: e", "author": "\u00e9", "website": "https://x/#y", "license": "MIT", "config": "conf",
            "template": {"description": "t", "quickstart": "q\nr", "config": {"p:k": {"description": "d", "default": "yes", "secret": True}, "p:l": {}}, "important": True}, "backend": {"url": "s3://b?x=y"}}
UNKNOWN = {"options": {"refresh": "always"}, "plugins": {"providers": [{"name": "aws", "path": "../bin"}]}, "stackConfigDir": "stacks", "x-other": [1, None, {"a": "b"}]}


def projects(tier):
    base = {"name": "proj", "runtime": "python"}
    names = list(OPTIONAL)
    for rt in RUNTIMES:
        for r in range(len(names) + 1):
            for c in itertools.combinations(names, r):
                yield {"name": "proj", "runtime": rt, **{k: OPTIONAL[k] for k in c}}
    for t in TEXTS:
        for f in ("name", "main", "description", "author", "website", "license", "config"):
            yield {**base, f: t}
        yield {**base, "backend": {"url": t}}
        yield {**base, "template": {"description": t, "quickstart": t, "config": {t: {"description": t, "default": t}}}}
        yield {**base, "runtime": {"name": "python", "options": {t: t, "l": [t, {"x": t}]}}}
    parts = {"description": "d", "quickstart": "q", "important": True}
    cv = {"description": "d", "default": "0", "secret": True}
    cvs = [{k: cv[k] for k in c} for r in range(4) for c in itertools.combinations(cv, r)]
    for r in range(4):
        for c in itertools.combinations(parts, r):
            for cfg in [None, {}] + [{"k": x} for x in cvs] + [{"k": x, "l": y} for x in cvs for y in cvs]:
                t = {k: parts[k] for k in c}
                if cfg is not None:
                    t["config"] = cfg
                yield {**base, "template": t}
    yield {**base, "template": {"important": False}}
    yield {**base, "backend": {}}
    yield {**base, "backend": {"url": ""}}
    for f in ("main", "description", "author", "website", "license", "config"):
        yield {**base, f: ""}


VALUES = TEXTS + ["", 0, 1, -7, 10 ** 20, 1.5, -0.25, 1e300, True, False, None, [], {}, [1, "1", None, True, [2], {"a": "b"}], {"a": {"b": [{"c": "1"}]}, "secure": "s", "d": None}, {"secure": "x", "other": 1}, {"a": {"secure": "n"}}, {"1": "x", "yes": "no"}]


def stacks(tier):
    meta = {"secrets_provider": "awskms://k?x=y", "encrypted_key": "a2V5==", "encryption_salt": "v1:ab=:v1:cd:ef=="}
    cfgs = [None, {}, {"p:k": ["plain", "v"]}, {"p:k": ["secure", "v1:x="], "p:l": ["plain", {"a": [1]}]}]
    for r in range(4):
        for c in itertools.combinations(meta, r):
            for cfg in cfgs:
                yield {**{k: meta[k] for k in c}, **({} if cfg is None else {"config": cfg})}
    for v in VALUES:
        yield {"config": {"p:k": ["plain", v]}}
        yield {"config": {"p:k": ["plain", [v, {"x": v}]], "p:s": ["secure", "c"]}}
        if isinstance(v, str):
            yield {"config": {"p:k": ["secure", v]}}
            yield {"config": {v or "e": ["plain", v], "p:" + v: ["secure", v]}}
            for m in meta:
                yield {m: v}
    # pairs of values
    core_vals = ["x", "", "null", 1, 0, False, None, [], {"a": "1"}, 2.5]
    for a, b in itertools.product(core_vals, repeat=2):
        yield {"config": {"a": ["plain", a], "b": ["plain", b], "c": ["secure", "s"]}, "encryption_salt": "x"}


STACKNAMES = ["dev", "org/proj/dev", "org/dev", "a.b", "prod-1"]

# ---- histories against a model


def doc_of(tag):
    return {"p": {"name": "p" + tag, "runtime": "python", "description": tag}, "s": {"secretsprovider": tag, "config": {"x:" + tag: tag, "x:n": int(ord(tag))}}}


def history(pl, ops):
    """ops over the project and two stacks; the model: what was last saved or written under the file that counts."""
    from pulumi.automation import ProjectSettings, StackSettings

    pl.clear()
    targets = {"p": "Pulumi", "dev": "Pulumi.dev", "prod": "Pulumi.prod"}
    files = {}  # model: path -> document

    def current(t):
        for e in EXTS:
            if targets[t] + e in files:
                return targets[t] + e
        return None

    for op in ops:
        k = op[0]
        if k == "save":
            _, t, tag = op
            d = doc_of(tag)["p" if t == "p" else "s"]
            if t == "p":
                _, e = attempt(pl.ws.save_project_settings, ProjectSettings(**d))
            else:
                _, e = attempt(pl.ws.save_stack_settings, t if tag == "a" else f"org/proj/{t}", StackSettings(secrets_provider=tag, config=d["config"]))
            if e:
                return f"{op}: {e}"
            files[current(t) or targets[t] + ".yaml"] = d
        elif k == "write":
            _, t, ext, tag = op
            d = doc_of(tag)["p" if t == "p" else "s"]
            write(os.path.join(pl.dir, targets[t] + ext), d, "block")
            files[targets[t] + ext] = d
        elif k == "rm":
            t = op[1]
            c = current(t)
            if c:
                os.remove(os.path.join(pl.dir, c))
                del files[c]
        elif k == "resave":
            t = op[1]
            c = current(t)
            if c:
                if t == "p":
                    _, e = attempt(lambda: pl.ws.save_project_settings(pl.ws.project_settings()))
                else:
                    _, e = attempt(lambda: pl.ws.save_stack_settings(t, pl.ws.stack_settings(t)))
                if e:
                    return f"{op}: {e}"
        # everything is as the model says
        for t in targets:
            c = current(t)
            got, e = attempt(pl.ws.project_settings) if t == "p" else attempt(pl.ws.stack_settings, t)
            if c is None:
                if not e or not e.startswith("FileNotFoundError"):
                    return f"after {op}: loading {t} without a file gives {got if e is None else e}"
                continue
            if e:
                return f"after {op}: loading {t} raises {e}"
            d = files[c]
            have = {"name": got.name, "runtime": got.runtime, "description": got.description} if t == "p" else {"secretsprovider": got.secrets_provider, "config": got.config}
            if not strict(have, d):
                return f"after {op}: {t} is {have!r}, expected {d!r}"
        on_disk, e = attempt(lambda: {n: parse(os.path.join(pl.dir, n)) for n in os.listdir(pl.dir)})
        if e:
            return f"after {op}: a file cannot be parsed: {e}"
        if not strict(on_disk, files):
            return f"after {op}: the files hold {on_disk!r}, expected {files!r}"
    return None


def hist_ops():
    out = []
    for t in ("p", "dev"):
        for tag in ("a", "b"):
            out.append(["save", t, tag])
        for ext in EXTS:
            out.append(["write", t, ext, "c"])
        out.append(["rm", t])
        out.append(["resave", t])
    out.append(["save", "prod", "a"])
    out.append(["write", "prod", ".json", "c"])
    return out


def items(tier, seed):
    n = 16
    out = [["projects", k, n, tier] for k in range(n)] + [["stacks", k, n, tier] for k in range(n)] + [["foreign", k, n, tier] for k in range(n)]
    ops = hist_ops()
    depth = 3 if tier == "quick" else 4
    out += [["hist", i, depth] for i in range(len(ops))]
    return out


def run_case(pl, c):
    k = c[0]
    if k == "project":
        return project_case(pl, c[1], c[2], c[3])
    if k == "stack":
        return stack_case(pl, c[1], c[2], c[3], c[4])
    if k == "fproject":
        plain = c[1]
        doc = {**proj_doc(plain), **({} if not c[4] else {u: UNKNOWN[u] for u in c[4]})}
        return foreign_project(pl, doc, plain, c[2], c[3])
    if k == "fstack":
        return foreign_stack(pl, c[1], c[2], c[3], c[4])
    if k == "hist":
        return history(pl, c[1])
    raise core.HarnessError(str(c))


def cases(item):
    kind = item[0]
    if kind == "projects":
        for i, p in enumerate(itertools.islice(projects(item[3]), item[1], None, item[2])):
            exts = [None, ".json"] if item[3] == "quick" and i % 4 else [None] + EXTS
            for ext in exts:
                yield ["project", p, ext, "save" if (i + (ext is None)) % 5 else "init"]
    elif kind == "stacks":
        for i, s in enumerate(itertools.islice(stacks(item[3]), item[1], None, item[2])):
            for j, ext in enumerate([None] + EXTS):
                yield ["stack", STACKNAMES[(i + j) % len(STACKNAMES)], s, ext, "save" if (i + j) % 5 else "init"]
    elif kind == "foreign":
        for i, p in enumerate(itertools.islice(projects(item[3]), item[1], None, item[2])):
            unknown = [u for j, u in enumerate(UNKNOWN) if (i >> j) & 1] if i % 2 else []
            for j, ext in enumerate(EXTS):
                if item[3] != "quick" or (i + j) % 3 == 0:
                    yield ["fproject", p, ext, ["block", "flow", "ascii"][i // 3 % 3], unknown]
        for i, s in enumerate(itertools.islice(stacks(item[3]), item[1], None, item[2])):
            for j, ext in enumerate(EXTS):
                yield ["fstack", STACKNAMES[i % len(STACKNAMES)], s, ext, ["block", "flow", "ascii"][(i + j) % 3]]
        if item[1] == 0:
            for n in STACKNAMES:
                for ext in EXTS[:2]:
                    yield ["fstack", n, {}, ext, "empty"]
    elif kind == "hist":
        ops = hist_ops()
        yield ["hist", [ops[item[1]]]]
        for d in range(1, item[2]):
            for rest in itertools.product(ops, repeat=d):
                yield ["hist", [ops[item[1]], *rest]]


def work(st, item):
    pl = Place()
    try:
        for c in cases(item):
            bad = run_case(pl, c)
            st.case(c, "ok" if bad is None else bad[:60], transitions=report.nodes(c) if c[0] != "hist" else len(c[1]), sample=c if len(json.dumps(c)) < 400 else None)
            if bad:
                st.add_violation(f"{c[0]}:{bad[:50]}", f"{json.dumps(c)[:600]}: {bad}", c)
    finally:
        pl.close()


def replay(c):
    pl = Place()
    try:
        return run_case(pl, c)
    finally:
        pl.close()
