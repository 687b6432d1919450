"""C09, further group: what a call of a resource's method and an invoke carry: provider, version, plugin URL and what each argument depends on."""
import itertools

from .. import engine as eng

VERS = (None, "", "1.0")
URLS = (None, "https://x")
# providers available where: on the resource itself, on its parent
WHERE = ("-", "own", "own-list", "parent", "other-package")
SELF = ("none", "custom", "comp", "remote", "read")
ARGS = ("plain", "null", "self", "self.o", "b", "b.o", "list", "secret", "both", "fut", "nested")
DEPS = {"plain": "", "null": "", "self": "s", "self.o": "s", "b": "b", "b.o": "b", "list": "b", "secret": "b", "both": "bs", "fut": "b", "nested": "bs"}


def cases(tier):
    for ver, url, where, s in itertools.product(VERS, URLS, WHERE, SELF):
        yield {"what": "call", "ver": ver, "url": url, "where": where, "self": s, "args": ["self", "plain"]}
    for ver, url, where, s, par in itertools.product(VERS, URLS, ("-", "own", "own-same"), ("none", "custom", "comp", "remote"), ("-", "own", "other-package")):
        yield {"what": "invoke", "ver": ver, "url": url, "where": where, "self": s, "par": par}
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        for args in itertools.product(ARGS, repeat=n):
            for s in ("custom", "comp"):
                yield {"what": "call", "ver": None, "url": None, "where": "-", "self": s, "args": list(args)}


def valid(c):
    if c["what"] == "call":
        return not (c["self"] == "none" and (c["where"] != "-" or c["ver"] or c["url"]))
    return c["self"] != "none" or c["par"] == "-"


def body(c, note):
    import pulumi as p

    O = p.Output
    P = {n: p.ProviderResource(pkg, n) for n, pkg in (("T1", "t"), ("T2", "t"), ("U1", "u"))}
    b = p.CustomResource("t:m:C", "b", {"o": "x"})

    def mk(kind, opts):
        if kind == "custom":
            return p.CustomResource("t:m:C", "s", {"o": "y"}, opts)
        if kind == "read":
            return p.CustomResource("t:m:C", "s", {"o": "y"}, p.ResourceOptions.merge(opts, p.ResourceOptions(id="rid")))
        if kind == "remote":
            return p.ComponentResource("t:m:R", "s", {"o": "y"}, opts, True)
        r = p.ComponentResource("t:m:Comp", "s", {}, opts)
        r.o = r.urn
        return r

    if c["what"] == "call":
        kw = {"version": c["ver"], "plugin_download_url": c["url"]}
        if c["where"] == "own":
            kw["provider"] = P["T1"]
        elif c["where"] == "own-list":
            kw["providers"] = [P["T1"], P["U1"]]
        elif c["where"] == "parent":
            kw["parent"] = p.ComponentResource("t:m:Comp", "par", {}, p.ResourceOptions(providers=[P["T1"]]))
        elif c["where"] == "other-package":
            kw["providers"] = {"u": P["U1"]}
        s = None if c["self"] == "none" else mk(c["self"], p.ResourceOptions(**kw))

        def fut():
            async def f():
                return b.o
            return f()
        x = s if s is not None else b
        mkarg = {"plain": lambda: "v", "null": lambda: None, "self": lambda: x, "self.o": lambda: x.o, "b": lambda: b, "b.o": lambda: b.o, "list": lambda: ["v", b.o], "secret": lambda: O.secret(b.o),
                 "both": lambda: O.all(b.o, x.o), "fut": fut, "nested": lambda: {"k": [b.o, {"j": x.o}]}}
        p.runtime.call("t:m:method", {f"a{i}": mkarg[a]() for i, a in enumerate(c["args"])}, s)
        return
    kw = {}
    if c["self"] != "none":
        pk = {"version": "9.9", "plugin_download_url": "https://parent"}
        if c["par"] == "own":
            pk["provider"] = P["T1"]
            if c["self"] != "custom":
                pk["providers"] = [P["T1"], P["U1"]]
                pk.pop("provider")
        elif c["par"] == "other-package":
            pk["providers"] = [P["U1"]]
        kw["parent"] = mk(c["self"], p.ResourceOptions(**pk))
    if c["where"] == "own":
        kw["provider"] = P["T2"]
    elif c["where"] == "own-same":
        kw["provider"] = P["T1"]
    p.runtime.invoke("t:m:fn", {"x": 1}, p.InvokeOptions(version=c["ver"], plugin_download_url=c["url"], **kw))


def check(c, dry):
    from . import c09

    out = c09.run(lambda out: body(c, out.extra), dry)
    if out.verdict != "ok":
        return [(f"calls:{out.verdict}:{c['what']}", repr(out.exc))], out
    e = out.extra["engine"]
    kind = "Call" if c["what"] == "call" else "Invoke"
    ev = [x for x in e.events if x.kind == kind]
    if len(ev) != 1:
        return [("calls:count", f"{len(ev)} requests")], out
    req = ev[0].req
    bad = []
    if c["what"] == "call":
        prov = "T1" if c["self"] in ("custom", "read") and c["where"] in ("own", "own-list", "parent") else None
        want = {"tok": "t:m:method", "version": c["ver"] or "", "pluginDownloadURL": c["url"] or ""}
    else:
        prov = {"own": "T2", "own-same": "T1"}.get(c["where"]) or ("T1" if c["self"] != "none" and c["par"] == "own" else None)
        want = {"tok": "t:m:fn", "version": c["ver"] or "", "pluginDownloadURL": c["url"] or ""}
    want["provider"] = c09.provider_ref(e, prov, dry) if prov else ""
    for k, v in want.items():
        if getattr(req, k) != v:
            bad.append((f"calls:{c['what']}:{k}", f"{k} sent as {getattr(req, k)!r}, expected {v!r}"))
    if c["what"] == "call":
        urns = {x.key: x.urn for x in e.events if x.key in ("b", "s")}
        if c["self"] == "none":
            urns["s"] = urns["b"]
        got = {k: sorted(v.urns) for k, v in req.argDependencies.items() if v.urns}
        exp = {f"a{i}": sorted({urns[x] for x in DEPS[a]}) for i, a in enumerate(c["args"]) if DEPS[a]}
        if got != exp:
            bad.append(("calls:deps", f"arguments depend on {got}, expected {exp}"))
    return bad, out
