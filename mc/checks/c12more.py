"""C12, further groups: what the provider says about itself, how its server is started, which providers a component gets."""
import asyncio
import contextlib
import io
import itertools
import json
import sys

from .. import core, engine as eng

NAMES = ("p", "default", "default_1_2_3", "a:b", "a-b")
TYPES = ("pulumi:providers:t", "pulumi:providers:u", "pulumi:providers:kx")
IDS = ("id-1", "04da6b54-80e4-46f7-96ec-b56ff0331ba9", "a:b")


def cases():
    for version, schema, asked in itertools.product(("", "1.2.3", "0.0.1-dev+x"), (None, "", "{}", '{"name": "x"}'), (0, 1, 2)):
        yield {"w": "about", "version": version, "schema": schema, "asked": asked}
    flags = (["--logtostderr"], ["--logflow"], ["-v=3"], ["--tracing", "x"], ["--unknown"])
    for n in (0, 1, 2):
        for fl in itertools.permutations(flags, n):
            for pos in range(n + 1):
                if pos and fl[pos - 1] == ["--tracing", "x"] or any(f == ["--tracing", "x"] for f in fl[:pos]):
                    # a stray word before the address is taken for it
                    continue
                yield {"w": "main", "argv": sum(fl[:pos], []) + ["127.0.0.1:77"] + sum(fl[pos:], [])}
    for name, typ, rid, reg, dry in itertools.product(NAMES, TYPES, IDS, (False, True), (False, True)):
        yield {"w": "prov", "name": name, "typ": typ, "id": rid, "registered": reg, "dry": dry}


def about(c):
    from pulumi.provider import Provider
    from pulumi.provider.server import ProviderServicer
    from pulumi.runtime import proto

    async def body(env, out):
        srv = ProviderServicer(Provider(c["version"], c["schema"]) if c["schema"] is not None else Provider(c["version"]), [], engine_address="")
        got = {"version": (await srv.GetPluginInfo(None, None)).version}
        r = await srv.Configure(proto.ConfigureRequest(), None)
        got["accepts"] = [r.acceptSecrets, r.acceptResources, r.acceptOutputs]
        try:
            got["schema"] = (await srv.GetSchema(proto.GetSchemaRequest(version=c["asked"]), None)).schema
        except Exception:  # noqa
            got["schema"] = "refused"
        out.extra["got"] = got
    return body, {"version": c["version"], "accepts": [True, True, True], "schema": "refused" if c["asked"] else (c["schema"] or "{}")}


def provs(c):
    import pulumi
    from pulumi.provider import Provider, ConstructResult
    from pulumi.provider.server import ProviderServicer
    from pulumi.runtime import rpc
    from .c12 import construct_request

    pkg = c["typ"].split(":")[-1]
    urn = f"urn:pulumi:stk::proj::{c['typ']}::{c['name']}"
    made = []

    class Prov(pulumi.ProviderResource):
        def __init__(self, name, u):
            super().__init__(pkg, name, {}, pulumi.ResourceOptions(urn=u))

    class Pack:
        def version(self):
            return None

        def construct_provider(self, name, typ, u):
            made.append([name, typ, u])
            return Prov(name, u)

    class P(Provider):
        def construct(self, name, resource_type, inputs, options=None):
            comp = pulumi.ComponentResource("t:m:Comp", name, None, options)
            pulumi.CustomResource(f"{pkg}:m:C", "kid", {}, pulumi.ResourceOptions(parent=comp))
            return ConstructResult(urn=comp.urn, state={})

    def inv(e, req, resp):
        a = eng.from_struct(req.args)
        getattr(resp, "return").CopyFrom(eng.to_struct({"urn": a["urn"], "id": c["id"], "state": {}}))
        return resp

    async def body(env, out):
        env.get("mon").respond = {"Invoke": inv}
        if c["registered"]:
            rpc.register_resource_package(pkg, Pack())
        srv = ProviderServicer(P("1.0.0"), [], engine_address="")
        await asyncio.ensure_future(srv.Construct(construct_request(providers={pkg: f"{urn}::{c['id']}"}, dryRun=c["dry"]), None))
        out.extra["got"] = {"made": made, "sent": [ev.req.provider for ev in env.get("mon").events if ev.kind == "RegisterResource" and ev.key == "kid"]}
    return body, {"made": [[c["name"], c["typ"], urn]] if c["registered"] else [], "sent": [f"{urn}::{c['id']}"]}


def main(c):
    """The server's main with a stand-in for the network."""
    import grpc
    from pulumi.provider import Provider, server

    seen = {"servicer": [], "bound": [], "started": 0}

    class Server:
        def add_insecure_port(self, address):
            seen["bound"].append(address)
            return 4711

        def add_generic_rpc_handlers(self, h):
            pass

        def add_registered_method_handlers(self, *a):
            pass

        async def start(self):
            seen["started"] += 1

        async def wait_for_termination(self, timeout=None):
            seen["printed"] = buf.getvalue().decode()

    class Servicer(server.ProviderServicer):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen["servicer"].append([self.provider is prov, self.engine_address])

    buf = io.BytesIO()
    prov = Provider("1.0.0")
    old = (sys.argv, sys.stdout, grpc.aio.server, server.ProviderServicer)
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        sys.argv = ["provider", *c["argv"]]
        sys.stdout = io.TextIOWrapper(buf, write_through=True)
        grpc.aio.server = lambda *a, **k: Server()
        server.ProviderServicer = Servicer
        with contextlib.redirect_stderr(io.StringIO()):
            server.main(prov, sys.argv[1:])
        seen["end"] = "ok"
    except (Exception, SystemExit) as ex:  # noqa
        seen["end"] = f"{type(ex).__name__}: {ex}"
    finally:
        sys.argv, out, grpc.aio.server, server.ProviderServicer = old
        sys.stdout.detach()
        sys.stdout = out
        loop.close()
        asyncio.set_event_loop(None)
    local = all(a.rsplit(":", 1)[0] in ("127.0.0.1", "localhost", "[::1]") for a in seen["bound"])
    return {**{k: seen.get(k) for k in ("servicer", "started", "printed", "end")}, "bound": [len(seen["bound"]), local]}, \
        {"servicer": [[True, "127.0.0.1:77"]], "started": 1, "printed": "4711\n", "end": "ok", "bound": [1, True]}


def check(c):
    from .c12 import run_server

    if c["w"] == "main":
        got, want = main(c)
    else:
        body, want = (about if c["w"] == "about" else provs)(c)
        out = run_server(body)
        got = out.extra.get("got") if out.verdict == "ok" else {"error": f"{out.verdict} {out.exc!r}"}
    return json.loads(json.dumps(got)), json.loads(json.dumps(want))


def work(st, item):
    for c in cases():
        got, want = check(c)
        st.case(c, outcome=c["w"], transitions=3, sample={"case": c, "observed": got})
        if got != want:
            st.add_violation("more:" + json.dumps(c, sort_keys=True), f"{json.dumps(c)}: expected {json.dumps(want)}, observed {json.dumps(got)}", {"g": "more", "c": c})
