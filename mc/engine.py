"""A fake in-process resource monitor / engine with a scripted environment."""
import collections
import json

import grpc
from google.protobuf import json_format, struct_pb2, empty_pb2

from .core import FakeRpcError

SIG = "4dabf18193072939515e22adb298388d"
ASSET_SIG = "c44067f5952c0a294b673a41bacd8c17"
ARCHIVE_SIG = "0def7320c3a5731c473e5ecbe6d01bc7"
SECRET_SIG = "1b47061264138c4ac30d75fd1eb44270"
RESOURCE_SIG = "5cf8f73096256a8f31e491e813e4eb8e"
OUTPUT_SIG = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"
ROOT_TYPE = "pulumi:pulumi:Stack"
ALL_FEATURES = ("secrets", "resourceReferences", "outputValues")


def to_struct(d):
    s = struct_pb2.Struct()
    json_format.ParseDict(d, s)
    return s


def from_struct(s):
    return json_format.MessageToDict(s)


def urn_of(typ, name, parent, stack="stk", project="proj"):
    prefix = ""
    if parent:
        ptype = parent.split("::")[2]
        if ptype.split("$")[-1] != ROOT_TYPE:
            prefix = ptype + "$"
    return f"urn:pulumi:{stack}::{project}::{prefix}{typ}::{name}"


Event = collections.namedtuple("Event", "kind key req urn ok at delivered")


class FakeEngine:
    def __init__(self, out=None, features=ALL_FEATURES, dry_run=False, faults=(), respond=None, chooser=None, unknown_ids=None, stack="stk", project="proj"):
        self.out = out
        self.features = set(features)
        self.dry_run = dry_run
        self.faults = tuple(faults)
        self.respond = respond or {}
        self.chooser = chooser
        self.unknown_ids = dry_run if unknown_ids is None else unknown_ids
        self.stack, self.project = stack, project
        self.events = []
        self.feature_queries = []
        self.logs = []
        self.terminated = False
        self.failed = []
        self.by_urn = {}

    # -- helpers ------------------------------------------------------------------------------
    def _enter(self, kind, name):
        label = f"{kind} {name}"
        if self.out is not None and self.out.sched is not None:
            self.out.sched.current_label = label
        return label

    def _fault(self, label):
        if self.terminated:
            raise FakeRpcError(grpc.StatusCode.UNAVAILABLE, "monitor gone")
        if self.faults and self.chooser is not None:
            # an answer that lists failures exists only where the protocol has a place for them
            menu = [f for f in self.faults if f != "failures" or label.split(" ")[0] in ("Invoke", "Call")]
            c = self.chooser.choose(1 + len(menu), "fault", label) if menu else 0
            if c:
                f = menu[c - 1]
                self.failed.append((label, f))
                if f == "unavailable":
                    self.terminated = True
                    raise FakeRpcError(grpc.StatusCode.UNAVAILABLE, "monitor gone")
                if f == "fail":
                    raise FakeRpcError(grpc.StatusCode.UNKNOWN, f"engine says no: {label}")
                if f == "bug":
                    raise RuntimeError(f"transport bug: {label}")
                return f
        return None

    def _ev(self, kind, key, req, urn=None, ok=True):
        delivered = tuple(self.out.sched.delivered) if self.out is not None and self.out.sched is not None else ()
        self.events.append(Event(kind, key, req, urn, ok, len(self.events), delivered))

    # -- ResourceMonitor ----------------------------------------------------------------------
    def SupportsFeature(self, req):
        from pulumi.runtime.proto import resource_pb2

        self._enter("SupportsFeature", req.id)
        self.feature_queries.append(req.id)
        return resource_pb2.SupportsFeatureResponse(hasSupport=req.id in self.features)

    def RegisterResource(self, req):
        from pulumi.runtime.proto import resource_pb2

        label = self._enter("RegisterResource", req.name)
        urn = urn_of(req.type, req.name, req.parent, self.stack, self.project)
        self._ev("RegisterResource", req.name, req, urn)
        fl = self._fault(label)
        rid = ""
        if req.custom:
            rid = "" if (self.unknown_ids is True or (self.unknown_ids and req.name in self.unknown_ids)) else f"{req.name}-id"
        resp = resource_pb2.RegisterResourceResponse(urn=urn, id=rid)
        resp.object.CopyFrom(req.object)
        f = self.respond.get("RegisterResource")
        if f:
            r = f(self, req, resp)
            if r is not None:
                resp = r
        if fl == "garbage":
            resp.object.update({"bad": {SIG: "no-such-kind"}})
        self.by_urn[urn] = resp
        return resp

    def ReadResource(self, req):
        from pulumi.runtime.proto import resource_pb2

        label = self._enter("ReadResource", req.name)
        urn = urn_of(req.type, req.name, req.parent, self.stack, self.project)
        self._ev("ReadResource", req.name, req, urn)
        fl = self._fault(label)
        resp = resource_pb2.ReadResourceResponse(urn=urn)
        resp.properties.CopyFrom(req.properties)
        f = self.respond.get("ReadResource")
        if f:
            r = f(self, req, resp)
            if r is not None:
                resp = r
        if fl == "garbage":
            resp.properties.update({"bad": {SIG: "no-such-kind"}})
        return resp

    def RegisterResourceOutputs(self, req):
        label = self._enter("RegisterResourceOutputs", req.urn.split("::")[-1])
        self._ev("RegisterResourceOutputs", req.urn, req, req.urn)
        self._fault(label)
        return empty_pb2.Empty()

    def Invoke(self, req):
        from pulumi.runtime.proto import provider_pb2

        key = req.tok
        if req.tok == "pulumi:pulumi:getResource":
            key = str(from_struct(req.args).get("urn")).split("::")[-1]
        label = self._enter("Invoke", key)
        self._ev("Invoke", key, req)
        fl = self._fault(label)
        resp = provider_pb2.InvokeResponse()
        if fl == "failures":
            resp.failures.append(provider_pb2.CheckFailure(property="p", reason="bad input"))
            return resp
        getattr(resp, "return").CopyFrom(req.args)
        f = self.respond.get("Invoke")
        if f:
            r = f(self, req, resp)
            if r is not None:
                resp = r
        if fl == "garbage":
            st = getattr(resp, "return")
            if "state" in st:
                st["state"].update({"bad": {SIG: "no-such-kind"}})
            else:
                st.update({"bad": {SIG: "no-such-kind"}})
        return resp

    def Call(self, req):
        from pulumi.runtime.proto import provider_pb2

        label = self._enter("Call", req.tok)
        self._ev("Call", req.tok, req)
        fl = self._fault(label)
        resp = provider_pb2.CallResponse()
        if fl == "failures":
            resp.failures.append(provider_pb2.CheckFailure(property="p", reason="bad input"))
            return resp
        getattr(resp, "return").CopyFrom(req.args)
        f = self.respond.get("Call")
        if f:
            r = f(self, req, resp)
            if r is not None:
                resp = r
        return resp

    # -- Engine -------------------------------------------------------------------------------
    def Log(self, req):
        self.logs.append((req.severity, req.message, req.urn))
        return empty_pb2.Empty()


class Wire:
    """While active, channels opened by the SDK to an address lead to the fake engine registered for it."""

    def __init__(self, engines):
        self.engines = engines  # address -> FakeEngine; a callable makes one on demand

    def stub(self, kind):
        def make(channel, *a, **k):
            addr = channel.mc_addr if isinstance(channel, _Channel) else str(channel)
            e = self.engines(addr) if callable(self.engines) else self.engines[addr]
            return e

        return make

    def __enter__(self):
        from pulumi.runtime.proto import engine_pb2_grpc, resource_pb2_grpc

        self.saved = [(grpc, "insecure_channel", grpc.insecure_channel), (resource_pb2_grpc, "ResourceMonitorStub", resource_pb2_grpc.ResourceMonitorStub),
                      (engine_pb2_grpc, "EngineStub", engine_pb2_grpc.EngineStub)]
        grpc.insecure_channel = lambda addr, *a, **k: _Channel(addr)
        resource_pb2_grpc.ResourceMonitorStub = self.stub("monitor")
        engine_pb2_grpc.EngineStub = self.stub("engine")
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)
        return False


class _Channel:
    def __init__(self, addr):
        self.mc_addr = addr

    def close(self):
        pass
