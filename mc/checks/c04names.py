"""C04, further groups: who depends on what, property by property and under every naming style; the id of a resource that is read."""
import itertools

from .. import core, engine as eng, outmodel as om
from . import c04

STYLES = ("plain", "translated", "typed")
ANSWERED = ({"v": "got"}, {"sec": {"v": "got"}}, None)
# property (as written in the program) -> input value
NAMES = {"some_prop": "in-a", "other_prop": "in-b", "out_only": None}
WIRE = {"some_prop": "someProp", "other_prop": "otherProp", "out_only": "outOnly"}


def cases():
    for style in STYLES:
        for vals in itertools.product(ANSWERED, repeat=2):
            for deps in itertools.product(range(3), repeat=3):
                yield {"g": "names", "style": style, "vals": list(vals), "deps": list(deps)}
    for form in FORMS:
        for props in (0, 1):
            yield {"g": "readid", "form": form, "props": props}


def expect(c, dry):
    if c["g"] == "readid":
        known, secret = FORMS[c["form"]]
        known = known or not dry
        sent = "rid" if known else eng.UNKNOWN
        return {"id": {"known": known, "secret": secret, "value": "rid" if known else om.UNK, "deps": ["self"]}, "sent": [sent]}
    exp = {}
    for (k, given), v, d in zip(NAMES.items(), (c["vals"][0], None, c["vals"][1]), c["deps"]):
        if v is None:
            e = {"known": not dry, "secret": False, "value": om.UNK if dry else given}
        else:
            e = {"known": True, "secret": "sec" in v, "value": "got"}
        e["deps"] = sorted(["self"] + c04.DEPS[d])
        exp[k] = e
    return exp


def classes():
    import pulumi

    class Plain(pulumi.CustomResource):
        pass

    class Translated(pulumi.CustomResource):
        def translate_output_property(self, prop):
            return {v: k for k, v in WIRE.items()}.get(prop, prop)

        def translate_input_property(self, prop):
            return WIRE.get(prop, prop)

    def prop(name, typ):
        def get(self):
            return pulumi.get(self, name)
        get.__name__ = name
        get.__annotations__ = {"return": typ}
        return property(pulumi.getter(name=WIRE[name])(get))

    Typed = type("Typed", (pulumi.CustomResource,), {k: prop(k, pulumi.Output[str]) for k in NAMES})
    Args = pulumi.input_type(type("Args", (), {k: prop(k, pulumi.Input[str]) for k in NAMES if k != "out_only"}))
    return {"plain": Plain, "translated": Translated, "typed": Typed}, Args


# how the id to read is given -> (known also in a preview, secret)
FORMS = {"plain": (True, False), "out": (True, False), "secret": (True, True), "unknown": (False, False), "unknown-secret": (False, True), "promise": (True, False), "applied": (True, False),
         "secret-applied": (True, True), "secret-nested": (True, True), "unsecret": (True, False), "resource-id": (False, False), "secret-resource-id": (False, True), "known-resource-id": (True, False),
         "concat": (True, True), "concat-unknown": (False, True)}


def id_of(form, res, known_res):
    import pulumi

    O = pulumi.Output

    async def p():
        return "rid"

    return {
        "plain": lambda: "rid", "out": lambda: O.from_input("rid"), "secret": lambda: O.secret("rid"), "unknown": lambda: res.u, "unknown-secret": lambda: O.secret(res.u), "promise": p,
        "applied": lambda: O.from_input("r").apply(lambda x: x + "id"), "secret-applied": lambda: O.secret("r").apply(lambda x: x + "id"), "secret-nested": lambda: O.from_input("r").apply(lambda x: O.secret(x + "id")),
        "unsecret": lambda: O.unsecret(O.secret("rid")), "resource-id": lambda: res.id, "secret-resource-id": lambda: O.secret(res.id), "known-resource-id": lambda: known_res.id,
        "concat": lambda: O.concat("r", O.secret("i"), "d"), "concat-unknown": lambda: O.concat("", O.secret(""), res.u),
    }[form]()


def run_cases(cs, dry, on_case):
    import pulumi

    answers = {}

    def reg(e, req, resp):
        resp.object.Clear()
        if req.name in ("src", "known"):
            # as an engine does: what is to be created is unknown in a preview
            resp.object.CopyFrom(eng.to_struct({"u": eng.UNKNOWN if dry else "rid"}))
            resp.id = "" if dry and req.name == "src" else "rid"
            return resp
        c = answers[req.name]
        n = WIRE if c["style"] != "plain" else {k: k for k in WIRE}
        resp.object.CopyFrom(eng.to_struct({n[k]: c04.wire(v) for k, v in zip(("some_prop", "out_only"), c["vals"]) if v is not None}))
        for k, d in zip(NAMES, c["deps"]):
            resp.propertyDependencies[n[k]].urns.extend(c04.DEPS[d])
        return resp

    async def main(out):
        out.extra["engine"].out = out
        kinds, Args = classes()
        src = pulumi.CustomResource("t:m:C", "src", {"u": None})
        known = pulumi.CustomResource("t:m:C", "known", {"u": None})
        for i, c in enumerate(cs):
            n = f"n{i}"
            answers[n] = c
            try:
                if c["g"] == "readid":
                    r = pulumi.CustomResource("t:m:C", n, {"p": "v"} if c["props"] else {}, pulumi.ResourceOptions(id=id_of(c["form"], src, known)))
                    got = {"id": await c04.obs(r.id, r), "sent": [ev.req.id for ev in out.extra["engine"].events if ev.key == n]}
                    on_case(c, got)
                    continue
                props = dict(NAMES)
                if c["style"] == "typed":
                    props = Args.__new__(Args)
                    props.__dict__.update(NAMES)
                r = kinds[c["style"]]("t:m:C", n, props)
                got = {k: await c04.obs(r.__dict__[k] if k in r.__dict__ else getattr(r, k), r) for k in NAMES}
            except Exception as ex:  # noqa
                got = {"error": f"{type(ex).__name__}: {ex}"}
            on_case(c, got)

    def setup(out):
        e = eng.FakeEngine(dry_run=dry, respond={"RegisterResource": reg}, unknown_ids=set())
        out.extra["engine"] = e
        core.fresh_settings(e, None, dry_run=dry)

    return core.run_loop(main, core.Chooser(), settle=False, timeout=300, setup=setup, horizon=10**9)


def key(c):
    return "readid:" + c["form"] if c["g"] == "readid" else f"names:{c['style']}:{c['deps']}:{c['vals']}"


def work(st, item, norm):
    import json

    def on_case(c, got):
        want, g = norm(expect(c, item["dry"])), norm(got)
        st.case([c, item["dry"]], outcome=json.dumps(want)[:120], transitions=4, sample={"case": c, "preview": item["dry"], "observed": g})
        if g != want:
            st.add_violation(key(c), f"{json.dumps(c)} preview={item['dry']}: expected {json.dumps(want)}, observed {json.dumps(g)}", {"names": c, "dry": item["dry"]})

    out = run_cases(list(cases()), item["dry"], on_case)
    if out.verdict != "ok":
        st.add_violation("names-run", f"run ended with {out.verdict}: {out.exc!r}", {"item": item})
