"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing; the results are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "sdk/python/lib/pulumi/"
PROPS = []
CHECKS = []
NA = []
MC = "explicit-state exploration of the real code"


def prop(id, title, statement, over, qtext, why, files, mechanism, state, observe, technique=None, note=None, na=None, quick=True, thorough=True):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": [L + f if not f.startswith("sdk/") else f for f in files], "mechanism": [dict(zip(("name", "where"), m.split(" @ "))) for m in mechanism], "state": [dict(zip(("name", "meaning", "where"), m.split(" @ "))) for m in state], "observe_at": observe, "hook_needed": None}})
    assert len(title) <= 80, title
    if technique:
        c = {"property": id, "quick_cmd": f"/opt/venv/bin/python -m mc.run {id} --tier quick", "thorough_cmd": f"/opt/venv/bin/python -m mc.run {id} --tier thorough",
             "technique": technique, "level": "model_checking", "level_note": note}
        CHECKS.append(c)
    else:
        NA.append({"property": id, "reason": na or "check not built yet"})


exec(open(os.path.join(ROOT, "meta", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import mc.core, mc.engine, mc.report, mc.progs, mc.outmodel'", "checks": CHECKS, "not_applicable": NA,
               "notes": "The checks import the SDK from /repo's working tree (pure Python: nothing to rebuild); no hooks."}, f, indent=1)
print(len(PROPS), "properties", len(CHECKS), "checks")
