"""
python -m mc.run <PROPERTY> [--tier quick|thorough] [--replay FILE]

Each check lives in mc/checks/<property>.py and provides
    LEVEL, RULE, ASSUMPTIONS
    items(tier, seed)        -> list of JSON-able work items
    work(stats, item)        -> explores one work item, records cases and violations
    replay(case)             -> truthy iff the recorded case still violates the property
"""
import argparse
import importlib
import json
import os
import sys
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=None)
    a = ap.parse_args()
    # One hash seed for every run: iteration order of sets of strings is part of the environment.
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.chdir(here)
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "sdk", "python", "lib"))
    for k in list(os.environ):
        if k.startswith("PULUMI_"):
            del os.environ[k]
    import warnings

    warnings.simplefilter("ignore")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import core, report

    t0 = time.time()
    import pulumi

    assert os.path.realpath(pulumi.__file__).startswith(
        os.path.realpath(repo)
    ), f"wrong pulumi: {pulumi.__file__}"
    core.install_resource_hash()
    modname = f"mc.checks.{a.prop.lower()}"
    mod = importlib.import_module(modname)
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        bad = mod.replay(rec["case"])
        print("VIOLATES" if bad else "holds", rec["key"])
        if bad:
            print(bad)
        sys.exit(1 if bad else 0)
    st = report.Stats()
    items = mod.items(a.tier, seed)
    report.pmap(modname, "work", items, st, procs=a.procs, limit=700 if a.tier == "quick" else None)
    if hasattr(mod, "post"):
        mod.post(st, a.tier)
    rc = report.finish(
        a.prop,
        a.tier,
        seed,
        mod.LEVEL,
        st,
        t0,
        mod.RULE,
        mod.ASSUMPTIONS,
        extra=getattr(mod, "EXTRA", None),
        confirm=getattr(mod, "replay", None),
    )
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
