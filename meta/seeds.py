"""Fills the table of seeded changes in DESIGN.md (run by hand)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
p = ROOT + "/DESIGN.md"
s = open(p).read()
i = s.index("| change | caught by | needs |\n|---|---|---|\n") + len("| change | caught by | needs |\n|---|---|---|\n")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
