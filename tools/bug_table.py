#!/usr/bin/env python3
"""Write section 5 of DESIGN.md: the planted changes, what each needs, and which checks catch it.

  bug_table.py RESULTS_DIR     RESULTS_DIR has the ID.json files that try_bug.py writes
"""
import glob
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
old = os.path.join(VERIF, "tools", "bugs", "caught.json")
if os.path.exists(old):
    res = json.load(open(old))
for f in glob.glob(os.path.join(sys.argv[1], "*.json")):
    r = json.load(open(f))
    c = {k: v["caught"] for k, v in r.get("checks", {}).items()}
    if c:
        res[r["id"]] = sorted(k for k in c if c[k])
ids = sorted(os.listdir(os.path.join(VERIF, "seeded")))
res = {k: v for k, v in res.items() if k in ids}
json.dump(res, open(old, "w"), indent=0, sort_keys=True)
out = ["## 5. Planted changes, and the checks that catch them", "",
       "%d changes under `seeded/`, each in a part of the original code, building, passing the existing tests, with a demonstration. "
       "`tools/bugs/set*.py` has them in readable form, `tools/try_bug.py` confirms them and runs the checks. Only the check of the property "
       "itself was run unless more are named." % len(ids), "",
       "| Change | File | Needs | Caught by |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))
    p = open(os.path.join(VERIF, "seeded", i, "patch.diff")).read()
    fs = sorted({l[6:] for l in p.split("\n") if l.startswith("+++ b/")})
    by = res.get(i)
    out.append("| %s | %s | %s | %s |" % (i, ", ".join(fs), m["needs"].replace("|", "/"), "not run" if by is None else ", ".join(by) or "none"))
fn = os.path.join(VERIF, "DESIGN.md")
t = open(fn).read()
if "## 5. Planted" in t:
    t = t[:t.index("## 5. Planted")]
open(fn, "w").write(t.rstrip() + "\n\n" + "\n".join(out) + "\n")
print(len(ids), "changes,", sum(1 for i in ids if res.get(i)), "caught,", [i for i in ids if res.get(i) == []], "missed,", [i for i in ids if i not in res], "not run")
