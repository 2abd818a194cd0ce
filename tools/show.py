"""Per-part summary of evidence files: python3 tools/show.py C01 ..."""
import json, sys
for p in [a for a in sys.argv[1:] if a != '-l']:
    e = json.load(open("/verif/evidence/%s.json" % p))
    for x in e["coverage"]["parts"]:
        print(p, x["prop"], x["variant"], "ev", x["evaluations"], "disc", x["discarded"], "nt", x["distinct_nontrivial"], "wall", x["wall_s"], "EARLY" if x["stopped_early"] else "")
    if "-l" in sys.argv: print(e["coverage"]["classes"])
    if e["coverage"].get("unreproduced"): print("UNREPRODUCED", e["coverage"]["unreproduced"])
