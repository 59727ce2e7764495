#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a TestPxx in the harness is claimed."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/checks/*_test.go"):
    have |= set(re.findall(r"^func Test(P\d\d)(?:_|\()", open(f).read(), re.M))
TECH = json.load(open(root + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": t.get("technique", "property-based testing (rapid)"),
            "level": "exploration",
            "level_note": t.get("note", "Searches generated inputs; establishes nothing beyond the cases explored."),
            "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Black-box property tests through the public API (no hooks in /repo). run.sh builds harness/ against /repo's working tree."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
