#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that the harness decides is claimed."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
src = "".join(open(os.path.join(here, "harness/src/props", f)).read() for f in sorted(os.listdir(here + "/harness/src/props")))
built = set(re.findall(r'id: "([A-Z][0-9]{2,3})"', src))
TECH = json.load(open(here + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        t = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh check %s quick" % i,
            "thorough_cmd": "bash run.sh check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t["technique"],
            "level": t.get("level", "exploration"),
            "level_note": t["note"],
        })
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every command is run from /verif and rebuilds the harness from /repo's working tree. A replay file named in a VIOLATION line is run with: bash run.sh replay FILE",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print("claimed", len(checks), "not claimed", [x["property"] for x in na])
