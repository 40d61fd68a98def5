#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = "/verif"
sys.path.insert(0, V)
tech = json.load(open(V + "/tools/technique.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    f = [x for x in os.listdir(V + "/checks") if x.startswith(i.lower() + "_")]
    if f:
        t, note = tech[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": tech.get("NA", {}).get(i, "the check of this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
