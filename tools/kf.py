#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT TEXT | kf.py finding PROP SIG WHAT CASEJSON : edit known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
try:
    d = json.load(open(p))
except FileNotFoundError:
    d = {"findings": [], "fixed": []}
a = sys.argv
if a[1] == "fixed":
    d["fixed"].append("fixed: property=%s %s %s" % (a[2], a[3], a[4]))
else:
    d["findings"].append({"property": a[2], "sig": a[3], "what": a[4], "case": json.loads(a[5]) if len(a) > 5 else None})
json.dump(d, open(p, "w"), indent=1)
