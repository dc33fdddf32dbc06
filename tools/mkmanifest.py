#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
man = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
            "technique": c["technique"], "level": "model_checking",
            "level_note": "holds for all values within the stated bounds (per-case bounds in the evidence file): " + c["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks")
