#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the families in check.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    fam = families.FAMILY.get(p)
    if not fam:
        na.append({"property": p, "reason": "not built yet: its specification and conformance check are planned in DESIGN.md"})
        continue
    info = families.INFO[fam]
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": info["technique"], "level": "model_checking", "level_note": info["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked by TLC; conformance drivers in harness/ are built from /repo's "
              "working tree by every check. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
