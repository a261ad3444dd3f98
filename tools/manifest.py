#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has checks/<id>.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification, model-checked with TLC; recorded executions of the real code validated against it with TLC"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", TECH), "level": "model_checking",
                       "level_note": n.get("note", "Exhaustive over small inputs plus seeded sampling of larger ones; trusts the driver, TLC and the compiler.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "The check is still being built.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Specifications in tla/, drivers in drivers/, script generators and check definitions in checks/, machinery in vp/. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
