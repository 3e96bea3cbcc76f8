#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry and the list of properties not claimed."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sa"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i in registry.PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough",
                       "technique": registry.TECH.get(i, registry.TECHNIQUE), "level": "other", "level_note": registry.PROPS[i]["explain"] + " Assumes: " + "; ".join(registry.ASSUMPTIONS) + "."})
na = [{"property": i, "reason": registry.NA.get(i, "no check built yet")} for i in ids if i not in registry.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "One driver (check.py) and one engine; each property selects its rules in sa/registry.py. No hooks in /repo."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
