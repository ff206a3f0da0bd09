#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and the texts here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools/not_applicable.json")))
checks, na = [], []
for p in props:
    if p in registry.RULES:
        tech, level, note = registry.DOC[p]
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis over MIR exported by a rustc driver; see DESIGN.md. /repo carries only fix: commits, no hooks."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
