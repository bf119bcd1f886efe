#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in checks/registry.py's table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if not n:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "/opt/venv/bin/python check.py run %s --tier quick" % p["id"],
                   "thorough_cmd": "/opt/venv/bin/python check.py run %s --tier thorough" % p["id"],
                   "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC; see DESIGN.md. No hooks in /repo are needed: the checks use licant's public interface."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
