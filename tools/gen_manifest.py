#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "TLA+ specification model checked with TLC; behaviours replayed into the real code and recorded traces validated by TLC against the specification",
        "level": "model_checking",
        "level_note": NOTE.get(i, NOTE["*"]),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
