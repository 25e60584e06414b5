#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks import REGISTRY
from tools.levels import LEVELS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in REGISTRY],
     "notes": "TLA+ specifications in spec/, checked with TLC; Go harness in harness/ binds them to the code. See DESIGN.md."}
for i in ids:
    if i in REGISTRY:
        t, note = LEVELS.get(i, LEVELS["default"])
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i, "technique": t,
                            "level": "model_checking", "level_note": note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
