#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks: TLA+ specifications in spec/ explored by TLC, bound to the library by replaying "
              "TLC behaviours (harness/) and by validating recorded histories with trace specifications. No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in checks.PROPS:
        m["checks"].append({"property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": checks.PROPS[i]["technique"], "level": "model_checking",
            "level_note": checks.PROPS[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
