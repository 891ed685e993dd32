#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
hooks_file = os.path.join(HERE, "tools/hooks.json")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": json.load(open(hooks_file)),
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i,
                            "thorough_cmd": "python3 run_check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its check is still being built"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
