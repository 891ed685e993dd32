#!/usr/bin/env python3
"""Builds every harness binary from the committed files (offline)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run_check
kinds = {}
for c in run_check.CHECKS.values():
    for p in c["parts"]("quick"):
        kinds.setdefault(p["kind"], set()).add(p["bin"])
bad = 0
for k, b in sorted(kinds.items()):
    ok, log = run_check.build(k, sorted(b))
    print(k, "ok" if ok else "FAILED\n" + log)
    bad |= not ok
sys.exit(bad)
