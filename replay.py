#!/usr/bin/env python3
"""Replays a reported violation natively against /repo's current code."""
import sys, json, os, tempfile
import check
j = json.load(open(sys.argv[1]))
ll, prog, _ = check.build_harness(j["harness"])
with tempfile.TemporaryDirectory() as d:
    n = check.native(prog, j["entry"], j["violation"]["inputs"], d, "r")
print(json.dumps(n, indent=1))
print("reproduces" if check.reproduces(j["violation"], n) else "does not reproduce")
