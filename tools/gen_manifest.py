#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import props

NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        b = "; ".join(e["bounds"] for e in P["entries"] if "quick" in e["tiers"])
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "symbolic execution of the program's LLVM IR, decided by Z3 for every input within stated bounds",
            "level": "model_checking",
            "level_note": ("Bounded: holds for every input within: " + b + ". Nothing is claimed outside. " + " ".join(P["assumptions"]) + " Trusted: rustc/LLVM, the executor, Z3, the model of the C library.").replace("  ", " "),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the harness crates use the public interface of stuart_core and include the modules of the stuart binary by path.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
