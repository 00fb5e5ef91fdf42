#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
from properties_table import CLAIMED, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIMED:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % p,
            "technique": "contract-based deductive verification of the Go source (govc: go/ssa, symbolic execution, inferred loop invariants, SMT)",
            "level": "proof",
            "level_note": CLAIMED[p],
        })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Contracts are in contracts/*.go, the verifier in govc/, the bounded concrete searches in replay/. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
