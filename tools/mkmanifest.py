#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the contract files present (run by hand after adding a property)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools/not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = {os.path.basename(f)[:3] for f in glob.glob(os.path.join(V, "contracts/C[0-9][0-9]_*.cpp"))}
checks, na = [], []
for p in props:
    if p in have:
        checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
            technique="contract-based deductive verification: contracts in contracts/%s_*.cpp over the LLVM IR compiled from /repo on every run; every obligation discharged for all real inputs by symbolic execution with an exact rational-function normaliser and z3; refutations replayed natively" % p,
            level="proof", level_note=NA.get("notes", {}).get(p, "Proved over exact real arithmetic for the instantiations listed in the evidence (element, operator, batch size, quadrature order); cases marked bounded or undecided in the evidence are not counted as discharged."),
            evidence_file="evidence/%s.json" % p))
    else: na.append(dict(property=p, reason=NA["reasons"].get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="make -s -C engine OUT=../build", checks=checks, not_applicable=na, notes="See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
