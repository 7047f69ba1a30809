#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Contracts checked against /repo/src as parsed on every run: verification conditions for every path and every loop iteration, discharged by z3/cvc5; "
        "f64 treated as real arithmetic, machine integers as mathematical, termination not proved, std models and the VC generator in /verif/vc trusted. ")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        pr = PROPS[i]
        c = {"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
             "technique": "contract-based deductive verification (own VC generator over the real source, SMT" + (", Lean lemmas" if pr.get("lean") else "") + ")",
             "level": pr.get("level", "proof"), "level_note": NOTE + pr.get("note", "")}
        if pr.get("technique"): c["technique"] = pr["technique"]
        if pr.get("lean"):
            import re
            th = []
            for f in pr["lean"]: th += re.findall(r"^theorem\s+(\S+)", open(os.path.join(ROOT, "lean", f)).read(), flags=re.M)
            c["theorems"] = th
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": i, "reason": "no check registered yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
