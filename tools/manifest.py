#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: properties with a check; the rest is listed as not applicable with its reason."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cfg = json.load(open(os.path.join(V, "tools", "claims.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cfg["claimed"]:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: contracts on the real Go functions, verification conditions generated from go/ssa by govc on every run, discharged by z3/cvc5",
            "level": "proof", "level_note": cfg["claimed"][i]})
    else:
        m["not_applicable"].append({"property": i, "reason": cfg["reasons"].get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
