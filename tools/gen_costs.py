#!/usr/bin/env python3
"""Writes docs/costs.json (time, jobs, queries and bounds of each check) from the evidence of a quick run of all checks."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for f in sorted(glob.glob(R + "/evidence/C*.json")):
    e = json.load(open(f)); k = e["coverage"]
    if e["tier"] != "quick": continue
    c[e["property"]] = {"s": round(e["wall_s"], 1), "jobs": k["jobs"], "queries": k["solver"]["queries"], "bounds": [[h["harness"], h["bound"]] for h in k["harnesses"]]}
json.dump(c, open(R + "/docs/costs.json", "w"), indent=0, ensure_ascii=False)
