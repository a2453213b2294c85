#!/usr/bin/env python3
"""Writes DESIGN.md: docs/design_*.md (prose) with tables made from
properties.jsonl, docs/costs.json (tools/gen_costs.py), known_findings.json, seeded/ and
docs/seeds.txt (output of tools/seeds_check.py)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(R, p)).read()
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
oracle = json.load(open(R + "/docs/oracles.json"))
cost = json.load(open(R + "/docs/costs.json")) if os.path.exists(R + "/docs/costs.json") else {}
def bounds(i): return [f"*{h}*: {b}" for h, b in cost[i]["bounds"]] if i in cost else []
o = [rd("docs/design_1.md")]
o.append("\n## Properties: method, oracle, bounds, cost\n")
o.append("For every one the deciding step is the same: the named functions of /repo are executed symbolically and each assertion is an unsatisfiability query over all values within the bounds. "
         "\"Symbolic\" names what is a variable, \"oracle\" what the result is compared with. Bounds are those of the quick tier (the thorough tier's in parentheses). Cost: wall time of the quick tier on 8 cores, jobs, solver queries.\n")
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    d = oracle[i]
    if "na" in d:
        o.append("Not applicable: " + d["na"] + "\n"); continue
    o.append(f"- symbolic: {d['symbolic']}\n- oracle: {d['oracle']}\n- why tests cannot: {d['why']}")
    b = bounds(i)
    o.append("- bounds: " + "; ".join(b))
    if i in cost:
        c = cost[i]
        o.append(f"- cost: {c['s']:.0f} s, {c['jobs']} jobs, {c['queries']} queries")
    if "outside" in d: o.append("- outside: " + d["outside"])
    o.append("")
o.append(rd("docs/design_2.md"))
o.append("\n## Defects found and repaired\n\nEach was reported by a check on the original tree with a native reproduction and repaired in /repo by a `fix:` commit; `known_findings.json` lists them as fixed, so the check reports them again if they return (tools/revert_check.py reverts each commit in a scratch copy and confirms that the check fails). There is no open finding.\n")
o.append("| property | commit | defect |\n|---|---|---|")
for f in json.load(open(R + "/known_findings.json")):
    o.append(f"| {f['property']} | {f['commit']} | {f['what']} |")
o.append("\n## Planted bugs\n\n`tools/seeds_check.py` applies each to a scratch copy and runs its property's check. Result of the last full run:\n")
o.append("| seed | property | needs | result |\n|---|---|---|---|")
res = {}
if os.path.exists(R + "/docs/seeds.txt"):
    for l in rd("docs/seeds.txt").splitlines():
        w = l.split(None, 3)
        if len(w) > 2: res[w[0]] = (w[2] + (" by " + w[3].split(None, 1)[1].split(":")[0] if len(w) > 3 and w[2] == "caught" and " " in w[3] else ""))
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{s}/meta.json"))
    o.append(f"| {s} | {m['property']} | {str(m['needs']).replace('|','/')[:110]} | {res.get(s, '?')} |")
o.append("\n" + rd("docs/design_3.md"))
open(R + "/DESIGN.md", "w").write("\n".join(o).rstrip() + "\n")
