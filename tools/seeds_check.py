"""Runs each planted bug's check against a scratch copy with the bug applied.
usage: seeds_check.py [id...]   (all when none is named)"""
import json, os, shutil, subprocess, sys, time
S = "/verif/seeded"
W = os.environ.get("SEEDRUN", "/tmp/seedrun")
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
ids = sys.argv[1:] or sorted(os.listdir(S))
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
shutil.copytree("/repo", W + "/repo", symlinks=True)
shutil.copytree("/verif/harness", W + "/harness")
g = open(W + "/harness/go.mod").read().replace("=> /repo", "=> " + W + "/repo")
open(W + "/harness/go.mod", "w").write(g)
env = "SYM_FIRST=1 " if not os.environ.get("FULL") else ""
for i in ids:
    m = json.load(open(f"{S}/{i}/meta.json"))
    p = os.environ.get("PROP") or m["property"]
    sh("git checkout -q -f HEAD -- .", W + "/repo")
    r = sh(f"git apply {S}/{i}/patch.diff", W + "/repo")
    if r.returncode:
        print(i, p, "DOES NOT APPLY", r.stderr); continue
    t = time.time()
    r = sh(f"{env}timeout 800 /verif/bin/gosym -prop {p} -dir {W}/harness -pkg ./{p.lower()} -replay {W}/replay -known /verif/known_findings.json -evidence {W}/ev.json")
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    first = r.stdout.splitlines()[1] if v and len(r.stdout.splitlines()) > 1 else (r.stderr[-300:])
    print(i, p, "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), first.strip()[:160], flush=True)
shutil.rmtree(W, ignore_errors=True)
