"""Plants one bug under /verif/seeded and confirms it in a scratch copy.

plant(id, property, edits=[(file, old, new)...], demo=GO SOURCE, needs, breaks)
"""
import json, os, shutil, subprocess, sys

SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = r'''#!/bin/bash
# Runs main.go.txt against the takenoco in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
printf 'module demo\n\ngo 1.18\n\nrequire github.com/shellyln/takenoco v0.0.0\n\nreplace github.com/shellyln/takenoco => %s\n' "$PWD" >"$d/go.mod"
cd "$d"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o demo . || exit 0
timeout 60 ./demo
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))
    return base

def plant(id, prop, edits, demo, needs, breaks, repo="/repo"):
    w = "/tmp/plant"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(repo, w, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "NOT UNIQUE", s.count(old), f, repr(old)); return False
        open(p, "w").write(s.replace(old, new))
    r = sh("gofmt -l " + " ".join(e[0] for e in edits), w)
    diff = sh("git diff", w).stdout
    r = sh("go build ./... ./_examples/csv ./_examples/formula ./_examples/torpn && go test -vet=off -count=1 ./... ./_examples/csv/... ./_examples/formula/... ./_examples/torpn/... 2>&1", w)
    if r.returncode != 0:
        print(id, "BUILD/TESTS FAIL", r.stdout[-1500:], r.stderr[-1500:]); return False
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.go.txt", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", repo)
    b = sh(f"bash {d}/demo.sh", w)
    ok = a.returncode == 0 and b.returncode != 0
    print(id, "OK" if ok else "DEMO BAD", a.returncode, a.stdout[-300:], a.stderr[-600:], "|", b.returncode, b.stdout[-300:], b.stderr[-300:])
    if not ok:
        shutil.rmtree(d)
    shutil.rmtree(w, ignore_errors=True)
    return ok
