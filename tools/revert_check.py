import json,subprocess,shutil,os,sys
kf=json.load(open('/verif/known_findings.json'))
only=sys.argv[1:]
def sh(c,cwd='/tmp/rev',**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
shutil.rmtree('/tmp/rev/repo',ignore_errors=True); shutil.copytree('/repo','/tmp/rev/repo',symlinks=True)
shutil.rmtree('/tmp/rev/harness',ignore_errors=True); shutil.copytree('/verif/harness','/tmp/rev/harness')
gm=open('/tmp/rev/harness/go.mod').read().replace('=> /repo','=> /tmp/rev/repo'); open('/tmp/rev/harness/go.mod','w').write(gm)
for k in kf:
    if k['status']!='fixed': continue
    if only and k['commit'] not in only: continue
    sh('git checkout -q -f HEAD -- . && git clean -fdq', '/tmp/rev/repo')
    r=sh(f"git revert -n {k['commit']}",'/tmp/rev/repo')
    if r.returncode:
        sh('git revert --abort; git reset -q --hard','/tmp/rev/repo')
        print(k['commit'],k['property'],'CANNOT REVERT',k['what'],flush=True); continue
    sh('git reset -q','/tmp/rev/repo')
    p=k['property']
    r=sh(f"SYM_FIRST=1 timeout 300 /verif/bin/gosym -prop {p} -dir /tmp/rev/harness -pkg ./{p.lower()} -replay /tmp/rev/replay -budget 150 -known /tmp/nofile")
    print(k['commit'],p,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'MISSED %d'%r.returncode,k['what'],flush=True)
    if r.returncode!=1: print(r.stdout[-500:],r.stderr[-500:])
    sh('git reset -q --hard','/tmp/rev/repo')
