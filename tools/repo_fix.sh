#!/bin/bash
# usage: fx.sh "message"
cd /repo && bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { tail /tmp/w/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/o.json >/tmp/w/t.log 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/o.json'))
bp=set(b.get('stable', b.get('passed',b.get('passing',[])))) 
op=set(o.get('passed',o.get('passing',[])))
miss=bp-op
print(len(bp),len(op),'missing',miss, 'failed', o.get('failed'))
import sys; sys.exit(1 if miss else 0)
P
git add -u && git commit -qm "$1" && git log --oneline | head -1; git status --short | head
