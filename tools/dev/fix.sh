#!/bin/bash
# fix.sh "message"
cd /repo
gofmt -l . ; bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1 || { tail -40 /tmp/w/test.log; exit 1; }
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
bp=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
op=set(o.get('passed') or [])
print(len(bp),len(op),list(bp-op)[:5])
P
git commit -qam "$1" && git log --oneline | head -1
