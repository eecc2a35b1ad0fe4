#!/bin/bash
cd /repo && bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -20 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
p=set(r['passed']); m=[t for t in b['stable'] if t not in p]
print("stable",len(b['stable']),"missing",m)
P
cd /repo; git status --short
