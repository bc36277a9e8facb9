#!/bin/bash
# build + run the repository's tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || { tail -30 /tmp/bb.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b['stable']; st=list(st) if not isinstance(st,dict) else list(st)
bad=[t for t in st if t not in set(o['passed'])]
print("stable",len(st),"missing",bad,"failed",o['failed'])
sys.exit(1 if bad else 0)
P
