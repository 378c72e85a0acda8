#!/bin/bash
# dev: build the working tree and run the stable tests; prints what fails
bash /opt/vp/build.sh >/tmp/t.build 2>&1 || { tail -40 /tmp/t.build; grep -n "error" /tmp/t.build | head; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.out 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def ids(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
base=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
print("missing:",sorted(base-set(r.get('passed',[])))[:20], len(base))
P
