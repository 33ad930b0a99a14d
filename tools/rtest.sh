#!/bin/bash
# build + stable tests; prints number failing relative to the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/t.json'))
s=json.dumps(d)
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})
b=json.load(open('/opt/vp/BASELINE.json'))
bt=set(b.get('stable_pass') or b.get('passed') or b.get('stable') or [])
ps=set(d.get('passed') or d.get('pass') or [])
print('missing', sorted(bt-ps))
P
