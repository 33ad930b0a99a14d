#!/usr/bin/env python3
"""summary of a replay file: vsum.py P03 [key fields...]"""
import json, collections, sys
d = json.load(open('/verif/replays/%s_quick.json' % sys.argv[1]))
c = collections.Counter(); ex = {}
for v in d:
    e = v.get('event')
    e = e if isinstance(e, dict) else json.loads(e)
    k = (v['clause'],) + tuple(str(e.get(f)) for f in sys.argv[2].split(",") if f)
    c[k] += 1
    ex.setdefault(k, []).append(tuple(e.get(f) for f in sys.argv[3].split(",")))
for k in c:
    print(k, c[k], str(ex[k][:int(sys.argv[4]) if len(sys.argv) > 4 else 6])[:900])
