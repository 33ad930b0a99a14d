#!/usr/bin/env python3
"""vc.py P12 [n]: counts the violations of a replay by clause/op/exception and shows the first n (one per kind)"""
import json, sys, collections
v = json.load(open('/verif/replays/%s_quick.json' % sys.argv[1]))
key = lambda x: (x['clause'], x['event'].get('op'), x['event'].get('exc'), x['event'].get('how'), x['event'].get('kind'))
print(collections.Counter(map(key, v)))
n, seen = int(sys.argv[2]) if len(sys.argv) > 2 else 0, set()
W = int(sys.argv[3]) if len(sys.argv) > 3 else 700
for x in v:
    if key(x) in seen or n <= 0:
        continue
    seen.add(key(x)); n -= 1
    print('---', key(x), 'session', x['session'].get('id'), 'index', x['event_index'])
    print('  event', json.dumps(x['event'])[:W]); print('  want', json.dumps(x['expected'])[:W])
    print('  hist', [e.get('op') for e in x['session']['events'][:x['event_index']]])
