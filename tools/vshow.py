#!/usr/bin/env python3
"""vshow.py P05 n [field]: one violation of a replay in full"""
import json, sys
v = json.load(open('/verif/replays/%s_quick.json' % sys.argv[1]))[int(sys.argv[2])]
s = v['session']
e = v['event'] if isinstance(v['event'], dict) else json.loads(v['event'])
print(v['clause'], json.dumps(e)[:1500]); print('EXPECTED', str(v['expected'])[:800])
print(s['init'].get('text', '') if isinstance(s.get('init'), dict) else '')
