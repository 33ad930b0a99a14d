#!/usr/bin/env python3
"""vtext.py P15 [n] [clause]: violations with octet lists shown as text; documents are shown by difference"""
import json, sys, difflib
v = json.load(open('/verif/replays/%s_quick.json' % sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
cl = sys.argv[3] if len(sys.argv) > 3 else None


def t(x):
    if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x):
        return bytes(x).decode("utf-8", "replace")
    if isinstance(x, list):
        return [t(y) for y in x]
    if isinstance(x, dict):
        return {k: t(y) for k, y in x.items()}
    return x


def unf(s):
    return s.replace("\r\n", "\n").replace("\n ", "").replace("\n\t", "").split("\n")


for x in v:
    if cl and x['clause'] != cl:
        continue
    if n <= 0:
        break
    n -= 1
    e = x['event']
    print('-----', x['clause'], x['session'].get('id'), x['event_index'], {k: y for k, y in e.items() if not isinstance(y, list)})
    docs = [k for k in ('data', 'data2', 'out', 'out2') if isinstance(e.get(k), list)]
    if len(docs) >= 2 and 'VCAL' in str(t(e['data'])):
        a, b = docs[0], docs[1]
        A, B = sorted(unf(t(e[a]))), sorted(unf(t(e[b])))
        for l in difflib.unified_diff(A, B, a, b, n=0, lineterm=""):
            print('   ', l[:200])
    else:
        for k in e:
            if isinstance(e[k], list):
                print('   ', k, str(t(e[k]))[:1500])
    print('   want', str(t(x['expected']))[:800])
