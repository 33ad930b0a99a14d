#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
rows = []
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
rows.sort()
p = '/verif/DESIGN.md'
s = open(p).read()
t = "| property | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
s = re.sub(r"\| property \| planted bug \| needs \|\n(?:\|.*\n)*", lambda _: t, s)
s = s.replace("Open: `quoted-trailing-backslash` (P17).", "Open: `quoted-trailing-backslash` (P17), `midnight-24-early` (P26).")
open(p, 'w').write(s)
print(len(rows))
