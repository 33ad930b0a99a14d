#!/usr/bin/env python3
"""addfix.py PROP REV text : records a fixed entry"""
import json, sys, subprocess
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=7', sys.argv[2]], text=True).strip()
d['fixed'].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3]))
json.dump(d, open(p, 'w'), indent=1)
