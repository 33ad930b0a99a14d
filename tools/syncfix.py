#!/usr/bin/env python3
"""Adds the fix: commits of /repo that are not recorded yet to known_findings.json (message ends with "(Pnn)")."""
import subprocess, json, re
d = json.load(open('/verif/known_findings.json'))
done = " ".join(d['fixed'])
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--abbrev=7', '--format=%h %s', '--reverse'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or h in done:
        continue
    m = re.search(r"\((P\d\d)(?:, P\d\d)*\)$", s)
    assert m, s
    d['fixed'].append('fixed: property=%s %s %s' % (m.group(1), h, s[5:m.start()].strip()))
    print(d['fixed'][-1])
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
