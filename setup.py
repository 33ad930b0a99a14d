#!/usr/bin/env python3
"""Offline setup: nothing to build; verifies the tools the checks use are present and every specification parses."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.abspath(__file__))
for f in ("/usr/share/java/jython.jar", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    assert os.path.exists(f), f
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "replays"), exist_ok=True)
bad = 0
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
procs = []
for m in mods:
    procs.append((m, subprocess.Popen(["java", "-Xmx512m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                             "tla2sany.SANY", os.path.basename(m)], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    if len(procs) >= 6:
        m0, p = procs.pop(0); out = p.communicate()[0].decode(errors="replace")
        if p.returncode: bad += 1; print(m0, out[-2000:])
for m0, p in procs:
    out = p.communicate()[0].decode(errors="replace")
    if p.returncode: bad += 1; print(m0, out[-2000:])
print("%d specifications parsed, %d bad" % (len(mods), bad))
sys.exit(1 if bad else 0)
