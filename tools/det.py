#!/usr/bin/env python3
"""prints a digest of the sessions each check generates (they must not depend on the hash seed)"""
import sys, os, json, hashlib, importlib
sys.path.insert(0, '/verif')
from lib import vlib
class Stop(Exception): pass
for p in sys.argv[1:]:
    h = hashlib.md5()
    run = vlib.Run(p, "quick", 1, "x")
    run.mc = lambda *a, **k: {"distinct": 0, "generated": 0}
    def drive(d, s, **k):
        h.update(json.dumps(s, sort_keys=True).encode()); return s
    run.drive = drive
    run.validate = lambda *a, **k: None
    try: importlib.import_module("checks." + p.lower()).check(run)
    except Exception as e: print(p, "exc", repr(e)[:100])
    print(p, h.hexdigest())
    os.rmdir(run.work) if not os.listdir(run.work) else __import__('shutil').rmtree(run.work)
