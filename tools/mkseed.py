#!/usr/bin/env python3
"""mkseed.py FILE [id...] : FILE defines S = [dict(id, prop, file, edits=[(old,new)...], demo=<py2 code>, needs, breaks)].
Makes the patch in a scratch copy of /repo, checks: applies, demo 0 on clean and nonzero with it, the 121 tests pass; writes /verif/seeded/<id>."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if False else None
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
DEMO_HEAD = '''# -*- coding: utf-8 -*-
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
'''
def tests(wd, out):
    # the official runner works on /repo only: use it through the same jython entry points in the copy
    src = open("/opt/vp/jy_tests.py").read()
    return None
def one(s):
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
        subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b" % w, shell=True)
        for f, old, new in [(e if len(e) == 3 else (s["file"],) + tuple(e)) for e in s["edits"]]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "old text found %d times: %r" % (t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
        for f in set((e if len(e) == 3 else (s["file"],) + tuple(e))[0] for e in s["edits"]):
            orig = subprocess.check_output(["git", "-C", "/repo", "show", "7c3ecde:" + f]).decode().split("\n")
            mine = [l[1:] for l in subprocess.check_output(["git", "-C", w, "diff", "-U0", f]).decode().split("\n") if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in mine if l not in orig]
            if bad or not mine:
                return s["id"], "REJECTED: not original lines: %r" % bad
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(DEMO_HEAD + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec jython "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        env = open("/opt/vp/env.sh").read()
        log = w + "/.log"
        code = open("/opt/vp/jy_tests.py").read().replace("/repo", w)
        open(w + "/.jt.py", "w").write(code)
        open(w + "/.env", "w").write(env.replace("/repo", w))
        subprocess.run(". %s/.env; cd %s; timeout 240 jython -B %s/.jt.py %s" % (w, w, w, log), shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = open(log).read()
        passed = set(re.findall(r"^PASS (\S+)", res, re.M))
        bl = json.load(open("/opt/vp/BASELINE.json"))
        names = bl if isinstance(bl, list) else next(v for v in bl.values() if isinstance(v, list))
        names = [n if isinstance(n, str) else n.get("id") or n.get("name") for n in names]
        miss = [n for n in names if n not in passed]
        st = "clean=%d patched=%d missing=%d" % (a.returncode, b.returncode, len(miss))
        if a.returncode or not b.returncode or miss:
            shutil.rmtree(d)
            return s["id"], "REJECTED " + st + "\n" + a.stdout.decode()[-300:] + ("\n--- " + b.stdout.decode()[-300:] if not b.returncode else "") + str(miss[:3])
        return s["id"], "ok " + st + " | " + b.stdout.decode().strip()[-120:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
L = [s for s in ns["S"] if not want or s["id"] in want]
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, L):
        print(i, r)
