#!/usr/bin/env python3
"""every line a planted bug removes must be a line of the original repository"""
import glob, re, subprocess
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None
    for l in open(p).read().split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            orig = subprocess.check_output(["git", "-C", "/repo", "show", "7c3ecde:" + f]).decode().split("\n")
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            print(p, repr(l))
