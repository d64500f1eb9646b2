#!/usr/bin/env python3
"""seedlines.py ID... : every line a planted bug removes must be a line of the original repository"""
import subprocess, sys, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "b817046"
for sid in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    f = None; bad = []; n = 0
    base = []
    for l in open(V + "/seeded/%s/patch.diff" % sid):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]; base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], stdout=subprocess.PIPE, text=True, errors="replace").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:] not in base: bad.append((f, l))
    print(sid, "removed", n, "NOT ORIGINAL %d of them: %s" % (len(bad), bad[:3]) if bad else "original")
