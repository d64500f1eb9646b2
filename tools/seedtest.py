#!/usr/bin/env python3
"""seedtest.py [--nocheck] ID... : confirms planted bugs in scratch copies of /repo:
the patch applies, everything builds, the stable tests pass, the demo passes
without and fails with it, and whether the property's quick check reports it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
nocheck = "--nocheck" in args
args = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
for sid in args:
    d = V + "/seeded/" + sid
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sw_")
    msg = []
    try:
        sh("cp -a /repo %s/r" % w)
        r = w + "/r"
        bats = open("/opt/vp/bats.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % r)
        open(w + "/bats.py", "w").write(bats)
        if sh("bash %s/demo.sh" % d, cwd=r).returncode != 0: msg.append("DEMO FAILS ON CLEAN TREE")
        a = sh("git apply %s/patch.diff" % d, cwd=r)
        if a.returncode: print(sid, "DOES NOT APPLY", a.stdout); continue
        rc = sh("bash %s/demo.sh" % d, cwd=r).returncode
        if rc == 0: msg.append("DEMO PASSES WITH PATCH")
        if rc == 2: msg.append("DEMO DOES NOT COMPILE WITH PATCH?")
        b = sh("python3 %s/bats.py build" % w)
        if b.returncode: msg.append("BUILD FAILS " + b.stdout[-500:])
        else:
            t = sh("python3 %s/bats.py test %s/o.json" % (w, w))
            passed = set(json.load(open(w + "/o.json"))["passed"])
            miss = stable - passed
            if miss: msg.append("TESTS FAIL %d e.g. %s" % (len(miss), sorted(miss)[0]))
        if not nocheck and (not msg or "--force" in sys.argv):
            c = sh("python3 check.py %s --tier quick" % prop, cwd=V, env=dict(os.environ, BATS_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            msg.append("caught rc=%d %s" % (c.returncode, v[0] if v else "") if c.returncode == 1 and v else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(sid, prop, "; ".join(msg) or "ok", flush=True)
