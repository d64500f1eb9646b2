#!/usr/bin/env python3
"""setup_cmd: checks that what the framework needs is there (each check builds its own harnesses)."""
import os, shutil, subprocess, sys, tempfile
for t in ("g++", "valgrind"):
    if not shutil.which(t):
        sys.exit("missing " + t)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t.cpp")
    open(p, "w").write("int main(){return 0;}\n")
    for f in (["-fsanitize=address,undefined"], ["-fsanitize=thread"], ["-fopenmp"]):
        r = subprocess.run(["g++", *f, p, "-o", os.path.join(d, "t")])
        if r.returncode:
            sys.exit("g++ %s does not work" % f)
print("ok")
