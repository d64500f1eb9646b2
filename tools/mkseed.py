#!/usr/bin/env python3
"""mkseed.py ID SPEC.py : writes seeded/ID from a spec defining property, needs, breaks,
edits=[(file, old, new), ...] and demo (C++ source of a program that returns 0 when all is well)."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, spec = sys.argv[1:3]
s = {}
exec(open(spec).read(), s)
files = {}
for f, old, new in s["edits"]:
    t = files.get(f) or open("/repo/" + f).read()
    if t.count(old) != 1:
        sys.exit("%s: %d matches in %s of %r" % (sid, t.count(old), f, old))
    files[f] = t.replace(old, new)
out = ""
for f, t in files.items():
    a = open("/repo/" + f).read().splitlines(True)
    d = list(difflib.unified_diff(a, t.splitlines(True), "a/" + f, "b/" + f))
    out += "diff --git a/%s b/%s\n" % (f, f)
    for l in d:
        out += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(out)
open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
flags = s.get("flags", "-O1")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds and runs demo.cpp against the headers of the current directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -w %s -fopenmp -Iinclude "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''' % flags)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
          open(d + "/meta.json", "w"), indent=1)
