#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,os.path.join(V,"lib")); sys.dont_write_bytecode=True
from checks import CHECKS
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":[],"not_applicable":[],
 "notes":"One runner (check.py), one C++ harness per program; every check compiles the harnesses against /repo/include as it is at that moment. known_findings.json lists recorded and repaired defects."}
for p in props:
    c=CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property":p["id"],"reason":"planned, monitor not built yet"}); continue
    m["checks"].append({"property":p["id"],"quick_cmd":"VERIF_TIER=quick python3 check.py %s"%p["id"],
      "thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%p["id"],
      "technique":c.get("technique","runtime monitoring: randomised and hostile workloads on the ASan/UBSan-instrumented library, online oracle (independent exact reference) on every result"),
      "level":"exploration",
      "level_note":c.get("note","Held on the executions recorded in the evidence file; trusts the reference algorithms in harness/oracle.hpp, g++ 13 and its sanitizers.")})
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
