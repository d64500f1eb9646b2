#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d[:d.index("## Planted bugs")]
t = """## Planted bugs

Each was written from a property's text and the code, confirmed with `tools/seedtest.py`
(builds, stable tests pass, the demonstration fails only with it) and is reported
by the quick check of its property.

| bug | reported by | needs |
|---|---|---|
"""
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    t += "| `%s` | %s | %s |\n" % (s, m["property"], m["needs"].strip().replace("|", "/"))
n = os.path.join(V, "tools", "seednotes.md")
if os.path.exists(n): t += "\n" + open(n).read()
open(V + "/DESIGN.md", "w").write(head + t)
