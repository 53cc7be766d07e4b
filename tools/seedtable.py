#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and the results kept in tools/caught.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(H + "/tools/caught.json"))
rows = []
for m in glob.glob(H + "/seeded/*/meta.json"):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append((d["property"], n, d["what_it_breaks"], c.get(n, "not run")))
rows.sort()
d = open(H + "/DESIGN.md").read().split("## Planted bugs")[0]
d += "## Planted bugs\n\nEach was written from a property's text and the code; each builds, passes the\nrepository's tests and has a demonstration. `tools/tryseed.py` confirms them and\nruns the checks (in scratch copies). Bugs that failed a test of the repository\nwere dropped.\n\n| property | bug | what it breaks | caught by |\n|---|---|---|---|\n"
for p, n, w, k in rows:
    d += f"| {p} | {n} | {w.replace('|', '/')} | {k} |\n"
open(H + "/DESIGN.md", "w").write(d)
