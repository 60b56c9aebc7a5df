#!/usr/bin/env python3
"""Fill the two tables of DESIGN.md from known_findings.json and the seeded changes' meta.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{R}/tools/design.tmpl.md").read()
k = json.load(open(f"{R}/known_findings.json"))
rows = []
def cell(s): return s.replace("|", "\\|").replace("\n", " ")
for f in k:
    if f["status"] == "fixed":
        p, c, w = f["line"].split("property=", 1)[1].split(" ", 2)
        rows.append(f"| {p} | {c[:7]} | {cell(w)} |")
t = t.replace("FIXED_TABLE", "\n".join(rows))
rows = ["| change | check that catches it | what it breaks |", "|---|---|---|"]
miss = json.load(open(f"{R}/tools/seed_results.json")) if os.path.exists(f"{R}/tools/seed_results.json") else {}
for m in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {miss.get(i, d['property'])} | {cell(d['what_it_breaks'])} |")
t = t.replace("SEED_TABLE", "\n".join(rows))
open(f"{R}/DESIGN.md", "w").write(t)
