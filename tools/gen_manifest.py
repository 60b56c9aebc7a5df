#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness directories and the properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/na.py").read()) if os.path.exists(V + "/tools/na.py") else None
checks, na = [], []
for p in props:
    i = p["id"]; cj = V + "/harness/%s/check.json" % i.lower()
    if not os.path.exists(cj) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")}); continue
    c = json.load(open(cj)); b = c["bounds"]; b = b if isinstance(b, str) else b["quick"]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "solver-based symbolic execution of the compiled LLVM IR of the real Rust and C++ code (symx over z3), counterexamples replayed on the native build",
        "level": c.get("level", "model_checking"), "level_note": "Bounded: " + b + (". Outside: " + c["outside"] if c.get("outside") else "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks are needed: harness crates use public interfaces of /repo or include its modules by path."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
