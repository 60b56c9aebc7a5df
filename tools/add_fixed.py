#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT TEXT: record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
l = json.load(open(p)); l.append({"property": sys.argv[1], "status": "fixed", "line": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in l) + "\n]\n")
