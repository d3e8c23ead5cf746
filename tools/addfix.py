#!/usr/bin/env python3
"""tools/addfix.py <property> <commit> <what failed>: record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p)); q, c, w = sys.argv[1:4]
k.append({"property": q, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (q, c, w)})
json.dump(k, open(p, "w"), indent=1)
