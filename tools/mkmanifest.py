#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V+"/properties.jsonl")]
T = {}
exec(open(V+"/tools/claims.py").read(), T)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["CLAIMS"] and os.path.exists(V+"/checks/%s.py" % i.lower()):
        tech, note = T["CLAIMS"][i]
        checks.append({"property": i, "quick_cmd": "python3-vt checks/run.py %s quick" % i, "thorough_cmd": "python3-vt checks/run.py %s thorough" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else: na.append({"property": i, "reason": T["NA"].get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3-vt lib/build.py std",
     "hooks": {"guard": "JAX_SAN", "enable": "no guarded hooks are present in /repo: observation goes through the public API, PMPI interposition and sanitizer builds", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks build /repo's current tree into /verif/.cache (content-hashed objects) and run a scripted driver or the programs under mpirun in a scratch directory under /dev/shm."}
json.dump(m, open(V+"/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na], "not claimed")
