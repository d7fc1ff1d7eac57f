#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the driver is laid over the working tree with 'go build -overlay'."}
for p in props:
    i = p["id"]
    c = stages.CHECKS.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built yet")})
        continue
    m["checks"].append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                        "technique": c.get("technique", "TLA+ specification checked by TLC; traces recorded from the real code validated against it"),
                        "level": c["level"],
                        "level_note": "Specification checked exhaustively for small constants; the code is bound to it on every recorded trace (" + c["bounds"] + "). Trusts TLC and the recorder; says nothing of inputs outside these bounds."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
