#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table of claimed checks below.
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        t, level, note = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
m["notes"] = NOTES
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
