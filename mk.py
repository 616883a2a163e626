#!/usr/bin/env python3
"""mk.py: write MANIFEST.json from levels.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L = json.load(open(V + "/levels.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    m = L[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "technique": m["technique"],
        "level": m["level"],
        "level_note": m["note"],
    })
M = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: contracts are in /verif/contracts and are checked against the SSA form of /repo's working tree; the harness is laid over /repo with go build -overlay. See DESIGN.md."}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
