#!/usr/bin/env python3
import json, os
from props import PROPS, NA, TECH, NOTE
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "rawloader_verif", "enable": "RUSTFLAGS='--cfg rawloader_verif' (check.py sets it when it builds native/ against /repo)",
               "source_commits": ["678ffdd", "c439247"]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py " + i + " --thorough", "evidence_file": "evidence/%s.json" % i,
                            "technique": TECH.get(i, TECH["*"]), "level": PROPS[i]["level"], "level_note": NOTE.get(i, NOTE["*"])})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
