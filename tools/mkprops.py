#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: tools/props.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE

checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            continue
        if any(n["property"] == p["id"] for n in NOT_APPLICABLE):
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the command line, the generated code and the exported API."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
