#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props.py."""
import json, os
from props import PROPS, NA, HOOKS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": f"./run.sh {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": p["technique"],
    "level": "model_checking",
    "level_note": p["note"],
} for p in PROPS if p["id"] not in NA]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "All checks but P21 and P23 drive the public API of the crates. See DESIGN.md."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
