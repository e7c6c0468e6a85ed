#!/usr/bin/env python3
"""writes MANIFEST.json from checks/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from table import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        _, level, tech, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 checks/check.py {p}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 checks/check.py {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level,
                            "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check yet (work in progress)"})
m["notes"] = ("No hooks in /repo: the real programs and the public headers are bound to the TLA+ "
              "specifications from outside (see DESIGN.md).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
