#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the property list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import PROPS, NOT_APPLICABLE
from props import L
TECH = "contract-based deductive verification (Verus) of functions lifted mechanically from /repo, with executable contracts searched for a failing input"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in L:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
