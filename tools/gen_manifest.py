#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [], "not_applicable": []}
try:
    from checks import HOOKS
    m["hooks"] = HOOKS
except ImportError:
    pass
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "the check for this property is not built yet; see DESIGN.md")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
