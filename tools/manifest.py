"""rewrites MANIFEST.json from oca/registry.py and properties.jsonl"""
import json
import sys
sys.path.insert(0, "/verif")
from oca import registry
C = registry.load()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        c = C[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": "static analysis: " + c["technique"], "level": c["level"],
                       "level_note": c.get("note") or "static decision over the enumerated option configurations; values symbolic; equality by random interpretation of value graphs"})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy, mpmath'", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo's current source; no repository code is executed. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
