"""writes oca/interface.json: inputs each group takes from outside (reviewed by hand; never run by a check)"""
import json
import sys
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from oca.checks import wiring as W
t = W.collect("thorough")
q = W.collect("quick")
for k, e in q["groups"].items():
    o = t["groups"].setdefault(k, {"unfed": {}, "boundary": []})
    for n, c in e["unfed"].items():
        o["unfed"][n] = max(c, o["unfed"].get(n, 0))
    for x in ("provides", "takes"):
        o[x] = sorted(set(o[x]) & set(e[x])) if o.get(x) is not None else e[x]
    o["builds"] = sorted(set(o.get("builds", [])) | set(e["builds"]))
    o["boundary"] = sorted(set(o["boundary"]) | set(e["boundary"]))
t["unitless"] = sorted(set(t["unitless"]) | set(q["unitless"]))
for e in t["groups"].values():
    e["unfed"] = dict(sorted(e["unfed"].items()))
json.dump({"groups": dict(sorted(t["groups"].items())), "unitless": t["unitless"]}, open("/verif/oca/interface.json", "w"), indent=1)
