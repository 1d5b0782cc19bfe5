"""writes oca/declared.json: option values the declarations of each class exclude (reviewed by hand; never called by a check)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from oca import comp as C
from oca.checks import reject as R
out = {}
for c in C.discover()[0].values():
    d = R.declared(c)
    if d:
        out[c.qual] = d
json.dump(out, open(R.TABLE, "w"), indent=0, sort_keys=True)
print(len(out), "classes", sum(len(v) for d in out.values() for v in d.values()))
