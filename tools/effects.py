"""writes oca/effects.json (reviewed by hand afterwards); never called by a check"""
import json, os, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from oca import comp as C
from oca.checks import options as O


def main():
    classes, _ = C.discover()
    jobs = [(c.qual, c.name, c.kind) for c in classes.values() if c.kind in ("explicit", "implicit", "group") and c.name not in C.DRIVERS]
    if len(sys.argv) > 1:
        jobs = [j for j in jobs if sys.argv[1] in j[0]]
    out = {}
    with ProcessPoolExecutor(8) as ex:
        for q, rec, und in ex.map(O.collect_class, *zip(*jobs)):
            for u in und:
                print("UND", q.split(".")[-1], u)
            if rec is not None and rec["cases"]:
                out[q] = rec
    p = O.TABLE if len(sys.argv) < 2 else "/tmp/w/effects_part.json"
    with open(p, "w") as f:
        f.write('{"classes": {\n' + ",\n".join(json.dumps(q) + ": {\"base\": " + json.dumps(out[q]["base"]) + ", \"cases\": [\n  " + ",\n  ".join(json.dumps(c) for c in out[q]["cases"]) + "]}" for q in sorted(out)) + "\n}}\n")
    print(len(out), "classes", sum(len(r["cases"]) for r in out.values()), "cases")


main()
