#!/usr/bin/env python3-vt
"""usage: check.py <property id> [--tier quick|thorough] [--only substring]"""
import os
import sys
import time
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(argv):
    pid = argv[0]
    tier = "quick"
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 2
        else:
            raise SystemExit("unknown argument " + argv[i])
    from oca import registry, report
    t0 = time.time()
    c = registry.load()[pid]
    res = c["fn"](tier, only)
    return report.finish(pid, tier, res, t0, c["level"], c["expl"], c["assume"], c["floor"] if only is None else None)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
