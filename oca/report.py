"""Findings, known-findings, evidence and parallel driver."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, key, msg, where="", rule=""):
        self.key, self.msg, self.where, self.rule = key, msg, where, rule

    def d(self):
        return {"key": self.key, "rule": self.rule, "where": self.where, "message": self.msg}


class Result:
    def __init__(self):
        self.findings = []
        self.undecided = []
        self.cov = {}
        self.samples = []

    def add(self, key, msg, where="", rule=""):
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, msg, where, rule))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def und(self, what, why):
        self.undecided.append((str(what)[:160], str(why)[:200]))

    def merge(self, o):
        have = {f.key for f in self.findings}
        self.findings += [f for f in o.findings if f.key not in have]
        self.undecided += o.undecided
        self.samples += o.samples
        for k, v in o.cov.items():
            if isinstance(v, (int, float)):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, [])
                self.cov[k] += [x for x in v if x not in self.cov[k]]
            else:
                self.cov[k] = v


def seed_of(*parts):
    s = int(os.environ.get("VERIF_SEED", "1") or 1)
    return (zlib.crc32("|".join(str(p) for p in parts).encode()) + 7919 * s) % (2 ** 32)


class TaskTimeout(Exception):
    pass


def _alarm(*a):
    raise TaskTimeout()


def _work(job):
    fn, args, limit = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(*args)
    except TaskTimeout:
        r = Result()
        r.und(args[0] if args else fn.__name__, "time limit")
        r.count("task_timeouts")
        return r
    except Exception as e:
        r = Result()
        r.und(args[0] if args else fn.__name__, f"internal: {type(e).__name__}: {e}")
        r.cov["internal_errors"] = [f"{args[0] if args else fn.__name__}: {type(e).__name__}: {e} :: {traceback.format_exc()[-700:]}"]
        return r
    finally:
        signal.alarm(0)


def pmap(fn, items, limit=150, procs=None):
    """run fn(*item) for each item in worker processes; merged Result"""
    out = Result()
    procs = procs or int(os.environ.get("OCA_PROCS", "0")) or min(8, os.cpu_count() or 4)
    jobs = [(fn, i if isinstance(i, tuple) else (i,), limit) for i in items]
    if procs == 1 or len(jobs) <= 1:
        for j in jobs:
            out.merge(_work(j))
        return out
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=6) as pool:
        for r in pool.imap(_work, jobs, chunksize=1):
            out.merge(r)
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p)):
        if e.get("status") == "known":
            out[(e["property"], e["key"])] = e
    return out


def finish(prop, tier, res, t0, level, explanation, assumptions, floor=None, extra_cov=None):
    """print verdict, write evidence; returns the exit code"""
    known = load_known()
    seen = {}
    for f in res.findings:
        seen.setdefault(f.key, f)
    viol, kn = [], []
    for k, f in seen.items():
        (kn if (prop, k) in known else viol).append(f)
    cov = {"explanation": explanation}
    cov.update(extra_cov or {})
    cov.update({k: v for k, v in res.cov.items() if k != "internal_errors"})
    cov["undecided_count"] = len(res.undecided)
    cov["undecided"] = [f"{a}: {b}" for a, b in res.undecided[:60]]
    if res.cov.get("internal_errors"):
        cov["internal_errors"] = [x[:400] for x in res.cov["internal_errors"][:20]]
    if res.samples:
        cov["examples"] = res.samples[:25]
    low = []
    for k, n in (floor or {}).items():
        if res.cov.get(k, 0) < n:
            low.append(f"{k}={res.cov.get(k, 0)} < {n}")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": [f.d() for f in viol]}
    if kn:
        ev["coverage"]["known_findings"] = [f.key for f in kn]
    OUT = os.environ.get("OCA_OUT", VERIF)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in kn:
        print(f"KNOWN-FINDING: property={prop} {f.key}: {f.msg}")
    if viol:
        os.makedirs(os.path.join(OUT, "out"), exist_ok=True)
        rp = os.path.join(OUT, "out", f"{prop}.{tier}.violations.txt")
        with open(rp, "w") as fh:
            for f in viol:
                fh.write(f"{f.where}: [{f.rule}] {f.key}\n    {f.msg}\n")
        for f in viol[:40]:
            print(f"  {f.where}: [{f.rule}] {f.key}\n      {f.msg}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if low:
        print(f"analysis broken: fewer instances than confirmed by hand ({'; '.join(low)})", file=sys.stderr)
        for a, b in res.undecided[:20]:
            print("   undecided", a, b, file=sys.stderr)
        return 2
    print(f"OK property={prop} tier={tier} " + " ".join(f"{k}={v}" for k, v in res.cov.items() if isinstance(v, (int, float))) + f" undecided={len(res.undecided)} wall={time.time()-t0:.1f}s")
    return 0
