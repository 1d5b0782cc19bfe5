"""C24: the two sides of every condition of a value graph agree on the condition's boundary"""
import re
import mpmath as mp
import numpy as np
from .common import *

DPS = 70
POSITIVE = {"K", "degK", "kg/m**3", "kg * m**-3", "m**2", "ft**2", "kg", "lb"}


def domain_of(ev, inst):
    """the physical domain: outside it a component may do anything (documented guards for non-physical inputs)"""
    D = []
    I = lambda n: ev.ins[n].a.reshape(-1) if n in ev.ins else None
    for n, v in inst.om.inputs.items():
        a = I(n)
        if a is None:
            continue
        if v.units in POSITIVE:
            D += [X.lt(1e-9, X.lift(e)) for e in a]
        elif re.search(r"taper|toverc|AR$|effectiveness", n):
            D += [X.lt(1e-9, X.lift(e)) for e in a]
    name = inst.cls.name
    if name == "Groundspeeds":
        # climbing faster than flying is guarded
        D += [X.lt(v * v, u * u) for v, u in zip(I("fltcond|vs"), I("fltcond|Utrue"))]
    if name == "ExplicitIncompressibleDuct":
        # suction above the available dynamic pressure is guarded
        for r, u, d in zip(I("fltcond|rho"), I("fltcond|Utrue"), I("delta_p_hex")):
            D.append(X.lt(1e-9, r * r * u * u + 2.0 * r * d))
    if name == "TakeoffTransition":
        # a climbing arc: load factor above one, climb angle below the vertical
        o = inst.om.options.d["load_factor"].val
        D += [X.lt(1.0 + 1e-6, X.lift(o))] + [X.lt(X.lift(g), 1.5) for g in I("gamma")] + [X.lt(0.0, X.lift(g)) for g in I("gamma")]
    return [d for d in D if isinstance(d, E)]


def _pt(vals, j):
    return {s: (bool(x[j]) if x.dtype == bool else mp.mpf(float(x[j]))) for s, x in vals.items()}


def _mix(p, q, t):
    return {s: (v if isinstance(v, bool) else v + t * (q[s] - v)) for s, v in p.items()}


def crossing(atom, p, q):
    """points just before and after the place where the atom changes its truth value on the segment p..q"""
    d = X.sub(*atom.args)
    ev = lambda t: X.evaluate_mp(d, _mix(p, q, t), DPS) if isinstance(d, E) else mp.mpf(float(d))
    lo, hi = mp.mpf(0), mp.mpf(1)
    fl, fh = ev(lo), ev(hi)
    if mp.isnan(fl) or mp.isnan(fh) or mp.isinf(fl) or mp.isinf(fh) or (fl < 0) == (fh < 0):
        return None
    side = (fl < 0)
    tiny = mp.mpf(10) ** -40
    gl, gh, stuck = fl, fh, 0
    for k in range(220):
        if hi - lo < tiny:
            break
        m = (lo * gh - hi * gl) / (gh - gl) if k % 3 else (lo + hi) / 2
        if not lo < m < hi:
            m = (lo + hi) / 2
        # probe both sides of the estimate, so that the bracket shrinks from both ends
        w = (hi - lo) * mp.mpf(10) ** -4 if k % 3 else mp.mpf(0)
        for x in ((m - w, m + w) if w else (m,)):
            if not lo < x < hi:
                continue
            f = ev(x)
            if mp.isnan(f):
                return None
            if (f < 0) == side:
                lo, gl = x, f
            else:
                hi, gh = x, f
                break
    if hi - lo > mp.mpf(10) ** -20:
        return None
    # a condition that changes sign through a pole does not cross its boundary there
    if abs(gl) + abs(gh) > mp.mpf(10) ** -8 * (abs(fl) + abs(fh)):
        return None
    return _mix(p, q, lo), _mix(p, q, hi), (lo + hi) / 2


def ok_at(ass, p):
    for a in ass:
        m = dict(p)
        # domain conditions may speak about quantities the graph does not depend on: free to choose
        if not all(s in p for s in a.sup):
            continue
        if not bool(X.evaluate_mp(a, m, 30)):
            return False
    return True


def fmt(p, syms, n=8):
    return ", ".join(f"{X.node(s).args[0]}={float(p[s]):.7g}" for s in sorted(syms, key=lambda s: X.node(s).args[0])[:n] if s in p)


def scan_root(root, ass, known, rng, order=0, tol=1e-7, per_atom=2, max_atoms=40, stats=None, domain=(), slope_floor=0.0):
    """yields dict(kind, atom, before, after, point) for every jump; order=1 also compares slopes along the crossing"""
    ass = [a for a in ass if isinstance(a, E)]
    atoms = [a for a in X.conds([root]) if a.op == "lt"][:max_atoms]
    single = [a for a in X.conds([root]) if a.op == "eq"][:max_atoms] if not order else []
    if not atoms and not single:
        return
    vals, n, st = S.points([root], ass, known, rng, want=60, per_side=3)
    if not vals or n == 0:
        if stats is not None:
            stats["no_point"] = stats.get("no_point", 0) + 1
        return
    memo = X.evaluate([root] + atoms, vals, n)
    fin = np.isfinite(memo[root.id])
    mags = np.abs(memo[root.id][fin].astype(float)) if fin.any() else np.zeros(1)
    typical = float(np.median(mags)) or float(np.mean(mags))
    floor = mp.mpf(typical) * mp.mpf("1e-9") + mp.mpf("1e-30")
    # beyond this the crossing sits at a pole of the graph, not at a switch between two finite sides
    wild = mp.mpf(max(float(np.max(mags)), 1e-30)) * mp.mpf("1e8")
    old = mp.mp.dps
    mp.mp.dps = DPS
    try:
        for a in single:
            yield from special_value(root, a, vals, n, fin, ass, domain, rng, tol, floor, wild, stats)
        for a in atoms:
            t = memo[a.id].astype(bool)
            T, F = np.nonzero(t & fin)[0], np.nonzero(~t & fin)[0]
            if not len(T) or not len(F):
                if stats is not None:
                    stats["one_sided"] = stats.get("one_sided", 0) + 1
                continue
            done = tries = 0
            while done < per_atom and tries < 4 * per_atom:
                tries += 1
                p = _pt(vals, int(rng.choice(T)))
                q0 = _pt(vals, int(rng.choice(F)))
                q = dict(q0)
                for s, v in p.items():
                    if isinstance(v, bool):
                        q[s] = v
                # move as few symbols as needed: those of the condition
                if tries % 2:
                    q = {s: (q0[s] if s in a.sup and not isinstance(v, bool) else v) for s, v in p.items()}
                if not ok_at(domain, p):
                    continue
                try:
                    c = crossing(a, p, q)
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue
                if c is None or not ok_at(ass, c[0]) or not ok_at(ass, c[1]) or not ok_at(domain, c[0]) or not ok_at(domain, c[1]):
                    continue
                u, v = X.evaluate_mp(root, c[0], DPS), X.evaluate_mp(root, c[1], DPS)
                if isinstance(u, mp.mpf) and isinstance(v, mp.mpf) and (mp.isnan(u) or mp.isnan(v) or mp.isinf(u) or mp.isinf(v)):
                    continue
                if isinstance(u, mp.mpf) and isinstance(v, mp.mpf) and max(abs(u), abs(v)) > wild:
                    if stats is not None:
                        stats["at_pole"] = stats.get("at_pole", 0) + 1
                    continue
                done += 1
                if stats is not None:
                    stats["crossings"] = stats.get("crossings", 0) + 1
                if abs(u - v) > tol * max(abs(u), abs(v)) + floor:
                    yield {"kind": "value", "atom": a, "before": float(u), "after": float(v), "point": fmt(c[0], a.sup)}
                    break
                # the boundary itself belongs to one of the sides
                e = exact(a, c[0])
                if e is not None:
                    w = X.evaluate_mp(root, e, DPS)
                    if isinstance(w, mp.mpf) and not mp.isnan(w) and abs(w - u) > tol * max(abs(u), abs(v), abs(w)) + floor:
                        yield {"kind": "point", "atom": a, "before": float(u), "after": float(w), "point": fmt(e, a.sup)}
                        break
                if order:
                    h = mp.mpf(10) ** -25
                    tt = c[2]
                    f = lambda s: X.evaluate_mp(root, _mix(p, q, s), DPS)
                    d0, d1 = (f(tt - h) - f(tt - 2 * h)) / h, (f(tt + 2 * h) - f(tt + h)) / h
                    if mp.isnan(d0) or mp.isnan(d1):
                        continue
                    if abs(d0 - d1) > 1e-6 * max(abs(d0), abs(d1), slope_floor):
                        yield {"kind": "slope", "atom": a, "before": float(d0), "after": float(d1), "point": fmt(c[0], a.sup)}
                        break
    finally:
        mp.mp.dps = old


def special_value(root, a, vals, n, fin, ass, domain, rng, tol, floor, wild, stats):
    """a value singled out by an equality: the output there is the limit of the output next to it"""
    idx = np.nonzero(fin)[0]
    for j in rng.permutation(idx)[:4]:
        p = _pt(vals, int(j))
        try:
            e = exact(a, p)
            if e is None:
                return
            moved = [k for k in e if k not in p or (not isinstance(e[k], bool) and e[k] != p[k])]
            if len(moved) > 1:
                return
            s = moved[0] if moved else [x.id for x in a.args if isinstance(x, E) and x.op == "s"][0]
            d = mp.mpf(10) ** -20 * (1 + abs(e[s]))
            lo, hi = dict(e), dict(e)
            lo[s] -= d
            hi[s] += d
            if not all(ok_at(c, q) for c in (ass, domain) for q in (e, lo, hi)):
                continue
            u, v, w = (X.evaluate_mp(root, q, DPS) for q in (lo, hi, e))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError):
            continue
        if not all(isinstance(x, mp.mpf) and mp.isfinite(x) and abs(x) < wild for x in (u, v, w)):
            continue
        if stats is not None:
            stats["special_values"] = stats.get("special_values", 0) + 1
        if all(abs(w - x) > tol * max(abs(w), abs(x)) + floor for x in (u, v)):
            yield {"kind": "point", "atom": a, "before": float(u), "after": float(w), "point": fmt(e, a.sup)}
            return


def exact(a, p):
    """the point moved so that both sides of the comparison are equal, when one side is a plain symbol"""
    l, r = a.args
    for x, y in ((l, r), (r, l)):
        if isinstance(x, E) and x.op == "s" and not (isinstance(y, E) and x.id in y.sup):
            q = dict(p)
            q[x.id] = X.evaluate_mp(y, p, DPS) if isinstance(y, E) else mp.mpf(float(y))
            return q
    return None


def conditional(e):
    return isinstance(e, E) and any(q.op == "lt" for q in X.conds([e]))


def names_of(a):
    import re
    return ",".join(sorted({re.sub(r"\[.*", "", X.node(s).args[0]) for s in a.sup}))


def c24(ctx):
    it, inst = C.build(ctx.cfg)
    if inst.om.kind != "explicit":
        return False
    ev = C.run_eval(it, inst, partials=False)
    st = {}
    dom = domain_of(ev, inst)
    for k, a in ev.outs.items():
        fl = a.reshape(-1)
        for i in sorted({0, len(fl) // 2, len(fl) - 1}) if len(fl) else []:
            e = fl[i]
            if not isinstance(e, E):
                continue
            ctx.r.count("outputs_checked")
            if X.has_top(e):
                ctx.und(f"{k}[{i}] not resolved")
                continue
            big = len(X.topo([e])) > 2000
            if big and i != 0 and ctx.tier == "quick":
                continue
            for f in scan_root(e, ev.out_assumptions, ev.known, ctx.rng, stats=st, domain=dom, per_atom=1 if big else 2):
                w = names_of(f["atom"])
                ctx.r.add(f"{ctx.qual}:{k} over {w}:{f['kind']}",
                          f"'{k}' jumps from {f['before']:.9g} to {f['after']:.9g} where a condition on {w} switches, at {f['point']} [config {ctx.label}]",
                          method_line(it, inst, "compute", "apply_nonlinear"), "discontinuity")
    for k, n in st.items():
        ctx.r.count(k, n)


def run_c24(tier, only=None):
    return scan("C24", tier, ("explicit",), c24, only, cap=10 if tier == "quick" else 40)
