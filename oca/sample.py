"""Random interpretation of value graphs: choice of points, fingerprints, tangents and comparison."""
import math
import re
import numpy as np
from . import expr as X
from .expr import E

LD = np.longdouble

UNIT_RANGE = {
    "K": (200.0, 500.0), "degK": (200.0, 500.0), "degC": (-60.0, 120.0), "degF": (-60.0, 200.0), "m/s": (5.0, 300.0), "kn": (30.0, 450.0), "ft/min": (100., 3000.),
    "kg/m**3": (0.05, 1200.0), "Pa": (5e3, 2e5), "psi": (1., 40.), "deg": (-25.0, 50.0), "rad": (-0.5, 0.7), "W": (1e3, 1e6), "kW": (1., 1e3),
    "hp": (50., 5000.), "kg": (1.0, 1e5), "lb": (1.0, 2e5), "N": (100.0, 1e5), "lbf": (100., 5e4), "m": (0.01, 50.0), "ft": (0.5, 4e4),
    "m**2": (0.01, 200.0), "ft**2": (1.0, 3000.0), "kg/s": (0.01, 10.0), "inch": (0.1, 100.), "s": (0.5, 1000.), "kn**2": (1., 1e4),
    "J/kg/K": (500., 5000.), "m**3": (0.01, 100.), "W/m/K": (0.1, 400.),
}
NAME_RANGE = [
    (r"mach|(^|\|)M($|_)|^M$", (0.05, 2.4)), (r"taper", (0.1, 1.0)), (r"toverc|t_over_c", (0.05, 0.25)), (r"(^|\|)AR$|aspect", (3.0, 15.0)),
    (r"throttle|fraction|SOC|eff|eta|bypass|laminar", (0.02, 0.98)), (r"(^|\|)CL|C_L", (-0.5, 2.0)), (r"CD0|CD", (0.005, 0.1)),
    (r"sweep", (-20.0, 45.0)), (r"durations?$|duration|^dt", (10., 3000.)), (r"(^|\|)e$", (0.5, 1.0)), (r"rpm", (500., 3000.)),
    (r"fltcond\|h$|altitude|^h$", (0.0, 20000.0)), (r"(^|\|)rho$", (0.1, 1.4)), (r"gamma", (1.1, 1.6)), (r"TempIncrement", (-30., 40.)),
]


class Meta:
    """sampling information of one symbol"""
    __slots__ = ("default", "units", "name", "kind", "lo", "hi")

    def __init__(self, default, units=None, name="", kind="in", lo=None, hi=None):
        self.default = default
        self.units, self.name, self.kind, self.lo, self.hi = units, name, kind, lo, hi

    def range(self):
        if self.kind == "opt":
            return None
        for pat, r in NAME_RANGE:
            if re.search(pat, self.name):
                if self.units in ("rad",) and "sweep" in pat:
                    return (-0.3, 0.7)
                if pat.startswith("fltcond") and self.units == "ft":
                    return (0.0, 65000.0)
                return r
        if self.units in UNIT_RANGE:
            return UNIT_RANGE[self.units]
        return None


def draw(rng, m, n):
    """n candidate values for a symbol, and the mode used varies per value"""
    d = m.default
    d = float(d) if isinstance(d, (int, float)) and math.isfinite(float(d)) else 1.0
    out = np.empty(n)
    mode = rng.random(n)
    r = m.range()
    logn = rng.normal(size=n)
    U = rng.random(n)
    if m.kind == "opt":
        base = d if d != 0 else 0.3
        v = base * np.exp(0.35 * logn)
        if 0 < d < 1:
            v = np.clip(base * (0.4 + 1.2 * U), 0.01, 0.985)
        if d == 1.0:
            v = np.where(mode < 0.6, 0.5 + 0.49 * U, 0.6 + 1.2 * U)
        if d == 0.0:
            v = U * 0.6
        if d < 0:
            v = d * np.exp(0.3 * logn)
        out = v
    else:
        base = d if d != 0 else 1.0
        a = base * np.exp(0.5 * logn)
        if r is None:
            b = np.where(U < 0.5, base * (0.2 + 2.5 * rng.random(n)), np.exp(rng.uniform(-2.5, 2.5, n)))
            out = np.where(mode < 0.55, a, b)
        else:
            lo, hi = r
            if lo > 0 and hi / lo > 50:
                b = np.exp(rng.uniform(math.log(lo), math.log(hi), n))
            else:
                b = lo + (hi - lo) * rng.random(n)
            out = np.where(mode < 0.3, a, b) if d not in (0.0, 1.0) else np.where(mode < 0.06, a, b)
    if m.lo is not None:
        out = np.maximum(out, m.lo + 1e-3 * rng.random(n))
    if m.hi is not None:
        out = np.minimum(out, m.hi - 1e-3 * rng.random(n))
    return out.astype(LD)


def metas_for(syms, known):
    """sym id -> Meta (symbols without information get a generic one)"""
    out = {}
    for s in sorted(syms, key=lambda s: X.node(s).args[0]):
        nm = X.node(s).args[0]
        out[s] = known.get(nm) or Meta(1.0, None, nm, "gen")
    return out


def default_vals(rng, metas, n, coherent=0.5):
    """sample matrix. For a share of the points all elements of one variable are near each other
    (same regime), for the rest they are independent (mixed regimes)."""
    vals = {}
    groups = {}
    for s, m in metas.items():
        if X.node(s).isbool:
            vals[s] = rng.random(n) < 0.5
            continue
        groups.setdefault((m.name, m.kind), []).append(s)
    coh = rng.random(n) < coherent
    for (nm, k), ss in groups.items():
        base = draw(rng, metas[ss[0]], n)
        for s in ss:
            own = draw(rng, metas[s], n)
            near = base * (1 + 0.15 * rng.normal(size=n))
            vals[s] = np.where(coh, near, own).astype(LD)
    return vals


def truth_table(atoms, vals, n):
    memo = X.evaluate(atoms, vals, n)
    return [memo[a.id] for a in atoms]


def compound(roots, limit=150):
    """conditions of gates that are not atoms, and conjunctions of a gate's condition with that of the gate it sits in"""
    out, seen = [], set()

    def put(c):
        if isinstance(c, E) and c.op not in ("lt", "eq", "isnan", "s", "c") and c.id not in seen and len(out) < limit:
            seen.add(c.id)
            out.append(c)
    for e in X.topo(roots):
        if e.op != "ite" or e.isbool or len(out) >= limit:
            continue
        c = e.args[0]
        put(c)
        for k, side in ((1, c), (2, X.not_(c))):
            b = e.args[k]
            if isinstance(b, E) and b.op == "ite" and not b.isbool:
                put(X.and_(side, b.args[0]))
                put(X.and_(side, X.not_(b.args[0])))
    return out


def near_boundary(c, vals, n, rng, pairs=24, steps=26):
    """points close to the boundary of each comparison in the condition (bisection between points on its two sides)"""
    for a in X.conds([c])[:8]:
        if a.op != "lt":
            continue
        t = truth_table([a], vals, n)[0].astype(bool)
        T, Fa = np.nonzero(t)[0], np.nonzero(~t)[0]
        if not len(T) or not len(Fa):
            continue
        i, j = rng.choice(T, pairs), rng.choice(Fa, pairs)
        lo, hi = np.zeros(pairs, LD), np.ones(pairs, LD)
        bools = {s for s in vals if X.node(s).isbool}

        def at(l):
            return {s: (x[i] if s in bools else x[i] + l * (x[j] - x[i])) for s, x in vals.items()}
        keep = []
        for k in range(steps):
            mid = (lo + hi) / 2
            tm = truth_table([a], at(mid), pairs)[0].astype(bool)
            lo, hi = np.where(tm, mid, lo), np.where(tm, hi, mid)
            if k in (3, 6, 9, 12, 16, 21, 25):
                keep += [lo, hi]
        yield {s: np.concatenate([q[s] for q in map(at, keep)]) for s in vals}


def points(roots, assumptions, known, rng, want=40, pool=500, per_side=4):
    """vals for up to `want` points that satisfy the assumptions, are finite, and together exercise both
    outcomes of each condition of the graph where such points are found. Returns (vals, n, stats)."""
    roots = [r for r in roots if isinstance(r, E)]
    ass = [a for a in assumptions if isinstance(a, E)]
    syms = X.symbols(roots + ass)
    if not syms:
        return {}, 1, {"atoms": 0, "both": 0}
    metas = metas_for(syms, known)
    vals = default_vals(rng, metas, pool)
    atoms = [a for a in X.conds(roots) if a.op == "lt"]
    atoms = atoms[:400]

    def ok(v, n):
        memo = X.evaluate(ass + roots, v, n)
        good = np.ones(n, bool)
        for a in ass:
            good &= memo[a.id].astype(bool)
        nan = np.zeros(n, int)
        for r in roots:
            x = memo[r.id]
            if not r.isbool:
                nan += ~np.isfinite(x)
        return good, nan

    def filt(v, n):
        good, nan = ok(v, n)
        k = np.nonzero(good)[0]
        # points where most roots are finite come first
        k = k[np.argsort(nan[k], kind="stable")]
        return {s: x[k] for s, x in v.items()}, len(k)

    # when assumptions exclude nearly everything, search around
    good, nan = ok(vals, pool)
    tries = 0
    while good.sum() < 30 and tries < 4 and ass:
        tries += 1
        extra = default_vals(rng, metas, pool * 2, coherent=1.0)
        vals = {s: np.concatenate([vals[s], extra[s]]) for s in vals}
        good, nan = ok(vals, len(next(iter(vals.values()))))
    vals, n = filt(vals, len(next(iter(vals.values()))))
    if n == 0:
        return None, 0, {"atoms": len(atoms), "both": 0}
    stats = {"atoms": len(atoms), "both": 0}
    if atoms:
        tt = truth_table(atoms, vals, n)
        lack = [(i, t) for i, t in enumerate(tt) if t.sum() < per_side or (~t).sum() < per_side]
        if lack:
            seeds = min(n, 12)
            add = {s: [] for s in vals}
            budget = 120
            for i, t in lack:
                if budget <= 0:
                    break
                budget -= 1
                need = t.sum() < per_side
                a = atoms[i]
                sup = sorted((s for s in a.sup if not X.node(s).isbool), key=lambda s: X.node(s).args[0])
                if not sup:
                    continue
                factors = np.array([1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.2, 0.33, 0.5, 0.7, 0.85, 0.95, 1.05, 1.2, 1.5, 2, 3, 5, 10, 30, 100, 1e3, 1e4, -1, -0.3, -3, 0.0], dtype=LD)
                found = 0
                order = list(sup)
                rng.shuffle(order)
                byname = {}
                for s in order[:40]:
                    byname.setdefault(metas[s].name, []).append(s)
                moves = [[s] for s in order[:12]] + [v for v in byname.values() if len(v) > 1][:6] + ([order] if len(order) > 1 else [])
                for mv in moves:
                    m = seeds * len(factors)
                    v = {s: np.repeat(x[:seeds], len(factors)) for s, x in vals.items()}
                    f = np.tile(factors, seeds)
                    for s in mv:
                        base = np.where(v[s] == 0, 1.0, v[s])
                        v[s] = (base * f).astype(LD)
                    tr = truth_table([a], v, m)[0]
                    hit = np.nonzero(tr == need)[0]
                    if not len(hit):
                        continue
                    g, nn = ok({s: x[hit] for s, x in v.items()}, len(hit))
                    hit = hit[g]
                    nn = nn[g]
                    if not len(hit):
                        continue
                    hit = hit[np.argsort(nn, kind="stable")]
                    pick = hit[np.linspace(0, len(hit) - 1, min(4, len(hit))).astype(int)]
                    for s in vals:
                        add[s].append(v[s][pick])
                    found += len(pick)
                    if found >= per_side * 2:
                        break
            if any(add[s] for s in add):
                vals = {s: np.concatenate([vals[s]] + add[s]) for s in vals}
                vals, n = filt(vals, len(next(iter(vals.values()))))
            tt = truth_table(atoms, vals, n)
        # compound conditions and conditions reached through another one: both outcomes as well
        comp = compound(roots)
        if comp:
            ct = truth_table(comp, vals, n)
            lack = [(c, t) for c, t in zip(comp, ct) if t.sum() < 2 or (~t.astype(bool)).sum() < 2][:30]
            if lack:
                add = {s: [] for s in vals}
                for c, t in lack:
                    need = t.sum() < 2
                    for q in near_boundary(c, vals, n, rng):
                        m = len(next(iter(q.values())))
                        hit = np.nonzero(truth_table([c], q, m)[0].astype(bool) == bool(need))[0]
                        if not len(hit):
                            continue
                        g, nn = ok({s: x[hit] for s, x in q.items()}, len(hit))
                        hit = hit[g][np.argsort(nn[g], kind="stable")]
                        pick = hit[np.linspace(0, len(hit) - 1, min(5, len(hit))).astype(int)] if len(hit) else hit
                        for s in vals:
                            add[s].append(q[s][pick])
                        if len(pick) >= 3:
                            break
                if any(len(x) for x in add[next(iter(add))]):
                    vals = {s: np.concatenate([vals[s]] + add[s]) for s in vals}
                    vals, n = filt(vals, len(next(iter(vals.values()))))
                ct = truth_table(comp, vals, n)
                tt = truth_table(atoms, vals, n)
            tt = list(tt) + list(ct)
            atoms = atoms + comp
        # choose a subset that covers both outcomes of each condition
        cnt = np.zeros((len(atoms), 2), int)
        chosen = []
        T = np.array([t.astype(bool) for t in tt])
        base = list(range(min(n, want // 2)))
        chosen += base
        for j in base:
            for i in range(len(atoms)):
                cnt[i, int(T[i, j])] += 1
        inch = set(chosen)
        for i in range(len(atoms)):
            for side in (0, 1):
                if cnt[i, side] < per_side:
                    for j in np.nonzero(T[i] == bool(side))[0]:
                        if j in inch:
                            continue
                        chosen.append(j)
                        inch.add(j)
                        cnt[np.arange(len(atoms)), T[:, j].astype(int)] += 1
                        if cnt[i, side] >= per_side:
                            break
            if len(chosen) > want * 4:
                break
        for j in range(n):
            if len(chosen) >= want:
                break
            if j not in inch:
                chosen.append(j)
                inch.add(j)
        stats["both"] = int(((cnt > 0).all(axis=1)).sum())
        k = np.array(chosen)
    else:
        k = np.arange(min(n, want))
    return {s: x[k] for s, x in vals.items()}, len(k), stats


# ---------------------------------------------------------------- tangents
def tangents(roots, syms, vals, n, memo=None):
    """forward derivatives of each root with respect to each symbol (list of ids): {root id: (n, len(syms))}"""
    if memo is None:
        memo = X.evaluate(roots, vals, n)
    S = {s: i for i, s in enumerate(syms)}
    sset = set(syms)
    T = {}
    order = X.topo([r for r in roots if isinstance(r, E)])
    last = {}
    for k, e in enumerate(order):
        for a in e.args:
            if isinstance(a, E):
                last[a.id] = k
    keep = {r.id for r in roots if isinstance(r, E)}
    m = len(syms)
    with np.errstate(all="ignore"):
        for k, e in enumerate(order):
            if e.isbool or not (e.sup & sset):
                continue
            if e.op == "s":
                t = np.zeros((n, m), LD)
                t[:, S[e.id]] = 1
                T[e.id] = t
                continue
            A = e.args
            g = [T.get(a.id) if isinstance(a, E) else None for a in A]
            x = [memo[a.id][:, None] if isinstance(a, E) and not a.isbool else (memo[a.id][:, None] if isinstance(a, E) else None) for a in A]
            y = memo[e.id][:, None]
            op = e.op

            def z(q):
                return 0.0 if q is None else q
            if op == "add":
                t = z(g[0]) + z(g[1])
            elif op == "sub":
                t = z(g[0]) - z(g[1])
            elif op == "neg":
                t = -g[0]
            elif op == "mul":
                t = 0.0
                if g[0] is not None:
                    t = g[0] * x[1]
                    t[g[0] == 0] = 0
                if g[1] is not None:
                    u = g[1] * x[0]
                    u[g[1] == 0] = 0
                    t = t + u
            elif op == "div":
                t = 0.0
                if g[0] is not None:
                    t = g[0] / x[1]
                    t[g[0] == 0] = 0
                if g[1] is not None:
                    u = (x[0] / (x[1] * x[1])) * g[1]
                    u[g[1] == 0] = 0
                    t = t - u
            elif op == "pow":
                t = 0.0
                if g[0] is not None:
                    b = A[1]
                    if b.op == "c" and float(b.args[0]).is_integer() and abs(b.args[0]) < 20:
                        kk = int(b.args[0]) - 1
                        pw = x[0] ** abs(kk)
                        if kk < 0:
                            pw = 1 / pw
                    else:
                        pw = np.power(x[0], x[1] - 1)
                    t = x[1] * pw * g[0]
                    t[g[0] == 0] = 0
                if g[1] is not None:
                    u = y * np.log(x[0]) * g[1]
                    u[g[1] == 0] = 0
                    t = t + u
            elif op == "ite":
                c = memo[A[0].id][:, None]
                t = np.where(c, z(g[1]), z(g[2]))
                if t.shape != (n, m):
                    t = np.broadcast_to(t, (n, m)).copy()
            elif op == "uf":
                t = 0.0
                args = [memo[a.id] for a in A[1:]]
                for i in range(1, len(A)):
                    if g[i] is not None:
                        t = t + X._ufval(A[0] + f"'{i-1}", args)[:, None] * g[i]
            elif op == "atan2":
                den = x[0] * x[0] + x[1] * x[1]
                t = (x[1] * z(g[0]) - x[0] * z(g[1])) / den
            else:
                d = g[0]
                a = x[0]
                f = {"exp": lambda: y, "log": lambda: 1 / a, "sqrt": lambda: 0.5 / y, "sin": lambda: np.cos(a), "cos": lambda: -np.sin(a),
                     "tan": lambda: 1 + y * y, "asin": lambda: 1 / np.sqrt(1 - a * a), "acos": lambda: -1 / np.sqrt(1 - a * a),
                     "atan": lambda: 1 / (1 + a * a), "sinh": lambda: np.cosh(a), "cosh": lambda: np.sinh(a), "tanh": lambda: 1 - y * y,
                     "asinh": lambda: 1 / np.sqrt(1 + a * a), "cbrt": lambda: 1 / (3 * y * y), "log10": lambda: 1 / (a * LD(math.log(10))),
                     "log2": lambda: 1 / (a * LD(math.log(2))), "log1p": lambda: 1 / (1 + a), "expm1": lambda: y + 1,
                     "floor": lambda: np.zeros_like(a), "round": lambda: np.zeros_like(a), "ceil": lambda: np.zeros_like(a),
                     "trunc": lambda: np.zeros_like(a), "erf": lambda: 2 / np.sqrt(LD(math.pi)) * np.exp(-a * a)}.get(op)
                if f is None:
                    raise NotImplementedError(op)
                t = f() * d
                t[d == 0] = 0
            T[e.id] = t
            for a in A:
                if isinstance(a, E) and last.get(a.id) == k and a.id not in keep:
                    T.pop(a.id, None)
    return {r.id: T.get(r.id) for r in roots if isinstance(r, E)}


def val_of(memo, e, n):
    if isinstance(e, E):
        return memo[e.id]
    return np.full(n, LD(e))


def close(a, b, scale=0.0, rel=1e-6):
    with np.errstate(all="ignore"):
        tol = rel * np.maximum(np.abs(a), np.abs(b)) + scale
        return (np.abs(a - b) <= tol) | (a == b)


def confirm_neq(ea, eb, vals, j, rel=1e-6, scale=0.0, dps=60):
    """exact check with high precision at point j; returns (confirmed, va, vb)"""
    import mpmath as mp
    pt = {s: x[j] for s, x in vals.items()}
    va = X.evaluate_mp(ea, pt, dps) if isinstance(ea, E) else mp.mpf(float(ea))
    vb = X.evaluate_mp(eb, pt, dps) if isinstance(eb, E) else mp.mpf(float(eb))
    na, nb = mp.isnan(va), mp.isnan(vb)
    if na and nb:
        return False, va, vb
    if na:
        return False, va, vb
    if nb:
        return True, va, vb
    if mp.isinf(va) or mp.isinf(vb):
        return va != vb, va, vb
    tol = rel * max(abs(va), abs(vb)) + float(scale)
    return bool(abs(va - vb) > tol), va, vb


def point_text(vals, j, syms, limit=14):
    out = []
    for s in sorted(syms, key=lambda s: X.node(s).args[0])[:limit]:
        if s in vals:
            out.append(f"{X.node(s).args[0]}={float(vals[s][j]):.8g}")
    return ", ".join(out)


def compare(ea, eb, assumptions, known, rng, want=40, rel=1e-6, scale=0.0, pool=500):
    """decide ea == eb by random interpretation. returns None if equal on all points, else dict; 'undecided' string
    if no usable points"""
    if ea is eb:
        return None
    if X.has_top(ea) or X.has_top(eb):
        return "undecided"
    if not isinstance(ea, E) and not isinstance(eb, E):
        return None if abs(ea - eb) <= rel * max(abs(ea), abs(eb)) + scale else {"a": ea, "b": eb, "point": ""}
    roots = [r for r in (ea, eb) if isinstance(r, E)]
    vals, n, st = points(roots, assumptions, known, rng, want, pool)
    if n == 0:
        return "undecided"
    memo = X.evaluate(roots, vals, n)
    a, b = val_of(memo, ea, n), val_of(memo, eb, n)
    fin = np.isfinite(a) & np.isfinite(b)
    if not fin.any():
        j = np.nonzero(np.isfinite(b))[0]
        if j.size >= 5 and not X.has_top(ea):
            # the first graph has no value at any point at which the second has one
            return {"a": float(a[j[0]]), "b": float(b[j[0]]), "point": point_text(vals, j[0], X.symbols(roots))}
        return "undecided"
    bad = np.nonzero(fin & ~close(a, b, scale, rel))[0]
    for j in bad[:6]:
        c, va, vb = confirm_neq(ea, eb, vals, j, rel, scale)
        if c:
            return {"a": float(va), "b": float(vb), "point": point_text(vals, j, X.symbols(roots))}
    return None
