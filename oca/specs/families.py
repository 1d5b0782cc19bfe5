"""C28: assemblies that are documented as alike behave alike (both sides of a twin; variants of a system)"""
from .base import *
from .base import _map
from .. import comp as C
from ..interp import InterpRaise

Q = "propulsion.systems.simple_series_hybrid."
TQ = "propulsion.systems.thermal_series_hybrid."
TP = "propulsion.systems.simple_turboprop."
AE = "propulsion.systems.simple_all_electric."


def leaves(f, part):
    return [p for p in f.comps if p == part or p.startswith(part + ".")]


def rename(v, w, pairs, extra):
    """{symbol of w -> symbol of v} for parts named differently or alike: pairs (part of w, part of v)"""
    m = {}
    for pw, pv in pairs:
        for p in leaves(w.flat, pw):
            q = pv + p[len(pw):]
            if q not in v.flat.comps:
                continue
            for n in w.flat.comps[p].om.outputs:
                a, b = w.flat.val.get(p + "." + n), v.flat.val.get(q + "." + n)
                if a is None or b is None or a.size != b.size:
                    continue
                for x, y in zip(a.reshape(-1), b.reshape(-1)):
                    if isinstance(x, E) and x.op == "s" and isinstance(y, E) and y.op == "s":
                        m[x] = y
    for nm, val in extra.items():
        t = w.flat.top_sym.get(nm)
        if t is None:
            continue
        t = t[0].reshape(-1)
        if val is None:
            continue
        src = [X.lift(val)] * t.size if isinstance(val, (int, float)) else list(val.reshape(-1))
        for x, y in zip(t, src):
            if isinstance(x, E):
                m[x] = y
    return m


def unnamed(v, w, pairs):
    """boundary inputs that carry the name of a part: w's -> v's"""
    out = {}
    for nm in w.flat.top_sym:
        for pw, pv in pairs:
            if nm.startswith(pw + "."):
                t = v.flat.top_sym.get(pv + nm[len(pw):])
                if t is not None:
                    out[nm] = t[0]
    return out


def relabel(a, pairs):
    """interpolants are labelled by the path of the component that holds the table"""
    def one(e):
        if not isinstance(e, E):
            return e
        m = {}
        for n in X.topo([e]):
            if n.op == "uf" and isinstance(n.args[0], str):
                lab = n.args[0]
                for pw, pv in pairs:
                    if lab.startswith(f"surrogate:{pw}.") or lab.startswith(f"surrogate:{pw}:"):
                        lab = "surrogate:" + pv + lab[len("surrogate:" + pw):]
                        break
                m[n.id] = X.uf(lab, *[X.subst(x, m) if isinstance(x, E) else x for x in n.args[1:]])
        return X.subst(e, m) if m else e
    return _map(one, a)


def tables(s, what, p, cw, q, cv):
    """the training tables of two interpolants agree"""
    tw, tv = cw.om.extra.get("train", {}), cv.om.extra.get("train", {})
    if set(tw) != set(tv):
        s.bad(f"{what}: tables of {p}", f"'{p}' has tables {sorted(tw)}, '{q}' {sorted(tv)}")
        return
    for k in tw:
        a, b = tw[k][1], tv[k][1]
        if isinstance(a, SArr) and isinstance(b, SArr):
            same = a.shape == b.shape and all((X.lift(x) is X.lift(y)) or x == y for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)))
            s.check(f"{what}: table {k} of {p}", same, f"the table '{k}' of '{p}' differs from that of '{q}'")


def alike(s, v, w, pairs, extra, what):
    ex = dict(unnamed(v, w, pairs), **extra)
    m = rename(v, w, pairs, ex)
    n = 0
    for pw, pv in pairs:
        L = leaves(w.flat, pw)
        for p in L:
            q = pv + p[len(pw):]
            if q not in v.flat.comps:
                s.bad(f"{what}: {p}", f"there is no '{q}'")
                continue
            cw, cv = w.flat.comps[p], v.flat.comps[q]
            if getattr(cw.cls, "name", "") != getattr(cv.cls, "name", ""):
                s.bad(f"{what}: {p}", f"'{p}' is a {getattr(cw.cls, 'name', '?')}, '{q}' a {getattr(cv.cls, 'name', '?')}")
                continue
            tables(s, what, p, cw, q, cv)
            for n_ in list(cw.om.inputs) + list(cw.om.outputs):
                a, b = p + "." + n_, q + "." + n_
                if b not in v.flat.vars:
                    s.bad(f"{what}: {a}", f"there is no '{b}'")
                    continue
                u = w.flat.vars[a][1].units
                io = "in" if n_ in cw.om.inputs else "out"
                x, y = w.get(io, a, u), v.get(io, b, u)
                n += 1
                s.eq(f"{what}: {a} = {b}", relabel(s.subst(x, m), pairs), y, scale=1e-12)
    return n


# ------------------------------------------------------------------ both sides of a twin, everything working
def twins(parts):
    def f(s):
        alike(s, s, s, parts, {"propulsor_active": 1.0}, "both sides alike")
    return f


for _q, _p in ((Q + "TwinSeriesHybridElectricPropulsionSystem", "motor prop"), (TQ + "TwinSeriesHybridElectricThermalPropulsionSystem", "motor prop"),
               (TQ + "TwinSeriesHybridElectricThermalPropulsionRefrigerated", "motor prop"), (TP + "TwinTurbopropPropulsionSystem", "eng prop")):
    law("C28", _q, kind="group", name="sides")(twins([(x + "2", x + "1") for x in _p.split()]))


# ------------------------------------------------------------------ variants of a documented base
def other(s, qual, **kw):
    cls = C.discover()[0]["openconcept." + qual]
    return FlatView(s.r, s.spec, C.Config(cls.qual, dict({k: v for k, v in s.cfg.kw.items() if k == "num_nodes"}, **kw), s.cfg.label), s.tier)


def variant(base, parts, extra=(), defaults=True):
    def f(s):
        try:
            b = other(s, base)
        except InterpRaise:
            return                            # the base does not support this number of points
        if defaults:
            for nm in sorted(set(b.flat.top_in) & set(s.flat.top_in)):
                if nm.startswith("ac|"):
                    a = b.flat.top_in[nm][0][0]
                    u = b.flat.vars[a][1].units
                    s.eq(f"default of {nm} as in {base.rsplit('.', 1)[-1]}", s.val(nm, u), b.val(nm, u))
        ex = {nm: s.flat.top_sym[nm][0] for nm in b.flat.top_sym if nm in s.flat.top_sym}
        s.known.update(b.known)
        alike(s, s, b, [(p, p) if isinstance(p, str) else p for p in parts], dict(ex, **dict(extra)), f"as in {base.rsplit('.', 1)[-1]}")
    return f


TW = ("motor1", "motor2", "prop1", "prop2", "hybrid_split", "eng1", "gen1", "batt1")
law("C28", TQ + "TwinSeriesHybridElectricThermalPropulsionSystem", kind="group", name="base")(variant(Q + "TwinSeriesHybridElectricPropulsionSystem", TW))
law("C28", TQ + "TwinSeriesHybridElectricThermalPropulsionRefrigerated", kind="group", name="base")(
    variant(Q + "TwinSeriesHybridElectricPropulsionSystem", [x for x in TW if x not in ("hybrid_split", "batt1")]))      # the refrigerator adds to the electric load
law("C28", TP + "TwinTurbopropPropulsionSystem", kind="group", name="base")(variant(TP + "TurbopropPropulsionSystem", ("eng1", "prop1"), defaults=False))
law("C28", AE + "AllElectricSinglePropulsionSystemWithThermal_Incompressible", kind="group", name="base")(
    variant(AE + "AllElectricSinglePropulsionSystemWithThermal_Compressible", ("motor1", "prop1", "batt1")))
# the single-motor series hybrid is one side of the twin
law("C28", Q + "SingleSeriesHybridElectricPropulsionSystem", kind="group", name="base")(variant(Q + "TwinSeriesHybridElectricPropulsionSystem", ("motor1", "prop1", "eng1", "gen1")))
