"""C12: dimensional homogeneity of value graphs.

Each input, state, named physical constant and dimensional option is a symbol with the dimensions of its declared unit.
Rescaling a base unit by f multiplies every symbol by f**(its exponent). The graph of an output has to be multiplied by
f**(exponent of the output's declared unit), for each base unit and at points in every regime of the graph."""
import json
import os
import numpy as np
from .. import expr as X
from ..expr import E
from ..interp import Interp, Undecided
from .. import om as OM
from .. import comp as C
from .. import sample as S
from .. import units as U
from .. import flat as F
from ..report import Result
from .common import Ctx, scan, method_line, Stop

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASES = ("kg", "m", "s", "K", "A", "mol", "USD")
# physical constants, wherever the source writes them
CONSTANTS = {1.225: "kg/m**3", 287.0: "J/kg/K", 287.05: "J/kg/K", 287.058: "J/kg/K", 287.053: "J/kg/K", 9.80665: "m/s**2", 9.807: "m/s**2", 9.81: "m/s**2", 8.3145: "J/mol/K", 8.314: "J/mol/K", 2.01588e-3: "kg/mol", 5.670374419e-8: "W/m**2/K**4"}


def table():
    with open(os.path.join(HERE, "dims.json")) as f:
        return json.load(f)


def exps(unit):
    u = U.get(unit)
    if u is None:
        raise Undecided(f"unit {unit}")
    names = U.base_names()
    return {b: u.p[names.index(b)] for b in BASES if b in names and u.p[names.index(b)]}


def offset(unit):
    u = U.get(unit)
    return u is not None and u.off != 0


def hook(lits):
    """literal -> symbol for constants with dimensions; lits: {class or function module: {value: unit}}"""
    def h(v, fr):
        unit = CONSTANTS.get(v)
        if unit is None:
            mod = fr.module.name if fr is not None and getattr(fr, "module", None) is not None else ""
            unit = lits.get(mod.rsplit(".", 1)[-1], {}).get(repr(float(v)))
        if unit is None:
            return v
        return X.sym(f"const:{float(v)!r}:{unit}")
    return h


def dims_of(name, meta, tab, cls):
    """unit of a symbol"""
    if name.startswith("const:"):
        return name.split(":", 2)[2]
    base = name.split("[")[0]
    if base.startswith("opt:"):
        o = base[4:]
        return tab["options"].get(f"{cls}.{o}", tab["options"].get(o))
    if f"{cls}.{base}" in tab["vars"]:
        return tab["vars"][f"{cls}.{base}"]
    if meta is not None:
        return meta.units
    return None


def c12(ctx):
    r, qual, label = ctx.r, ctx.qual, ctx.label
    tab = table()
    cname = qual.rsplit(".", 1)[1]
    claimed = ["*"] if os.environ.get("OCA_DIMS_ALL") else tab["claimed"].get(qual)
    if not claimed:
        return False
    old = Interp.const_hook
    Interp.const_hook = staticmethod(hook(tab["literals"]))
    try:
        it, inst = C.build(ctx.cfg)
        if inst.om.kind == "group":
            return execs(ctx, it, inst, tab, claimed)
        if inst.om.kind not in ("explicit", "implicit"):
            return False
        for k, p in inst.om.options.d.items():
            if (k in tab["options"] or f"{cname}.{k}" in tab["options"]) and p.isset and type(p.val) in (int, float):
                return False        # an option with dimensions is a plain number here: other configurations have it as a symbol
        if not (C.has_method(it, inst, "compute") or C.has_method(it, inst, "apply_nonlinear")):
            return False
        ev = C.run_eval(it, inst, partials=False)
    finally:
        Interp.const_hook = old
    for k, v in list(ev.known.items()):
        if isinstance(v.default, E):
            v.default = 1.0
    for o in ev.outs:
        v = inst.om.outputs[o]
        for i, e in enumerate(ev.outs[o].reshape(-1)):
            if not isinstance(e, E):
                continue
            if o not in claimed and "*" not in claimed:
                continue
            if X.has_top(e):
                ctx.und(f"{o}: not modelled")
                continue
            one(ctx, inst, ev, tab, cname, o, v, i, e)
    return True


def execs(ctx, it, inst, tab, claimed):
    """expression components that a group class adds itself"""
    did = False
    for path, comp in F.Flat(it, inst).comps.items():
        if "." in path or comp.cls.name != "ExecComp":
            continue
        it.assumptions = []
        ev = C.run_eval(it, comp, partials=False)
        for o in ev.outs:
            if f"{path}.{o}" not in claimed and "*" not in claimed:
                continue
            for i, e in enumerate(ev.outs[o].reshape(-1)):
                if isinstance(e, E) and not X.has_top(e):
                    one(ctx, comp, ev, tab, "ExecComp", o, comp.om.outputs[o], i, e, path + ".")
                    did = True
    return did


def one(ctx, inst, ev, tab, cname, o, v, i, e, pre=""):
    r = ctx.r
    syms = sorted(X.symbols([e] + [a for a in ev.assumptions if isinstance(a, E)]))
    D = {}
    for s in syms:
        nm = X.node(s).args[0]
        if nm.startswith("const:") and nm not in ev.known:
            ev.known[nm] = S.Meta(float(nm.split(":")[1]), None, nm, "opt")
        if X.node(s).isbool:
            continue
        m = ev.known.get(nm)
        D[s] = exps(dims_of(nm, m, tab, cname))
    vals, n, _ = S.points([e], ev.assumptions, ev.known, ctx.rng, want=16 if ctx.tier == "quick" else 60, pool=240 if ctx.tier == "quick" else 900)
    if n == 0:
        ctx.und(f"{o}: no admissible point")
        return
    memo = X.evaluate([e], vals, n)
    a = S.val_of(memo, e, n)
    r.count("outputs_checked")
    implicit = inst.om.kind == "implicit"
    want = exps(tab["vars"].get(f"{cname}.{o}", v.units))
    for b in BASES:
        touched = [s for s in D if b in D[s]]
        k = want.get(b, 0)
        if not touched and (k == 0 or implicit):
            continue
        r.count("scalings")
        if os.environ.get("OCA_DIMS_ALL"):
            k_ = f"{ctx.qual}:{pre}{o}"
            r.cov.setdefault("seen", [])
            if k_ not in r.cov["seen"]:
                r.cov["seen"].append(k_)
        bad, scaled = None, 0
        ks = None
        for f in (2.0, 16.0):
            sv = {s: x * S.LD(f) ** D[s].get(b, 0) if s in D else x for s, x in vals.items()}
            m2 = X.evaluate([e], sv, n)
            c = S.val_of(m2, e, n)
            fin = np.isfinite(a) & np.isfinite(c)
            if not fin.any():
                continue
            if implicit:
                # a residual may carry any unit: its exponent is read off one point and has to be the same everywhere
                nz = fin & (a != 0) & (c != 0)
                if ks is None:
                    kk = np.log(np.abs(c[nz] / a[nz])) / np.log(f)
                    if kk.size:
                        ks = float(np.median(kk))
                if ks is None:
                    continue
                exp_ = a * S.LD(f) ** ks
            else:
                exp_ = a * S.LD(f) ** k
            scaled += int(fin.sum())
            w = np.nonzero(fin & ~S.close(c, exp_, 1e-14 * np.max(np.abs(c[fin])) if fin.any() else 0, 1e-7))[0]
            for j in w[:4]:
                g = X.subst(e, {s: X.mul(E_of(s), float(f) ** D[s].get(b, 0)) for s in D if D[s].get(b, 0)})
                h = X.mul(e, float(f) ** float(ks if implicit else k))
                ok, va, vb = S.confirm_neq(g, h, vals, j, 1e-7)
                if ok:
                    bad = (f, va, vb, S.point_text(vals, j, [s for s in D]))
                    break
            if bad:
                break
        r.count("points", scaled)
        if bad:
            f, va, vb, pt = bad
            meth = method_line(ev.it, inst, "compute", "apply_nonlinear") if not pre else ctx.qual
            r.add(f"{ctx.qual}:{pre}{o}", f"'{pre}{o}' [{v.units}] does not scale with its inputs: with the unit of {b} divided by {f:g} it becomes {float(va):.8g} instead of {float(vb):.8g} "
                  f"at {pt} [config {ctx.label}]", meth, "not-homogeneous")
            return


def E_of(s):
    return X.node(s)


def run(tier, only=None):
    return scan("C12", tier, ("explicit", "implicit", "group"), c12, only)
