"""C18 integration / differentiation / point generation, C19 algebra components"""
import itertools
import numpy as np
from .base import *
from .. import comp as K
from ..values import SArr
from ..npmodel import asarr
from .. import expr as X
from .. import units as U

U_ = "utilities."
M_ = "utilities.math."


def sym(n):
    return X.sym("opt:" + n)


def table_law(pid, qual, table, **kw):
    """law whose configurations carry their own description of the table handed to the component"""
    T = {}

    def cfgs(cls, tier):
        out = []
        for lab, args, driver, info in table(tier):
            T[lab] = info
            out.append(K.Config(cls.qual, args, lab, driver))
        return out

    def deco(f):
        def g(s):
            f(s, T[s.cfg.label])
        g.__name__ = f.__name__
        law(pid, qual, cfgs=cfgs, valid=True, **kw)(g)
        return f
    return deco


def seq(method, calls):
    return K._seq(*[K._d(method, *a, **k) for a, k in calls])


# ------------------------------------------------------------------ sums and products
NAMES = ["a", "b", "c", "d"]


def var(s, name):
    return s.inst.om.inputs.get(name) or s.inst.om.outputs.get(name)


def attrs(s, name, units, extra, shape):
    v = var(s, name)
    s.check(f"units of {name}", v.units == units or (v.units and units and U.compatible(v.units, units) and float(U.convert(1.0, v.units, units)) == 1.0), f"declared in {v.units}, the user asked for {units}")
    s.check(f"shape of {name}", tuple(v.shape) == tuple(shape), f"shape {v.shape}, the table implies {shape}")
    for k in ("lower", "upper", "ref", "ref0"):
        if k in extra:
            have = getattr(v, k)
            s.check(f"{k} of {name}", have is not None and not isinstance(have, SArr) and have == extra[k], f"{have} instead of {extra[k]}")
    if "val" in extra:
        s.eq(f"default of {name}", v.val.a, np.broadcast_to(extra["val"], shape))


def addsub_table(tier):
    sizes = [(1, 1), (3, 1), (2, 3)]
    for n in (1, 2, 3, 4):
        for vs, ln in sizes:
            for sf in (None, "sym", "neg"):
                names = NAMES[:n]
                f = None if sf is None else ([sym(f"sf{i}") for i in range(n)] if sf == "sym" else [(-1.0) ** i * (i + 1) for i in range(n)])
                ex = dict(units="kg", lower=-5.0, upper=90.0, ref=3.0, ref0=0.5) if n == 2 else (dict(units="ft/s") if n == 3 else {})
                args = dict(output_name="out", input_names=names, vec_size=vs, length=ln, scaling_factors=f, **ex)
                ex2 = dict(ex)
                if n == 2:
                    args["val"] = ex2["val"] = 7.5
                yield f"n={n} {vs}x{ln} {sf}", args, None, [("out", names, [vs] * n, ln, f, ex2)]
    for pat in ([1, 4, 1], [4, 1, 4], [4, 1, 1]):
        for ln in (1, 2):
            f = [sym(f"sf{i}") for i in range(3)]
            yield f"mixed {pat} len={ln}", dict(output_name="out", input_names=NAMES[:3], vec_size=pat, length=ln, scaling_factors=f, units="m"), None, [("out", NAMES[:3], pat, ln, f, dict(units="m"))]
    yield "one name", dict(output_name="out", input_names="alone", vec_size=2, scaling_factors=[sym("sf0")]), None, [("out", ["alone"], [2], 1, [sym("sf0")], {})]
    eqs = [(("p", ["a", "b"]), dict(vec_size=2, units="kg", scaling_factors=[sym("s1"), sym("s2")], val=4.0, lower=0.0)),
           (("q", ["d", "c"]), dict(vec_size=3, units="m", scaling_factors=[sym("s3"), sym("s4")], val=5.0, upper=9.0, ref=2.0)),
           (("r", ["e", "f", "g"]), dict(vec_size=[1, 2, 1], length=2, units="s"))]
    yield "three equations", {}, seq("add_equation", eqs), [
        ("p", ["a", "b"], [2, 2], 1, [sym("s1"), sym("s2")], dict(units="kg", val=4.0, lower=0.0)),
        ("q", ["d", "c"], [3, 3], 1, [sym("s3"), sym("s4")], dict(units="m", val=5.0, upper=9.0, ref=2.0)),
        ("r", ["e", "f", "g"], [1, 2, 1], 2, None, dict(units="s"))]


def shp(n, ln):
    return (n,) if ln == 1 else (n, ln)


@table_law("C19", M_ + "add_subtract_comp.AddSubtractComp", addsub_table)
def weighted_sum(s, table):
    for out, names, sizes, ln, f, ex in table:
        n = max(sizes)
        want = np.zeros(shp(n, ln), dtype=object)
        for k, nm in enumerate(names):
            want = want + (f[k] if f is not None else 1.0) * s.i(nm)
        s.eq(f"sum '{out}'", s.o(out), want)
        attrs(s, out, ex.get("units"), ex, shp(n, ln))
        for k, nm in enumerate(names):
            attrs(s, nm, ex.get("units"), {}, shp(sizes[k], ln))


def muldiv_table(tier):
    for n in (1, 2, 3, 4):
        for div in itertools.product((False, True), repeat=n):
            names = NAMES[:n]
            un = ["kg", "s", None, "m"][:n]
            for vs, ln in ((3, 1), (2, 2)) if n < 4 else ((2, 1),):
                args = dict(output_name="out", input_names=names, vec_size=vs, length=ln, scaling_factor=sym("sf"), divide=list(div), input_units=un)
                yield f"n={n} {vs}x{ln} div={div}", args, None, [("out", names, [vs] * n, ln, sym("sf"), div, un, {})]
    for n in (1, 2, 3):
        for div in itertools.product((False, True), repeat=n):
            for ku, un in enumerate((["kg*m/s", "W*h/kg", "m**2"], ["ft/min", None, "J/kg/K"], [None, "1/s", "kg/m**3"])):
                yield f"n={n} compound units {ku} div={div}", dict(output_name="out", input_names=NAMES[:n], vec_size=1, scaling_factor=sym("sf"), divide=list(div), input_units=un[:n]), None, \
                    [("out", NAMES[:n], [1] * n, 1, sym("sf"), div, un[:n], {})]
    for pat in ([1, 4, 1], [4, 1, 4], [4, 1, 1]):
        for ln in (1, 2):
            d = [True, False, True]
            yield f"mixed {pat} len={ln}", dict(output_name="out", input_names=NAMES[:3], vec_size=pat, length=ln, scaling_factor=sym("sf"), divide=d, input_units=[None, "m", "s"]), None, \
                [("out", NAMES[:3], pat, ln, sym("sf"), d, [None, "m", "s"], {})]
    for d in (False, True):
        yield f"one name div={d}", dict(output_name="out", input_names="alone", vec_size=2, scaling_factor=sym("sf"), divide=[d], input_units=["m/s"]), None, [("out", ["alone"], [2], 1, sym("sf"), [d], ["m/s"], {})]
    yield "defaults", dict(output_name="out", input_names=["a", "b"], val=3.5), None, [("out", ["a", "b"], [1, 1], 1, 1.0, [False, False], [None, None], dict(val=3.5))]
    eqs = [(("p", ["a", "b"]), dict(vec_size=2, input_units=["kg", "s"], divide=[False, True], scaling_factor=sym("s1"), val=4.0, lower=0.0, tags=None)),
           (("q", ["d", "c"]), dict(vec_size=3, input_units=["m", "m"], scaling_factor=sym("s2"), val=5.0, upper=9.0, ref=2.0)),
           (("r", ["e", "f", "g"]), dict(vec_size=[1, 2, 1], length=2, divide=[True, True, False]))]
    yield "three equations", {}, seq("add_equation", eqs), [
        ("p", ["a", "b"], [2, 2], 1, sym("s1"), [False, True], ["kg", "s"], dict(val=4.0, lower=0.0)),
        ("q", ["d", "c"], [3, 3], 1, sym("s2"), [False, False], ["m", "m"], dict(val=5.0, upper=9.0, ref=2.0)),
        ("r", ["e", "f", "g"], [1, 2, 1], 2, 1.0, [True, True, False], [None] * 3, {})]


def product_units(un, div):
    p = [f"({u})**{-1 if d else 1}" for u, d in zip(un, div) if u]
    return "*".join(p) if p else None


@table_law("C19", M_ + "multiply_divide_comp.ElementMultiplyDivideComp", muldiv_table)
def product(s, table):
    for out, names, sizes, ln, sf, div, un, ex in table:
        n = max(sizes)
        want = np.ones(shp(n, ln), dtype=object) * sf
        for k, nm in enumerate(names):
            want = want / s.i(nm) if div[k] else want * s.i(nm)
        s.eq(f"product '{out}'", s.o(out), want)
        attrs(s, out, product_units(un, div), ex, shp(n, ln))
        for k, nm in enumerate(names):
            attrs(s, nm, un[k], {}, shp(sizes[k], ln))


# ------------------------------------------------------------------ concatenate and split
def concat_table(tier):
    for sizes in ([3], [2, 3], [1, 1, 1], [2, 4, 1], [1, 3, 2, 2]):
        for ln in (1, 2, 3):
            names = NAMES[:len(sizes)]
            ex = dict(units="kg", lower=-5.0, upper=90.0, ref=3.0, ref0=0.5) if len(sizes) == 2 else {}
            a = dict(output_name="out", input_names=names, vec_sizes=sizes, length=ln, **ex)
            e2 = dict(ex)
            if ex:
                a["val"] = e2["val"] = 7.5
            yield f"{sizes} len={ln}", a, None, [("out", names, sizes, ln, e2)]
    yield "one name", dict(output_name="out", input_names="alone", vec_sizes=[3], length=2, units="m"), None, [("out", ["alone"], [3], 2, dict(units="m"))]
    yield "two relations", {}, seq("add_relation", [(("p", ["a", "b"], [2, 3]), dict(units="m", val=4.0)), (("q", ["c", "d"], [1, 2]), dict(units="s", length=2, lower=1.0))]), [
        ("p", ["a", "b"], [2, 3], 1, dict(units="m", val=4.0)), ("q", ["c", "d"], [1, 2], 2, dict(units="s", lower=1.0))]


@table_law("C19", M_ + "combine_split_comp.VectorConcatenateComp", concat_table)
def concatenate(s, table):
    for out, names, sizes, ln, ex in table:
        want = np.concatenate([s.i(n).reshape(shp(k, ln)) for n, k in zip(names, sizes)], axis=0)
        s.eq(f"concatenation '{out}'", s.o(out), want)
        attrs(s, out, ex.get("units"), ex, shp(sum(sizes), ln))
        for n, k in zip(names, sizes):
            attrs(s, n, ex.get("units"), {}, shp(k, ln))


def split_table(tier):
    for sizes in ([3], [2, 3], [1, 1, 1], [2, 4, 1], [1, 3, 2, 2]):
        for ln in (1, 2, 3):
            names = NAMES[:len(sizes)]
            ex = dict(units="kg", lower=-5.0, upper=90.0, ref=3.0, ref0=0.5) if len(sizes) == 2 else {}
            a = dict(output_names=names, input_name="x", vec_sizes=sizes, length=ln, **ex)
            e2 = dict(ex)
            if ex:
                a["val"] = e2["val"] = 7.5
            yield f"{sizes} len={ln}", a, None, [(names, "x", sizes, ln, e2)]
    yield "one name", dict(output_names="alone", input_name="x", vec_sizes=[3], length=2, units="m"), None, [(["alone"], "x", [3], 2, dict(units="m"))]
    yield "two relations", {}, seq("add_relation", [((["a", "b"], "x", [2, 3]), dict(units="m", val=4.0)), ((["c", "d"], "y", [1, 2]), dict(units="s", length=2, lower=1.0))]), [
        (["a", "b"], "x", [2, 3], 1, dict(units="m", val=4.0)), (["c", "d"], "y", [1, 2], 2, dict(units="s", lower=1.0))]


@table_law("C19", M_ + "combine_split_comp.VectorSplitComp", split_table)
def split(s, table):
    for names, inp, sizes, ln, ex in table:
        x = s.i(inp)
        attrs(s, inp, ex.get("units"), {}, shp(sum(sizes), ln))
        k = 0
        for n, sz in zip(names, sizes):
            s.eq(f"part '{n}'", s.o(n), x[k:k + sz])
            attrs(s, n, ex.get("units"), ex, shp(sz, ln))
            k += sz


# ------------------------------------------------------------------ selection, extrema, labels, tables
def selector_table(tier):
    for nn in (1, 2, 4):
        for n in (1, 2, 3, 4):
            yield f"nn={nn} n={n}", dict(num_nodes=nn, input_names=["A", "B", "C", "D"][:n], units="g"), None, n


@table_law("C19", U_ + "selector.SelectorComp", selector_table)
def selection(s, n):
    names = ["A", "B", "C", "D"][:n]
    sel = s.i("selector")
    for k, nm in enumerate(names):
        for j in range(s.nn):
            s.eq(f"result where the selector is {k}", s.subst(s.o("result"), {sel[m]: X.lift(float(k)) for m in range(s.nn)})[j], s.i(nm)[j])
            attrs(s, nm, "g", {}, (s.nn,))
    attrs(s, "result", "g", {}, (s.nn,))
    # each point chooses for itself
    if n > 1 and s.nn > 1:
        m = {sel[j]: X.lift(float(j % n)) for j in range(s.nn)}
        r = s.subst(s.o("result"), m)
        for j in range(s.nn):
            s.eq("result at each point follows that point's selector", r[j], s.i(names[j % n])[j])


def _ext(name, isbig):
    def f(s):
        a, m = s.i("array"), s.o(name)
        want = a[0]
        for k in range(1, len(a)):
            want = maximum(want, a[k]) if isbig else minimum(want, a[k])
        s.eq(f"{name} of the array", m, want)
        attrs(s, name, s.opt("units"), {}, (1,))
        attrs(s, "array", s.opt("units"), {}, (s.nn,))
    f.__name__ = name
    return f


law("C19", M_ + "max_min_comp.MaxComp")(_ext("max", True))
law("C19", M_ + "max_min_comp.MinComp")(_ext("min", False))


def label_table(tier):
    v3, m22 = np.array([1.0, 2.0, 3.0]), np.array([[1.0, 2.0], [3.0, 4.0]])
    yield "scalars", dict(vars_list=[["a", "b", 1.5, "kg"], ["c", "d", 2, None], ["e", "f", 0.0, "m"]]), None, [("a", "b", 1.5, "kg", (1,)), ("c", "d", 2, None, (1,)), ("e", "f", 0.0, "m", (1,))]
    yield "vectors", dict(vars_list=[["a", "b", v3, "kg"], ["c", "d", v3 * 2, None]]), None, [("a", "b", v3, "kg", (3,)), ("c", "d", v3 * 2, None, (3,))]
    yield "matrix", dict(vars_list=[["a", "b", m22, "kg"], ["c", "d", 4.0, "deg"]]), None, [("a", "b", m22, "kg", (2, 2)), ("c", "d", 4.0, "deg", (1,))]


@table_law("C19", U_ + "dvlabel.DVLabel", label_table)
def label(s, table):
    s.check("number of variables", len(s.inst.om.inputs) == len(table) == len(s.inst.om.outputs), f"{len(s.inst.om.inputs)} inputs, {len(s.inst.om.outputs)} outputs for {len(table)} rows")
    for i, o, v, un, sh in table:
        s.eq(f"'{o}' repeats '{i}'", s.o(o), s.i(i))
        attrs(s, i, un, dict(val=v), sh)
        attrs(s, o, un, dict(val=v), sh)


def dict_table(tier):
    m22, v3 = np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([1.0, 2.0, 3.0])
    data = {"ac": {"geom": {"S": {"value": 20.0, "units": "m**2"}, "sweep": {"value": v3}}, "n": {"value": 3, "units": None}, "mat": {"value": m22, "units": "kg"}}}
    names = ["ac|geom|S", "ac|geom|sweep", "ac|n", "ac|mat"]
    info = [("ac|geom|S", 20.0, "m**2", (1,)), ("ac|geom|sweep", v3, None, (3,)), ("ac|n", 3, None, (1,)), ("ac|mat", m22, "kg", (2, 2))]
    yield "nested", (data,), K._seq(*[K._d("add_output_from_dict", n) for n in names]), info
    yield "separator", (data,), K._d("add_output_from_dict", "ac:geom:S", separator=":"), [("ac:geom:S", 20.0, "m**2", (1,))]


DICT = {}


def dict_cfgs(cls, tier):
    out = []
    for lab, args, drv, info in dict_table(tier):
        DICT[lab] = info
        out.append(K.Config(cls.qual, {}, lab, drv, args=args))
    return out


def dict_entries(r, tier):
    """entries of the data dictionary reach the variable of the same name"""
    from ..checks.common import Ctx
    cls = C.discover()[0].get("openconcept." + U_ + "dict_indepvarcomp.DictIndepVarComp")
    if cls is None:
        return False
    spec = [x for x in SPECS if x.fn is dict_entries][0]
    n = 0
    for cfg in dict_cfgs(cls, tier):
        s = View(r, spec, cfg, tier)
        s.spec_qual = cls.qual
        s.it, s.inst = C.build(cfg)
        s.known, s.assumptions = {}, []
        for nm, val, un, sh in DICT[cfg.label]:
            v = s.inst.om.outputs.get(nm)
            s.check(f"entry '{nm}' is an output", v is not None, "missing")
            if v is not None:
                attrs(s, nm, un, dict(val=val), sh)
        n += s.n
        r.count("configs_decided")
    return n > 0


law("C19", U_ + "dict_indepvarcomp.DictIndepVarComp", kind="own")(dict_entries)


DYMOS = "openconcept." + U_ + "dict_indepvarcomp"


def dymos_entries(r, tier):
    """entries of the data dictionary become design parameters of the same name, targeting the same name in every phase"""
    spec = [x for x in SPECS if x.fn is dymos_entries][0]
    n = 0
    for lab, args, drv, info in dict_table(tier):
        for phases in (["climb", "cruise"], ["only"]):
            s = View(r, spec, K.Config(DYMOS, {}, f"{lab}, {len(phases)} phases"), tier)
            s.known, s.assumptions = {}, []
            s.it = K.new_interp()
            m = s.it.load(DYMOS)
            cls = m.ns.get("DymosDesignParamsFromDict") if m else None
            if cls is None:
                return False
            s.inst = None
            s.where = lambda: f"{K.rel(m.path)}:{cls.node.lineno} DymosDesignParamsFromDict"
            s.it.phase = "run"
            traj = s.it.call(s.it.load("ocastub.traj").ns["Traj"], [phases], {})
            try:
                o = s.it.call(cls, [K.deep(args[0]), traj], {})
                for k, (nm, val, un, sh) in enumerate(info):
                    kw = {} if lab == "nested" else {"separator": ":"}
                    if k == 1:
                        kw.update(opt=True, dynamic=True)
                    s.it.call(s.it.getattr(o, "add_output_from_dict"), [nm], kw)
            except (Undecided, InterpRaise) as e:
                s.und(str(e))
                continue
            got = traj.attrs["params"]
            s.check("one parameter for each entry", [g[0] for g in got] == [i[0] for i in info], f"{[g[0] for g in got]}")
            for k, (g, (nm, val, un, sh)) in enumerate(zip(got, info)):
                kw = dict(g[1])
                s.check(f"units of '{nm}'", kw.get("units") == un, f"{kw.get('units')} instead of {un}")
                v = asarr(s.it, kw.get("val"))
                s.check(f"shape of '{nm}'", v.shape == sh, f"{v.shape} instead of {sh}")
                if v.shape == sh:
                    s.eq(f"value of '{nm}'", v.a, np.broadcast_to(val, sh))
                s.check(f"targets of '{nm}'", {p: list(t) for p, t in kw.get("targets", {}).items()} == {p: [nm] for p in phases}, f"{kw.get('targets')}")
                s.check(f"options of '{nm}'", (kw.get("opt"), kw.get("dynamic")) == ((True, True) if k == 1 else (False, False)), f"opt {kw.get('opt')}, dynamic {kw.get('dynamic')}")
            n += s.n
            r.count("configs_decided")
    return n > 0


law("C19", U_ + "dict_indepvarcomp.DymosDesignParamsFromDict", kind="own")(dymos_entries)


def linint_cfgs(cls, tier):
    return [K.Config(cls.qual, dict(num_nodes=n, units=u), f"nn={n} units={u}") for n in ((2, 3, 5, 8) if tier == "quick" else (2, 3, 4, 5, 6, 8, 11)) for u in (None, "kg")]


@law("C18", U_ + "linearinterp.LinearInterpolator", cfgs=linint_cfgs)
def linear_points(s):
    a, b = s.i("start_val"), s.i("end_val")
    n = s.nn
    s.eq("points on the straight line", s.o("vec"), arr([a[0] + (b[0] - a[0]) * (k / (n - 1)) for k in range(n)]))
    s.eq("starts at the start value", s.o("vec")[0], a[0])
    s.eq("ends at the end value", s.o("vec")[n - 1], b[0])
    attrs(s, "vec", s.opt("units"), {}, (n,))


# ------------------------------------------------------------------ integrators
def moderate(s, names):
    """sample steps and values at order one so that rounding of the scheme's coefficients stays far below the tolerance"""
    for v in names:
        u = s.inst.om.inputs[v].units if v in s.inst.om.inputs else None
        f = U.get(u).f if u and U.valid(u) else 1.0
        for k, m in list(s.known.items()):
            if k.startswith(v + "["):
                s.known[k] = S.Meta(1.0, None, "moderate", "gen", 0.2 / f, 4.0 / f)


def poly(c, t):
    r = 0.0
    for k in range(len(c) - 1, -1, -1):
        r = r * t + c[k]
    return r


def ipoly(c, t):
    """integral of poly from 0 to t"""
    r = 0.0
    for k in range(len(c) - 1, -1, -1):
        r = (r + c[k] / (k + 1)) * t
    return r


DEG = {"simpson": 2, "bdf3": 2}


def dt_of(s, n, unit="s"):
    ts = s.opt("time_setup")
    if ts == "dt":
        return s.i("dt", unit)[0]
    if ts == "duration":
        return s.i("duration", unit)[0] / (n - 1)
    return (s.i("t_final", unit)[0] - s.i("t_initial", unit)[0]) / (n - 1)


def check_integral(s, tag, q, qf, q0, rate_raw, conv, dts, n, deg, count=None):
    """rate_raw: rate symbols in declared units; conv: factor declared units -> common units"""
    nseg = len(dts)
    cf = [X.sym(f"coef{k}") for k in range(deg + 1)]
    for k in range(deg + 1):
        s.known[f"coef{k}"] = S.Meta(1.0, None, f"coef{k}", "gen")
    m, truth = {}, []
    total = X.lift(q0) if isinstance(q0, E) else q0
    # each segment has its own polynomial in its own local time: continuity of the rate is not needed
    for g in range(nseg):
        t0 = total
        for k in range(n):
            t = dts[g] * k if not isinstance(k, E) else None
            m[rate_raw[g * n + k]] = X.lift(poly(cf, t + 0.1 * g) / conv)
            inc = ipoly(cf, t + 0.1 * g) - ipoly(cf, 0.1 * g)
            truth.append(t0 + inc if count is None or count[g] else t0)
        total = truth[-1]
    sc = 1e-9
    if q is not None:
        s.eq(f"{tag}: exact for polynomial rates of degree {deg}", s.subst(q, m), arr(truth), scale=sc)
        s.eq(f"{tag}: starts at the initial value", q[0], q0)
        for g in range(1, nseg):
            s.eq(f"{tag}: continuous across segments", q[g * n], q[g * n - 1])
        if qf is not None:
            s.eq(f"{tag}: final value is the last value", qf[0], q[-1])
    if qf is not None:
        s.eq(f"{tag}: final value exact for polynomial rates of degree {deg}", s.subst(qf, m)[0], truth[-1], scale=sc)
    # linear in rate and initial value
    a, b = X.sym("lina"), X.sym("linb")
    for z in ("lina", "linb"):
        s.known[z] = S.Meta(1.0, None, z, "gen")
    f = q if q is not None else qf
    starts = [X.node(i) for i in (q0.sup if isinstance(q0, E) else ())]
    alt = {x: X.sym("alt:" + x.args[0]) for x in rate_raw}
    for x, y in alt.items():
        s.known[y.args[0]] = s.known[x.args[0]]
    mix = {x: a * x + b * y for x, y in alt.items()}
    for x in starts:
        y = X.sym("alt:" + x.args[0])
        s.known[y.args[0]] = s.known[x.args[0]]
        alt[x] = y
        mix[x] = a * x + b * y
    s.eq(f"{tag}: linear in rate and initial value", s.subst(f, mix), a * f + b * s.subst(f, alt))


def integ_cfgs(cls, tier):
    q = cls.qual
    out = []
    for nn in ((3, 5, 7, 9) if tier == "quick" else (3, 5, 7, 9, 11, 15, 21)):
        for me in ("bdf3", "simpson") if nn > 3 else ("simpson",):      # scipy rejects the 3-point third-order matrix
            for ts in ("dt", "duration", "bounds"):
                for v, ints in enumerate(INTS):
                    if tier == "quick" and nn in (7, 9) and (v > 1 or ts != "duration"):
                        continue
                    out.append(K.Config(q, dict(num_nodes=nn, method=me, time_setup=ts, diff_units="min" if v in (1, 3) else "s"), f"nn={nn} {me} {ts} v{v}", seq("add_integrand", [((k,), dict(a)) for k, a in ints])))
    return out


INTS = [[("q", dict(rate_name="dqdt", units="kg"))],
        [("q", dict(rate_name="dqdt", units="lb", start_name="q_i", end_name="q_f", start_val=3.0, val=2.0, lower=-4.0, upper=8.0)), ("r", dict(rate_name="drdt", units="ft", zero_start=True))],
        [("q", dict(rate_name="dqdt", units="kg", final_only=True)), ("r", dict(units="m"))],
        [("q", dict(rate_name="dqdt", rate_units="lb/h")), ("r", dict(rate_name="drdt", units="m", final_only=True, zero_start=True))]]
BASE = {"kg": "kg", "lb": "kg", "ft": "m", "m": "m", "lb/h": "kg"}


@law("C18", M_ + "integrals.Integrator", cfgs=integ_cfgs)
def integrator(s):
    ints = INTS[int(s.cfg.label[-1])]
    n = s.nn
    moderate(s, list(s.inst.om.inputs))
    dt = dt_of(s, n)
    for name, a in ints:
        rn, sn, en = a.get("rate_name") or name + "_rate", a.get("start_name") or name + "_initial", a.get("end_name") or name + "_final"
        base = BASE[a.get("units") or a.get("rate_units")]
        raw = s.i(rn)
        c = s.i(rn, base + "/s")
        conv = float(X.evaluate([c[0]], {raw[0].id: np.array([1.0])}, 1)[c[0].id][0]) if isinstance(c[0], E) else 1.0
        q0 = 0.0 if a.get("zero_start") else s.i(sn, base)[0]
        s.check(f"zero_start of {name}", bool(a.get("zero_start")) != s.has(sn), "initial-value input does not follow zero_start")
        s.check(f"final_only of {name}", bool(a.get("final_only")) != (name in s.inst.om.outputs), "trajectory output does not follow final_only")
        q = None if a.get("final_only") else s.o(name, base)
        if not a.get("zero_start"):
            # q0 as a symbol in declared units
            q0 = s.i(sn, base)[0]
        check_integral(s, name, q, s.o(en, base), q0, raw, conv, [dt], n, DEG[s.opt("method")])
        if "start_val" in a:
            s.eq(f"default of {sn}", s.inst.om.inputs[sn].val.a, a["start_val"])
        for nm in [en] + ([name] if q is not None else []):
            v = s.inst.om.outputs[nm]
            for k in ("lower", "upper"):
                if k in a:
                    s.check(f"{k} of {nm}", getattr(v, k) == a[k], f"{getattr(v, k)} instead of {a[k]}")


def oldint_cfgs(cls, tier):
    q = cls.qual
    out = []
    for nn in ((3, 5, 7) if tier == "quick" else (3, 5, 7, 9, 11)):
        for me in ("bdf3", "simpson") if nn > 3 else ("simpson",):
            for zs in (False, True):
                for fo in (False, True):
                    for ts in ("dt", "duration", "bounds"):
                        out.append(K.Config(q, dict(num_nodes=nn, method=me, time_setup=ts, zero_start=zs, final_only=fo, quantity_units="kg", diff_units="min", lower=-7.0, upper=70.0), f"nn={nn} {me} {ts} zs={zs} fo={fo}"))
                    for cnt in (None, ["b"], ["a", "c"], ["c"]):
                        if nn == 7 and cnt:
                            continue
                        kw = dict(num_nodes=nn, method=me, segment_names=["a", "b", "c"], zero_start=zs, quantity_units="lb", diff_units="s", final_only=fo)
                        if cnt:
                            kw["segments_to_count"] = cnt
                        out.append(K.Config(q, kw, f"nn={nn} {me} segs count={cnt} zs={zs} fo={fo}"))
    for ts in ("dt", "duration", "bounds"):
        for qu, du in ((None, "min"), ("lb", None), (None, None)):
            out.append(K.Config(q, dict(num_nodes=5, method="simpson", time_setup=ts, quantity_units=qu, diff_units=du), f"nn=5 simpson {ts} units {qu}, {du}"))
    return out


@law("C18", M_ + "integrals.OldIntegrator", cfgs=oldint_cfgs)
def old_integrator(s):
    n = s.nn
    seg = s.opt("segment_names")
    moderate(s, list(s.inst.om.inputs))
    cnt = s.opt("segments_to_count")
    tu, qu = ("s" if s.opt("diff_units") else None), ("kg" if s.opt("quantity_units") else None)
    dts = [dt_of(s, n, tu)] if seg is None else [s.i(x + "|dt", tu)[0] for x in seg]
    count = None if seg is None else [cnt is None or x in cnt for x in seg]
    raw, c = s.i("dqdt"), s.i("dqdt", {("kg", "s"): "kg/s", ("kg", None): "kg", (None, "s"): "1/s", (None, None): None}[qu, tu])
    conv = float(X.evaluate([c[0]], {raw[0].id: np.array([1.0])}, 1)[c[0].id][0])
    q0 = 0.0 if s.opt("zero_start") else s.i("q_initial", qu)[0]
    q = None if s.opt("final_only") else s.o("q", qu)
    check_integral(s, "q", q, s.o("q_final", qu), q0, raw, conv, dts, n, DEG[s.opt("method")], count)
    for nm in ["q_final"] + ([] if q is None else ["q"]):
        v = s.inst.om.outputs[nm]
        for k in ("lower", "upper"):
            s.check(f"{k} of {nm}", getattr(v, k) == s.opt(k), f"{getattr(v, k)} instead of {s.opt(k)}")


def single_cfgs(cls, tier):
    out = []
    for me in ("bdf3", "simpson"):
        for ts in ("dt", "duration", "bounds"):
            for zs in (False, True):
                for fo in (False, True):
                    lab = f"{me} {ts} fo={fo} zs={zs}"
                    if cls.name == "Integrator":
                        out.append(K.Config(cls.qual, dict(num_nodes=1, method=me, time_setup=ts), lab, K._d("add_integrand", "q", units="kg", zero_start=zs, final_only=fo)))
                    else:
                        out.append(K.Config(cls.qual, dict(num_nodes=1, method=me, time_setup=ts, zero_start=zs, final_only=fo), lab))
    return out


def single(s):
    """one point: the state is its initial value"""
    zs = s.cfg.label.endswith("True")
    q0 = 0.0 if zs else s.i("q_initial")
    if "fo=False" in s.cfg.label:
        s.eq("single point: state is its initial value", s.o("q"), q0)
    s.eq("single point: final value is its initial value", s.o("q_final"), q0)


law("C18", M_ + "integrals.Integrator", cfgs=single_cfgs, name="single_point", valid=True)(single)
law("C18", M_ + "integrals.OldIntegrator", cfgs=single_cfgs, name="single_point", valid=True)(single)


def deriv_cfgs(cls, tier):
    q = cls.qual
    out = []
    for order in (4, 2):
        for ni in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 8, 10)):
            for seg in (None, ["a", "b"], ["a", "b", "c"]):
                if tier == "quick" and seg and len(seg) == 3 and ni > 3:
                    continue
                kw = dict(num_intervals=ni, order=order, quantity_units="ft", diff_units="min")
                if seg:
                    kw["segment_names"] = seg
                out.append(K.Config(q, kw, f"order={order} ni={ni} seg={seg and len(seg)}"))
    if True:
        out.append(K.Config(q, dict(num_intervals=1, order=2, quantity_units="ft", diff_units="min"), "order=2 ni=1"))
    return out


@law("C18", M_ + "derivatives.FirstDerivative", cfgs=deriv_cfgs)
def first_derivative(s):
    seg = s.opt("segment_names")
    moderate(s, list(s.inst.om.inputs))
    n = 2 * s.opt("num_intervals") + 1
    deg = s.opt("order")
    dts = [s.i("dt", "s")[0]] if seg is None else [s.i(x + "|dt", "s")[0] for x in seg]
    raw, c = s.i("q"), s.i("q", "m")
    conv = float(X.evaluate([c[0]], {raw[0].id: np.array([1.0])}, 1)[c[0].id][0])
    m, truth = {}, []
    for g, dt in enumerate(dts):
        cf = [X.sym(f"coef{g}_{k}") for k in range(deg + 1)]
        for k in range(deg + 1):
            s.known[f"coef{g}_{k}"] = S.Meta(1.0, None, f"coef{g}_{k}", "gen")
        for k in range(n):
            t = k * dt
            m[raw[g * n + k]] = X.lift(poly(cf, t) / conv)
            truth.append(poly([(j + 1) * cf[j + 1] for j in range(deg)], t))
    d = s.o("dqdt", "m/s")
    s.eq(f"derivative exact for polynomials of degree {deg}", s.subst(d, m), arr(truth), scale=1e-9)
    a = X.sym("lina")
    s.known["lina"] = S.Meta(1.0, None, "lina", "gen")
    s.eq("derivative is linear in q", s.subst(d, {x: a * x for x in raw}), a * d)
