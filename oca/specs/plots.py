"""C26: plot helpers draw the values they are given (matplotlib is replaced by the recorder oca/stubs/plots.py, prob and case by a table of symbols)"""
import os
from .base import *
from ..values import Inst
from ..npmodel import asarr

MOD = "openconcept.utilities.visualization"
STUBS = {"matplotlib.pyplot": "ocastub.plots", "matplotlib.collections": "ocastub.plots"}


class Drawn(View):
    """one call of a plot helper: the figures, axes and curves it leaves behind"""

    def __init__(self, r, spec, fname, label, tier):
        View.__init__(self, r, spec, C.Config(MOD + "." + fname, {}, label), tier)
        self.known, self.assumptions, self.fname = {}, [], fname
        self.it = C.new_interp()
        self.it.stub_mods = dict(STUBS)
        self.it.load(MOD)
        self.fn = self.it.modules[MOD].ns.get(fname)
        if self.fn is None:
            raise Undecided(f"no function {fname}")
        self.st = self.it.load("ocastub.plots")
        self.it.phase = "run"

    def where(self):
        return f"{os.path.relpath(self.it.modules[MOD].path, C.ROOT)}:{getattr(getattr(self.fn, 'node', None), 'lineno', 1)} {self.fname}"

    def case(self, vals):
        return self.it.call(self.st.ns["Case"], [{k: SArr(v, "f") for k, v in vals.items()}], {})

    def axes(self):
        return self.it.call(self.st.ns["Axes"], [None], {})

    def arr(self, pre, shape):
        a = np.empty(shape, dtype=object)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = X.sym(f"{pre}[{','.join(str(int(k)) for k in np.unravel_index(i, shape))}]")
        return a

    def call(self, *args, **kw):
        self.ret = self.it.call(self.fn, [SArr(a, "f") if isinstance(a, np.ndarray) else a for a in args], kw)
        self.figs = self.st.ns["FIGS"]
        self.saved = self.st.ns["SAVED"]
        self.shown = self.st.ns["SHOWN"]
        return self.ret

    def num(self, v):
        a = asarr(self.it, v)
        return np.asarray(a.a, dtype=object)

    def same(self, what, got, want):
        got = self.num(got)
        self.check(what, got.shape == np.shape(want), f"shape {got.shape} instead of {np.shape(want)}")
        if got.shape == np.shape(want):
            self.eq(what, got, want)


def A(o, k):
    return o.attrs[k]


def guarded(fn):
    """a law of a plot helper: exceptions other than ones the helper raises for its user count against it"""
    name = fn.__name__

    def go(r, tier):
        spec = [x for x in SPECS if x.fn is go][0]
        n = 0
        for fname, label, body in fn(tier):
            s = None
            try:
                s = Drawn(r, spec, fname, label, tier)
                body(s)
            except InterpRaise as e:
                t = e.exc.cls.name if hasattr(e.exc, "cls") and hasattr(e.exc.cls, "name") else str(e.exc)
                if "NotImplementedError" in str(e.exc) or "AttributeError" in str(e.exc) or s is None:
                    r.und(f"{MOD}.{fname} [{label}]", f"raises {e.exc} at {loc_text(e.loc)}")
                    continue
                s.check("draws", False, f"raises {e.exc} at {loc_text(e.loc)}")
            except (Undecided, KeyError, IndexError) as e:
                r.und(f"{MOD}.{fname} [{label}]", f"{type(e).__name__}: {e}")
                continue
            if s.n:
                n += 1
                r.count("configs_decided")
        return n > 0
    go.__name__, go.__doc__ = name, fn.__doc__
    return go


def history(s, phases, variables):
    """values of each variable per phase, different symbols for each unit"""
    vals, cat = {}, {}
    for (v, u), sizes in variables.items():
        parts = []
        for p, n in zip(phases, sizes):
            a = s.arr(f"{p}.{v}[{u}]", (n,))
            vals[f"{p}.{v}", u] = a
            parts.append(a)
        cat[v, u] = np.concatenate(parts) if parts else None
    return vals, cat


def one_axes(s, what, f):
    ax = A(f, "axes")
    s.check(what, len(ax) == 1, f"{len(ax)} axes in the figure")
    if len(ax) != 1:
        raise Stop()
    return ax[0]


def trajectory(tier):
    """one figure for each y variable, drawn over x through all phases, with the requested units and labels"""
    V = {("range", "NM"): (3, 2, 4), ("h", "ft"): (3, 2, 4), ("mass", "kg"): (3, 2, 4), ("throttle", None): (3, 2, 4)}
    ys, us, ph = ["h", "throttle", "mass"], ["ft", None, "kg"], ["climb", "cruise", "descent"]
    for lab, kw, xl, yl, mk, ti in [
            ("defaults", {}, "range", ys, "o", "Trajectory"),
            ("labels", dict(x_label="Range (nmi)", y_labels=["Altitude", None, "Mass"], marker="-", plot_title="mission"), "Range (nmi)", ["Altitude", None, "Mass"], "-", "mission")]:
        for phases in (ph, ph[:1]) if tier == "quick" else (ph, ph[:1], ph[::-1]):
            def body(s, kw=kw, xl=xl, yl=yl, mk=mk, ti=ti, phases=phases):
                vals, cat = history(s, phases, V)
                s.call(s.case(vals), "range", "NM", ys, us, phases, **kw)
                s.check("figures", len(s.figs) == len(ys), f"{len(s.figs)} figures for {len(ys)} variables")
                for i, f in enumerate(s.figs[:len(ys)]):
                    a = one_axes(s, f"figure of '{ys[i]}'", f)
                    s.check(f"curves of '{ys[i]}'", len(A(a, "lines")) == 1, f"{len(A(a, 'lines'))} curves")
                    for ln in A(a, "lines"):
                        s.same(f"abscissa of '{ys[i]}'", A(ln, "x"), cat["range", "NM"])
                        s.same(f"ordinate of '{ys[i]}'", A(ln, "y"), cat[ys[i], us[i]])
                        s.check("marker", A(ln, "fmt") == mk, f"'{A(ln, 'fmt')}' instead of '{mk}'")
                    p = A(a, "props")
                    s.check("label of the abscissa", p.get("xlabel") == xl, f"'{p.get('xlabel')}' instead of '{xl}'")
                    s.check(f"label of '{ys[i]}'", p.get("ylabel") == yl[i], f"'{p.get('ylabel')}' instead of '{yl[i]}'")
                    s.check("title", p.get("title") == ti, f"'{p.get('title')}' instead of '{ti}'")
                s.check("figures are shown", len(s.shown) > 0 and s.shown[-1] == len(s.figs), "show is not called after the last figure")
            yield "plot_trajectory", f"{lab}, {len(phases)} phases from {phases[0]}", body


def trajectory_grid(tier):
    """panel k of the grid shows y variable k of every case; each page is saved once, complete, under its own name"""
    names = ["h", "mass", "throttle", "thrust", "drag", "power", "speed"]
    units = ["ft", "kg", None, "N", "N", "kW", "kn"]
    ph = ["climb", "cruise"]
    sizes = [(3, 2), (2, 4), (1, 1)]
    lays = [([2, 2], 3), ([3, 1], 7), ([1, 1], 2), ([2, 3], 6), ([1, 2], 5)] + ([] if tier == "quick" else [([5, 2], 7), ([1, 1], 7), ([2, 2], 7), ([3, 2], 6), ([2, 1], 2)])
    for layout, ny in lays:
        for ncase in (2,) if tier == "quick" else (1, 3):
            for lab, kw in (("defaults", {}), ("labels, saved", dict(x_label="X", y_labels=[None if k == 1 else f"Y{k}" for k in range(ny)], savefig="out", marker="-"))):
                def body(s, layout=layout, ny=ny, ncase=ncase, kw=kw):
                    cases, cats = [], []
                    for j in range(ncase):
                        vals, cat = {}, {}
                        for v, u in [("range", "NM")] + list(zip(names, units)):
                            parts = []
                            for p, n in zip(ph, sizes[j]):
                                vals[f"{p}.{v}", u] = s.arr(f"case{j}.{p}.{v}[{u}]", (n,))
                                parts.append(vals[f"{p}.{v}", u])
                            cat[v] = np.concatenate(parts)
                        cases.append(s.case(vals))
                        cats.append(cat)
                    s.call(cases, "range", "NM", names[:ny], units[:ny], ph, grid_layout=list(layout), **kw)
                    per = layout[0] * layout[1]
                    pages = -(-ny // per)
                    s.check("pages", len(s.figs) == pages, f"{len(s.figs)} pages for {ny} variables in a grid of {layout[0]} by {layout[1]}")
                    if len(s.figs) != pages:
                        return
                    full = []
                    for g, f in enumerate(s.figs):
                        s.check("layout", (A(f, "nrows"), A(f, "ncols")) == tuple(layout), f"{A(f, 'nrows')} by {A(f, 'ncols')}")
                        ax = A(f, "axes")
                        full.append([len(A(a, "lines")) for a in ax])
                        for k, a in enumerate(ax):
                            i = g * per + k
                            n = ncase if i < ny else 0
                            what = f"panel {k} of page {g}"
                            s.check(f"curves in {what}", len(A(a, "lines")) == n, f"{len(A(a, 'lines'))} curves instead of {n}")
                            if i >= ny:
                                continue
                            for j, ln in enumerate(A(a, "lines")[:ncase]):
                                s.same(f"abscissa of case {j}", A(ln, "x"), cats[j]["range"])
                                s.same(f"ordinate of case {j}", A(ln, "y"), cats[j][names[i]])
                                s.check("marker", A(ln, "fmt") == kw.get("marker", "o"), f"'{A(ln, 'fmt')}'")
                            p = A(a, "props")
                            yl = kw["y_labels"][i] if "y_labels" in kw else names[i]
                            s.check(f"label of {what}", p.get("ylabel") == yl, f"'{p.get('ylabel')}' instead of '{yl}'")
                            if k // layout[1] == layout[0] - 1:
                                s.check("label of the abscissa", p.get("xlabel") == kw.get("x_label", "range"), f"'{p.get('xlabel')}' in the last row")
                            else:
                                s.check("label of the abscissa", p.get("xlabel") is None, f"'{p.get('xlabel')}' in row {k // layout[1]}")
                    want = [f"out_{g}.pdf" for g in range(pages)] if "savefig" in kw else []
                    s.check("saved pages", [x[0] for x in s.saved] == want, f"{[x[0] for x in s.saved]} instead of {want}")
                    for g, x in enumerate(s.saved[:pages]):
                        s.check("page is saved under its own number", x[1] is s.figs[g], f"'{x[0]}' is not page {g}")
                        s.check("page is saved complete", list(x[2]) == full[g], f"'{x[0]}' has {list(x[2])} curves when saved, {full[g]} at the end")
                yield "plot_trajectory_grid", f"{layout[0]}x{layout[1]} {ny} variables {ncase} cases {lab}", body


def key(pt, vals):
    out = []
    for e in pt:
        e = X.lift(e)
        out.append(round(float(X.evaluate([e], vals, 1)[e.id][0]), 7))
    return tuple(out)


def edges(polys, vals):
    out = set()
    for p in polys:
        k = [key(q, vals) for q in p]
        out |= {frozenset((a, b)) for a, b in zip(k, k[1:])}
    return out


def half(s, nx, ny):
    m = s.arr("mesh", (nx, ny, 3))
    return m


def ends(s, what, got, lo, hi):
    got = [X.lift(x) for x in (s.num(got).reshape(-1) if not isinstance(got, (tuple, list)) else [s.num(x).reshape(-1)[0] for x in got])]
    s.check(what, len(got) == 2, f"{len(got)} limits")
    if len(got) == 2:
        s.eq(what + " (lower)", got[0], lo)
        s.eq(what + " (upper)", got[1], hi)


def fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def drawn_axes(s, given, own, n):
    """the axes drawn on, and the helper's return convention"""
    if own:
        s.check("figure is created", len(s.figs) == 1, f"{len(s.figs)} figures")
        ok = isinstance(s.ret, tuple) and len(s.ret) == n and s.ret[-2] is s.figs[0] and s.ret[-1] in A(s.figs[0], "axes")
        s.check("figure and axes are returned", ok, "they are not")
        return A(one_fig(s), "axes")[0]
    s.check("no figure is created on given axes", len(s.figs) == 0, f"{len(s.figs)} figures")
    return given


def one_fig(s):
    return s.figs[0]


def mesh_plot(tier):
    """all lines of the half mesh and of its mirror image about the symmetry plane are drawn, the planform is filled from leading to trailing edge"""
    for nx, ny in ((2, 3), (3, 4)) if tier == "quick" else ((2, 2), (2, 3), (3, 4), (4, 6)):
        for own in (True, False):
            for xl, off in ((True, True), (False, False)):
                def body(s, nx=nx, ny=ny, own=own, xl=xl, off=off):
                    m = s.arr("mesh", (nx, ny, 3))
                    m[:, -1, 1] = 0.0        # the root lies in the symmetry plane
                    g = s.axes()
                    s.call(m.copy(), *([] if own else [g]), set_xlim=xl, turn_off_axis=off)
                    ax = drawn_axes(s, g, own, 2)
                    rng = np.random.default_rng(7)
                    vals = {e.id: np.array([float(rng.uniform(0.5, 9.0))]) for e in m.reshape(-1) if isinstance(e, E)}
                    pts = [[(m[i, j, 1], 0.0 - m[i, j, 0]) for j in range(ny)] for i in range(nx)]
                    mir = [[(0.0 - p[0], p[1]) for p in row] for row in pts]
                    lines = pts + mir + [list(c) for c in zip(*pts)] + [list(c) for c in zip(*mir)]
                    want = edges(lines, vals)
                    got = set()
                    for c in A(ax, "collections"):
                        sg = s.num(A(c, "segments"))
                        s.check("segments are points of the plane", sg.ndim == 3 and sg.shape[2] == 2, f"shape {sg.shape}")
                        if sg.ndim == 3 and sg.shape[2] == 2:
                            got |= edges([list(map(tuple, p)) for p in sg], vals)
                    s.check("mesh lines", want <= got, f"{len(want - got)} of {len(want)} edges of the mesh are not drawn")
                    s.check("nothing else is drawn", got <= want, f"{len(got - want)} lines that are no edges of the mesh")
                    s.check("planform is filled", len(A(ax, "fills")) == 1, f"{len(A(ax, 'fills'))} areas")
                    for f in A(ax, "fills"):
                        x, a, b = (s.num(A(f, k)).reshape(-1) for k in ("x", "y1", "y2"))
                        # spanwise positions of the leading or of the trailing edge (the same for chords along the stream)
                        row = lambda k, i: {key((g * m[k, j, 1], 0.0 - m[i, j, 0]), vals) for j in range(ny) for g in (1.0, -1.0)}
                        have = [{key(p, vals) for p in zip(x, y)} for y in (a, b)]
                        s.check("filled from leading to trailing edge", any(have in ([row(k, 0), row(k, -1)], [row(k, -1), row(k, 0)]) for k in (0, -1)), "the outline is not that of the mesh")
                    props = A(ax, "props")
                    s.check("equal scales", props.get("aspect") == "equal", f"{props.get('aspect')}")
                    s.check("axis lines", bool(props.get("off", False)) == off, f"turned {'off' if props.get('off', False) else 'on'}")
                    s.check("limits set on request", ("xlim" in props) == xl, "they are not")
                    if xl and "xlim" in props:
                        sp = [p[0] for p in pts[0] + mir[0]]
                        ends(s, "limits", props["xlim"], fold(minimum, sp), fold(maximum, sp))
                yield "plot_OAS_mesh", f"{nx}x{ny} {'own' if own else 'given'} axes xlim={xl} off={off}", body


def force_contours(tier):
    """contours are of force per area: a uniform load is drawn uniform and of its own value, a node shows the panels that touch it, mirror images agree"""
    for nx, ny in ((2, 3), (3, 4)) if tier == "quick" else ((2, 2), (2, 3), (3, 4), (4, 5)):
        for wing in ("both", "left", "right"):
            for d in (0, 1, 2):
                own = d == 1
                xl, off = (d != 0), (wing != "left")

                def body(s, nx=nx, ny=ny, wing=wing, d=d, own=own, xl=xl, off=off):
                    m = s.arr("mesh", (nx, ny, 3))
                    y, x = m[:, :, 1], m[:, :, 0]
                    width = 0.5 * ((y[:-1, 1:] - y[:-1, :-1]) + (y[1:, 1:] - y[1:, :-1]))
                    length = 0.5 * ((x[1:, :-1] - x[:-1, :-1]) + (x[1:, 1:] - x[:-1, 1:]))
                    p, F = s.arr("pressure", (nx - 1, ny - 1)), s.arr("force", (nx - 1, ny - 1, 3))
                    F[:, :, d] = p * (width * length)
                    g = s.axes()
                    s.call(m.copy(), F, *([] if own else [g]), set_xlim=xl, turn_off_axis=off, wing=wing, force_dir=d, levels=7)
                    ax = drawn_axes(s, g, own, 3)
                    cs = A(ax, "contours")
                    s.check("contours", len(cs) == 1, f"{len(cs)} sets")
                    if len(cs) != 1:
                        return
                    c = cs[0]
                    s.check("contours are returned", (s.ret[0] if own else s.ret) is c, "they are not")
                    s.check("options for the contours", dict(A(c, "kw")) == {"levels": 7}, f"{A(c, 'kw')}")
                    cx, cy, cz = (s.num(A(c, k)) for k in ("x", "y", "z"))
                    n = 2 * ny if wing == "both" else ny
                    s.check("contour nodes", cx.shape == cy.shape == cz.shape and cx.shape in ((nx, n), (nx, n - (wing == "both"))), f"shapes {cx.shape}, {cy.shape}, {cz.shape}")
                    if not (cx.shape == cy.shape == cz.shape):
                        return
                    one = {e: X.sym("p0") for e in p.reshape(-1)}
                    rng = np.random.default_rng(11)
                    vals = {e.id: np.array([float(rng.uniform(0.5, 9.0))]) for e in list(m.reshape(-1))}
                    at = {}
                    for i in range(nx):
                        for j in range(ny):
                            if wing in ("both", "left"):
                                at[key((y[i, j], 0.0 - x[i, j]), vals)] = (i, j)
                            if wing in ("both", "right"):
                                at[key((0.0 - y[i, j], 0.0 - x[i, j]), vals)] = (i, j)
                    seen = {}
                    for i in range(cx.shape[0]):
                        for j in range(cx.shape[1]):
                            k = key((cx[i, j], cy[i, j]), vals)
                            s.check("nodes lie on the wing", k in at, f"node {i},{j} is at ({k[0]}, {k[1]}), no mesh point of the {wing} wing")
                            if k not in at:
                                continue
                            a, b = at[k]
                            s.eq("uniform load", s.subst(cz[i, j], one), X.sym("p0"))
                            near = {p[q, r] for q in (a - 1, a) for r in (b - 1, b) if 0 <= q < nx - 1 and 0 <= r < ny - 1}
                            for q in p.reshape(-1):
                                w = s.diff(cz[i, j], q)
                                if q in near:
                                    s.ne("a node shows the panels that touch it", w, 0.0)
                                else:
                                    s.eq("a node shows no other panel", w, 0.0)
                            if (a, b) in seen:
                                s.eq("mirror images", cz[i, j], seen[a, b])
                            seen[a, b] = cz[i, j]
                            at_seen.setdefault(id(s), set()).add(k)
                    s.check("all mesh points are drawn", at_seen.get(id(s), set()) == set(at), f"{len(set(at) - at_seen.get(id(s), set()))} are not")
                    props = A(ax, "props")
                    s.check("equal scales", props.get("aspect") == "equal", f"{props.get('aspect')}")
                    s.check("axis lines", bool(props.get("off", False)) == off, f"turned {'off' if props.get('off', False) else 'on'}")
                    s.check("limits set on request", ("xlim" in props) == xl, "they are not")
                at_seen = {}
                yield "plot_OAS_force_contours", f"{nx}x{ny} {wing} direction {d}", body


for _f, _n in ((trajectory, "plot_trajectory"), (trajectory_grid, "plot_trajectory_grid"), (mesh_plot, "plot_OAS_mesh"), (force_contours, "plot_OAS_force_contours")):
    law("C26", MOD.split(".", 1)[1] + "." + _n, kind="own", name=_n)(guarded(_f))
