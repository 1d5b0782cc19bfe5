"""C21: planform quantities and meshes against the exact integrals over the piecewise trapezoidal planform"""
from .base import *

G_ = "geometry."
O_ = "aerodynamics.openaerostruct.mesh_gen."


# ------------------------------------------------------------------ trapezoidal wing
def trap(S, AR, taper):
    """root chord and span of a trapezoidal wing"""
    b = sqrt(S * AR)
    return 2 * S / (b * (1 + taper)), b


def strip(c1, c2, w, f):
    """integral of f(c(y), s) over a strip of width w, c linear, s the fraction of the strip: Simpson's rule is exact up to cubics"""
    h = (c1 + c2) / 2
    return w / 6 * (f(c1, 0.0) + 4 * f(h, 0.5) + f(c2, 1.0))


@law("C21", G_ + "wing_planform.WingMACTrapezoidal")
def mac_trapezoid(s):
    S, AR, t = s.i("S_ref", "m**2"), s.i("AR"), s.i("taper")
    c, b = trap(S, AR, t)
    s.eq("mean aerodynamic chord = integral of chord squared / area", s.o("MAC", "m"), 2 / S * strip(c, t * c, b / 2, lambda x, u: x * x))


@law("C21", G_ + "wing_planform.WingSpan")
def span(s):
    s.eq("span squared / area = aspect ratio", s.o("span", "m"), sqrt(s.i("S_ref", "m**2") * s.i("AR")))


@law("C21", G_ + "wing_planform.WingAspectRatio")
def aspect_ratio(s):
    s.eq("aspect ratio = span squared / area", s.o("AR"), s.i("span", "m") ** 2 / s.i("S_ref", "m**2"))


@law("C21", G_ + "wetted_area.CylinderSurfaceArea")
def cylinder(s):
    s.eq("lateral surface of a cylinder", s.o("A", "m**2"), PI * s.i("D", "m") * s.i("L", "m"))


# ------------------------------------------------------------------ sections
def sections(s, what):
    """replace the spanwise stations by positive widths so that sections are ordered from tip to root; returns (substitution, stations)"""
    ys = s.i("y_sec", "m")
    n = ys.size
    m, y = {}, [0.0] * (n + 1)
    pos = 0.0
    for k in range(n - 1, -1, -1):
        w = X.sym(f"width{k}")
        s.known[f"width{k}"] = S.Meta(2.0, None, "width", "gen", 0.3, 5.0)
        pos = pos - w
        y[k] = pos
        m[ys[k]] = pos
    for v, lo, hi in (("chord_sec", 0.4, 6.0), ("x_LE_sec", -3.0, 6.0)):
        for k in list(s.known):
            if k.startswith(v + "["):
                s.known[k] = S.Meta(1.0, None, v, "gen", lo, hi)
    return m, arr(y)


def sec_cfgs(cls, tier):
    out = []
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 8):
        for a in range(0, n - 1):
            for b in [None] + list(range(a + 1, n)):
                o = dict(num_sections=n, idx_sec_start=a, idx_sec_end=b)
                out.append(C.Config(cls.qual, dict(o), f"n={n} from {a} to {b}"))
                if "Area" in cls.qual:
                    out.append(C.Config(cls.qual, dict(o, chord_frac_start=X.sym("opt:chord_frac_start"), chord_frac_end=X.sym("opt:chord_frac_end")), f"n={n} from {a} to {b}, chord fractions"))
    return out


def chosen(s, y):
    a, b = s.opt("idx_sec_start"), s.opt("idx_sec_end")
    return range(a, (s.opt("num_sections") - 1 if b is None else b))


@law("C21", G_ + "wing_planform.WingAreaFromSections", cfgs=sec_cfgs)
def section_area(s):
    m, y = sections(s, "S")
    c = s.i("chord_sec", "m")
    f = s.opt("chord_frac_end") - s.opt("chord_frac_start")
    S_ = 2 * ssum([strip(c[k], c[k + 1], y[k + 1] - y[k], lambda x, u: x * f) for k in chosen(s, y)])
    s.eq("area = integral of the chord over both halves", s.subst(s.o("S", "m**2"), m), S_, scale=1e-9)


@law("C21", G_ + "wing_planform.WingMACFromSections", cfgs=sec_cfgs)
def section_mac(s):
    m, y = sections(s, "MAC")
    c, x = s.i("chord_sec", "m"), s.i("x_LE_sec", "m")
    ks = list(chosen(s, y))
    A = ssum([strip(c[k], c[k + 1], y[k + 1] - y[k], lambda q, u: q) for k in ks])
    I2 = ssum([strip(c[k], c[k + 1], y[k + 1] - y[k], lambda q, u: q * q) for k in ks])
    Ix = ssum([strip(c[k], c[k + 1], y[k + 1] - y[k], lambda q, u, k=k: q * (x[k] + u * (x[k + 1] - x[k]) + q / 4)) for k in ks])
    s.eq("mean aerodynamic chord = integral of chord squared / area", s.subst(s.o("MAC", "m"), m), I2 / A)
    s.eq("quarter-chord position = chord-weighted mean", s.subst(s.o("x_c4MAC", "m"), m), Ix / A, scale=1e-6)


@law("C21", G_ + "wing_planform.WingSweepFromSections", cfgs=sec_cfgs)
def section_sweep(s):
    m, y = sections(s, "sweep")
    c, x = s.i("chord_sec", "m"), s.i("x_LE_sec", "m")
    q = x + c / 4
    A, t = 0.0, 0.0
    for k in chosen(s, y):
        w = y[k + 1] - y[k]
        a = (c[k] + c[k + 1]) / 2 * w
        # tip before root: swept back when the tip's quarter chord lies behind the root's
        t = t + a * w / sqrt(w * w + (q[k] - q[k + 1]) ** 2)
        A = A + a
    s.eq("cosine of the sweep = area-weighted mean of the sections' cosines", cos(s.subst(s.o("c4sweep", "rad"), m)), t / A)
    # uniform sweep: the sections' own sweep
    g = X.sym("tansweep")
    s.known["tansweep"] = S.Meta(0.3, None, "tansweep", "gen", 0.05, 1.2)
    mm = {}
    n = c.size
    for k in range(n):
        mm[x[k]] = g * (-1.0 * X.lift(y[k])) - c[k] / 4
    s.eq("uniformly swept sections give their sweep", tan(s.subst(s.subst(s.o("c4sweep", "rad"), m), mm)), g, rel=1e-5)


# ------------------------------------------------------------------ meshes
def panel_area(mesh, unit=None):
    """plan area of the surface the mesh spans (x streamwise, y spanwise), straight edges between the nodes"""
    nx, ny = mesh.shape[:2]
    c = mesh[nx - 1, :, 0] - mesh[0, :, 0]
    return ssum([(c[j] + c[j + 1]) / 2 * (mesh[0, j + 1, 1] - mesh[0, j, 1]) for j in range(ny - 1)])


def trap_cfgs(cls, tier):
    L = [(1, 1), (2, 6), (3, 4), (1, 5)] if tier == "quick" else [(1, 1), (2, 6), (3, 4), (1, 5), (4, 7), (2, 10), (6, 3)]
    return [C.Config(cls.qual, dict(num_x=a, num_y=b), f"{a}x{b} panels") for a, b in L]


@law("C21", O_ + "TrapezoidalPlanformMesh", cfgs=trap_cfgs)
def trapezoidal_mesh(s):
    nx, ny = s.opt("num_x") + 1, s.opt("num_y") + 1
    S_, AR, t, sw = s.i("S", "m**2")[0], s.i("AR")[0], s.i("taper")[0], s.i("sweep", "rad")[0]
    M = s.o("mesh", "m")
    s.check("shape of the mesh", M.shape == (nx, ny, 3), f"{M.shape}")
    b = sqrt(arr(S_ * AR)).item()
    le, te = M[0, :, 0], M[nx - 1, :, 0]
    ch = te - le
    s.eq("mesh area is half the requested area", 2 * panel_area(M), S_)
    s.eq("tip lies at half the span", M[0, 0, 1], -b / 2)
    s.eq("root lies on the symmetry plane", M[0, ny - 1, 1], 0.0, scale=1e-9)
    s.eq("tip chord / root chord = taper", ch[0], t * ch[ny - 1])
    q = le + ch / 4
    s.eq("root quarter chord at the origin", q[ny - 1], 0.0, scale=1e-6)
    for j in range(ny):
        s.eq("quarter-chord line has the requested sweep", q[j], tan(arr(sw)).item() * (-1.0 * X.lift(M[0, j, 1])), scale=1e-6)
        s.eq("stations are evenly spaced", M[0, j, 1], -b / 2 * (1 - j / (ny - 1)), scale=1e-9)
        s.eq("chord is linear along the span", ch[j], ch[ny - 1] * (t + (1 - t) * (j / (ny - 1))))
        for i in range(nx):
            s.eq("streamwise nodes split the chord evenly", M[i, j, 0], le[j] + ch[j] * (i / (nx - 1)), scale=1e-6)
            s.eq("streamwise lines stay at their station", M[i, j, 1], M[0, j, 1], scale=1e-9)
            s.eq("mesh is flat", M[i, j, 2], 0.0, scale=1e-9)


def secmesh_cfgs(cls, tier):
    out = []
    L = [(2, 2), (2, [3]), (3, 1), (3, [2, 3]), (4, [1, 3, 2]), (4, 2)] if tier == "quick" else [(2, 2), (2, [3]), (2, 7), (3, 1), (3, [2, 3]), (3, (4, 1)), (4, [1, 3, 2]), (4, 2), (5, [2, 1, 3, 1]), (6, 2)]
    for n, ny in L:
        for nx in (1, 3):
            for sc in (True, False):
                out.append(C.Config(cls.qual, dict(num_x=nx, num_y=ny, num_sections=n, scale_area=sc), f"nx={nx} ny={ny} sections={n} scale={sc}"))
    return out


def cosn(k, n):
    return 0.5 * (1 - np.cos(np.pi * k / n))


@law("C21", O_ + "SectionPlanformMesh", cfgs=secmesh_cfgs)
def section_mesh(s):
    m, y = sections(s, "mesh")
    n = s.opt("num_sections")
    ny = s.opt("num_y")
    ny = [ny] * (n - 1) if isinstance(ny, int) else [int(k) for k in ny]
    nx = s.opt("num_x") + 1
    M = s.subst(s.o("mesh", "m"), m)
    c, x = s.i("chord_sec", "m"), s.i("x_LE_sec", "m")
    A = 2 * ssum([strip(c[k], c[k + 1], y[k + 1] - y[k], lambda q, u: q) for k in range(n - 1)])
    k_ = 1.0
    if s.opt("scale_area"):
        S_ = s.i("S", "m**2")[0]
        k_ = sqrt(arr(S_ / A)).item()
        s.eq("mesh area is half the requested area", 2 * panel_area(M), S_)
    else:
        s.eq("reported area is the planform's", s.subst(s.o("S", "m**2"), m), A)
        s.eq("mesh area is half the reported area", 2 * panel_area(M), A)
    s.check("shape of the mesh", M.shape == (nx, sum(ny) + 1, 3), f"{M.shape}")
    j0 = 0
    for k in range(n - 1):
        for j in range(ny[k] + 1):
            u = cosn(j, ny[k])
            le, ch, yy = x[k] + (x[k + 1] - x[k]) * u, c[k] + (c[k + 1] - c[k]) * u, y[k] + (y[k + 1] - y[k]) * u
            for i in range(nx):
                P = M[i, j0 + j]
                s.eq("streamwise nodes split the local chord by the cosine rule", P[0], k_ * (le + ch * cosn(i, nx - 1)), scale=1e-6)
                s.eq("spanwise nodes split each region by the cosine rule", P[1], k_ * yy, scale=1e-9)
                s.eq("mesh is flat", P[2], 0.0, scale=1e-9)
        j0 += ny[k]


def interp_cfgs(cls, tier):
    out = []
    L = [(2, 2), (2, [3]), (3, 1), (3, [2, 3]), (4, [1, 3, 2])] if tier == "quick" else [(2, 2), (2, [3]), (2, 7), (3, 1), (3, [2, 3]), (3, (4, 1)), (4, [1, 3, 2]), (4, 2), (5, [2, 1, 3, 1]), (6, 2)]
    for n, ny in L:
        for cs in (True, False):
            a = dict(num_y=ny, num_sections=n, cos_spacing=cs)
            if "Linear" in cls.qual:
                a["units"] = "deg"
            out.append(C.Config(cls.qual, a, f"ny={ny} sections={n} cos={cs}"))
    return out


def _nodes(s, sec):
    n = s.opt("num_sections")
    ny = s.opt("num_y")
    ny = [ny] * (n - 1) if isinstance(ny, int) else [int(k) for k in ny]
    u = cosn if s.opt("cos_spacing") else (lambda j, m: j / m)
    return ny, [[sec[k] + (sec[k + 1] - sec[k]) * u(j, ny[k]) for j in range(ny[k] + 1)] for k in range(n - 1)]


@law("C21", O_ + "SectionLinearInterp", cfgs=interp_cfgs)
def section_interp(s):
    sec = s.i("property_sec", "deg")
    ny, nodes = _nodes(s, sec)
    out = s.o("property_node", "deg")
    s.check("one value per spanwise node", out.size == sum(ny) + 1, f"{out.size}")
    j0 = 0
    for k, L in enumerate(nodes):
        s.eq("value at a defined section is the section's", out[j0], sec[k], scale=1e-9)
        s.eq("value at a defined section is the section's", out[j0 + ny[k]], sec[k + 1], scale=1e-9)
        for j, v in enumerate(L):
            s.eq("linear along the span between sections, on the mesh's stations", out[j0 + j], v, scale=1e-9)
        j0 += ny[k]


@law("C21", O_ + "ThicknessChordRatioInterp", cfgs=interp_cfgs)
def thickness_interp(s):
    sec = s.i("section_toverc")
    ny, nodes = _nodes(s, sec)
    out = s.o("panel_toverc")
    s.check("one value per panel", out.size == sum(ny), f"{out.size}")
    j0 = 0
    for k, L in enumerate(nodes):
        for j in range(ny[k]):
            s.eq("panel thickness is the mean of its two edges", out[j0 + j], (L[j] + L[j + 1]) / 2, scale=1e-9)
        j0 += ny[k]
    c = X.sym("same")
    s.known["same"] = S.Meta(0.12, None, "same", "gen")
    s.eq("constant thickness stays constant", s.subst(out, {e: c for e in sec}), c)


# ------------------------------------------------------------------ distributions given by control points
def _span_splines(s, nodes):
    """control points run from the tip (0) to the root (1) like the mesh nodes"""
    from .. import npmodel as NP
    n = 0
    for p in s.comps("SplineComp"):
        x = [float(v) for v in NP.asarr(s.it, s.flat.comps[p].om.options.d["x_interp_val"].val).a.reshape(-1)]
        n += 1
        s.check(f"{p} starts at the tip and ends at the root", len(x) == 1 or (abs(x[0]) < 1e-12 and abs(x[-1] - 1) < 1e-12), f"its stations run from {x[0]:.4g} to {x[-1]:.4g}")
        s.check(f"{p} has its stations in order", all(a < b for a, b in zip(x, x[1:])), f"its stations are {x[:6]}")
        if len(x) == nodes:
            s.check(f"{p} has its stations at the mesh nodes", all(abs(v - k / (nodes - 1)) < 1e-9 for k, v in enumerate(x)), f"the mesh nodes are evenly spaced, its stations are {x[:6]}")
    s.check("spanwise distributions are there", n > 0, "no spline over the span")


A_ = "aerodynamics.openaerostruct."


@law("C21", A_ + "aerostructural.Aerostruct", kind="wiring", cfgs=lambda c, t: [C.Config(c.qual, dict(num_x=1, num_y=ny, num_twist=3, num_toverc=2), f"num_y={ny}") for ny in (4, 7)])
def aerostruct_distributions(s):
    _span_splines(s, s.inst.om.options.d["num_y"].val + 1)


@law("C21", A_ + "drag_polar.VLMDragPolar", kind="wiring", cfgs=lambda c, t: [C.Config(c.qual, dict(num_nodes=2, num_x=1, num_y=ny, num_twist=3), f"num_y={ny}") for ny in (4, 7)])
def vlm_distributions(s):
    _span_splines(s, s.inst.om.options.d["num_y"].val + 1)
