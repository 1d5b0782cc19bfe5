"""C22: engine decks (provenance of every training sample) and the rubberised engine"""
import os
from .base import *
from ..values import Inst
from ..npmodel import asarr

P_ = "propulsion."
FIELD = {"thrust": "thrust", "fuel_flow": "wf", "T4": "t4", "surge_margin": "smw"}
SPEC_UNITS = {"throttle": None, "fltcond|h": "ft", "fltcond|M": None, "hybrid_power": "kW", "thrust": "lbf", "fuel_flow": "lbm/s", "T4": "degR", "surge_margin": None}
CFM = dict(h=np.array([35, 30, 25, 20, 15, 10, 5, 0]) * 1000.0, M=np.array([8, 7, 6, 5, 4, 3, 2, 1, 0]) * 0.1, t=np.array([10, 9, 8, 7, 6, 5, 4, 3, 2]) * 0.1)
DECKS = {
    "CFM56": dict(module="openconcept.propulsion.cfm56", dir="cfm56", out=("thrust", "fuel_flow", "T4"), powers={None: ""}),
    "N3": dict(module="openconcept.propulsion.N3", dir="n+3", out=("thrust", "fuel_flow", "surge_margin"), powers={None: "power_off"}),
    "N3Hybrid": dict(module="openconcept.propulsion.N3", dir="n+3_hybrid", out=("thrust", "fuel_flow", "surge_margin"), powers={0.0: "power_off", 500.0: "power_on_500kW", 1000.0: "power_on_1MW"}),
}


class Labels:
    """every positive number of a data file gets a value of its own, so that each training sample can be traced to file and position"""

    def __init__(self):
        self.files, self.n = {}, 0

    def __call__(self, path, data):
        key = os.path.relpath(path, C.ROOT)
        if key in self.files:
            return self.files[key]
        a = np.array(data, dtype=float)
        f = a.reshape(-1)
        for i in range(f.size):
            if f[i] > 0:
                self.n += 1
                f[i] *= 1 + 1e-8 * self.n
        self.files[key] = a
        return a

    def find(self, v):
        """all (file, index) a number may come from"""
        out = []
        for k, a in self.files.items():
            hit = np.argwhere(np.abs(a - v) <= 1e-9 * np.abs(v) * 0.5) if v > 0 else np.argwhere(a == v)
            out += [(k, tuple(int(x) for x in h)) for h in hit]
        return out


def _spec(fn):
    return [x for x in SPECS if x.fn is fn][0]


class Rep:
    """obligations of a module-level function"""

    def __init__(self, r, name, spec, path, line):
        self.r, self.name, self.spec, self.at, self.seen = r, name, spec, f"{path}:{line} {name}", set()

    def check(self, what, ok, msg):
        self.r.count("obligations")
        if not ok and what not in self.seen:
            self.seen.add(what)
            self.r.add(f"{self.name}:{what}", f"{self.name}: {what}: {msg}", self.at, self.spec)


def run_deck(name, nn):
    d = DECKS[name]
    it = C.new_interp()
    it.load(d["module"])
    fn = it.modules[d["module"]].ns.get(name)
    if fn is None:
        raise Undecided(f"no function {name}")
    it.phase = "run"
    lab = it.load_hook = Labels()
    comp = it.call(fn, [], dict(num_nodes=nn))
    return it, fn, comp, lab


def decks(r, tier):
    caches = {}
    good = True
    for name, d in DECKS.items():
        for nn in (1, 3) if tier == "quick" else (1, 2, 3, 7):
            try:
                it, fn, comp, lab = run_deck(name, nn)
            except (Undecided, InterpRaise) as e:
                r.und(f"openconcept.propulsion.{name}", str(e))
                good = False
                continue
            r.count("configs_decided")
            q = Rep(r, name, "engine_decks", os.path.relpath(it.modules[d["module"]].path, C.ROOT), getattr(getattr(fn, "node", None), "lineno", 1))
            tr = comp.om.extra.get("train", {}) if isinstance(comp, Inst) else {}
            check_deck(q, name, d, nn, comp, tr, lab, caches, it)
    return good


def check_deck(q, name, d, nn, comp, tr, lab, caches, it):
    var = lambda n: comp.om.s_in.get(n) or comp.om.s_out.get(n) or comp.om.inputs.get(n) or comp.om.outputs.get(n)
    ins = ["throttle", "fltcond|h", "fltcond|M"] + (["hybrid_power"] if len(d["powers"]) > 1 else [])
    q.check("inputs of the deck", sorted(k for k, v in tr.items() if v[0] == "input") == sorted(ins), f"{sorted(k for k, v in tr.items() if v[0] == 'input')} instead of {sorted(ins)}")
    q.check("outputs of the deck", set(k for k, v in tr.items() if v[0] == "output") >= set(d["out"]), f"{sorted(k for k, v in tr.items() if v[0] == 'output')}")
    q.check("points of the deck", comp.om.options.d["vec_size"].val == nn, "vec_size is not the requested number of points")
    cols = {}
    for k in ins + list(d["out"]):
        if k not in tr:
            return
        v = var(k)
        q.check(f"points of {k}", v is not None and tuple(v.shape) == (nn,), f"shape {v and v.shape} for {nn} points")
        u, su = v.units, SPEC_UNITS[k]
        q.check(f"units of {k}", (u is None) == (su is None) and (u == su or U.compatible(u, su)), f"declared in {u}, the deck's data are in {su}")
        a = asarr(it, tr[k][1]).a.reshape(-1)
        if u is not None and su is not None and u != su and U.compatible(u, su):
            a = np.array([U.convert(float(x), u, su) for x in a])
        cols[k] = np.array([float(x) for x in a])
    sizes = {c.size for c in cols.values()}
    q.check("equally many samples of every quantity", len(sizes) == 1, str({k: c.size for k, c in cols.items()}))
    if len(sizes) != 1:
        return
    n = sizes.pop()
    root = f"openconcept/propulsion/empirical_data/{d['dir']}/"
    used = {}
    for i in range(n):
        pw = cols["hybrid_power"][i] if "hybrid_power" in cols else None
        sub = d["powers"].get(pw)
        q.check("hybrid power of a sample is one of the deck's", sub is not None, f"sample {i}: {pw}")
        if sub is None:
            continue
        where = None
        for k in d["out"]:
            src = lab.find(cols[k][i])
            good = []
            for f, ix in src:
                base = os.path.basename(f)[:-4].lower()
                # thrust of the hybrid deck does not depend on the power setting: one file
                folder = os.path.dirname(f) + "/"
                want = root + (sub + "/" if sub else "")
                okdir = folder == want or (k == "thrust" and len(d["powers"]) > 1 and folder == root + "power_off/")
                if okdir and f.startswith(root) and base == (FIELD[k] if sub else "cfm56" + FIELD[k]):
                    good.append(ix)
            q.check(f"{k} is trained on samples of {k}", bool(good), f"sample {i} ({cols[k][i]:.6g}) comes from {[os.path.relpath(f, root) for f, _ in src[:2]] or 'no data file'}")
            if good:
                q.check("all outputs of a sample come from the same point of the deck", where is None or where in good, f"sample {i}: {k} from {good[0]}, others from {where}")
                where = where or good[0]
        if where is None:
            continue
        if sub:
            for k, f in (("throttle", "throttle"), ("fltcond|h", "alt"), ("fltcond|M", "mach")):
                key = root + f"power_off/{f}.npy"
                A = lab.files.get(key)
                q.check(f"{k} is trained on the deck's {f} table", A is not None and abs(A[where] - cols[k][i]) <= 1e-9 * abs(A[where]), f"sample {i} ({cols[k][i]:.6g}) is not entry {where} of {f}.npy")
        else:
            for k, f in (("throttle", CFM["t"][where[2]]), ("fltcond|h", CFM["h"][where[0]]), ("fltcond|M", CFM["M"][where[1]])):
                q.check(f"{k} is aligned with the tables", abs(f - cols[k][i]) <= 1e-9 * max(abs(f), 1e-3), f"sample {i}: {cols[k][i]:.6g}, the tables' point {where} is at {f:.6g}")
        q.check("each sample is used once", (pw, where) not in used, f"point {where} appears twice")
        used[(pw, where)] = i
    # all valid points are used
    for pw, sub in d["powers"].items():
        key = root + (f"{sub}/wf.npy" if sub else "cfm56thrust.npy")
        A = lab.files.get(key)
        if A is None:
            q.check("all valid samples are used", False, f"{key} is not read")
            continue
        for ix in np.argwhere(A > 0):
            ix = tuple(int(x) for x in ix)
            if not sub and CFM["M"][ix[1]] > 0.5 + 1e-9 and CFM["h"][ix[0]] == 0.0:
                continue
            q.check("all valid samples are used", (pw, ix) in used, f"point {ix} of {key} is left out")
    for k in d["out"]:
        s = tr[k][3]
        c = s.attrs.get("_kw", {}).get("training_cache") if isinstance(s, Inst) else None
        if c is None:
            q.check(f"cache of {k}", True, "")
            continue
        c = os.path.normpath(c)
        other = caches.setdefault(c, (name, k))
        q.check(f"cache file of {k} is its own", other == (name, k), f"'{os.path.basename(c)}' is also the cache of {other[1]} in {other[0]}")


law("C22", None, kind="own", name="engine_decks")(decks)


# ------------------------------------------------------------------ propeller maps
PM = "openconcept.propulsion.empirical_data.prop_maps"
MAPS = {"propeller_map_Raymer": ("eta_prop", ("cp", "J")), "propeller_map_scaled": ("eta_prop", ("cp", "J")), "propeller_map_highpower": ("eta_prop", ("cp", "J")),
        "static_propeller_map_Raymer": ("ct_over_cp", ("cp",)), "static_propeller_map_highpower": ("ct_over_cp", ("cp",))}


def maps(r, tier):
    """each map is a table over strictly increasing axes, and the scaled map is the reference map with its axes stretched to the design point"""
    it = C.new_interp()
    m = it.load(PM)
    it.phase = "run"
    found = 0
    tabs = {}

    def build(name, vec, **kw):
        c = it.call(m.ns[name], [], dict(vec_size=vec, **kw))
        if not isinstance(c, Inst) or not c.om.extra.get("train"):
            raise Undecided(f"{name} is no table")
        t = c.om.extra["train"]
        return c, {k: np.asarray(v[1].a, dtype=float) for k, v in t.items()}, {k: v[0] for k, v in t.items()}

    for name, (out, axes) in MAPS.items():
        fn = m.ns.get(name) if m else None
        if fn is None:
            r.und(f"{PM}.{name}", "no such function")
            continue
        q = Rep(r, name, "propeller_maps", os.path.relpath(m.path, C.ROOT), fn.node.lineno)
        try:
            for vec in (1, 4):
                c, t, io = build(name, vec)
                q.check("axes", sorted(k for k in io if io[k] == "input") == sorted(axes) and [k for k in io if io[k] == "output"] == [out], f"{io}")
                if set(t) != set(axes) | {out}:
                    continue
                o = c.om.options.d
                q.check("points", o["vec_size"].val == vec and all(tuple(v.shape) == (vec,) for v in list(c.om.inputs.values()) + list(c.om.outputs.values())), f"not {vec} points")
                q.check("values beyond the table are extrapolated", o["extrapolate"].val is True, "evaluation outside the table fails")
                for a in axes:
                    q.check(f"axis {a} is increasing", bool(np.all(np.diff(t[a]) > 0)), f"{t[a]}")
                q.check("one entry for each point of the grid", t[out].shape == tuple(t[a].size for a in axes), f"table {t[out].shape}, axes {[t[a].size for a in axes]}")
                q.check("order of the axes", [k for k in io if io[k] == "input"] == list(axes), "the table's rows belong to another axis")
                if out == "eta_prop":
                    q.check("efficiencies lie between 0 and 1", bool(np.all((t[out] >= 0) & (t[out] <= 1))), f"from {t[out].min()} to {t[out].max()}")
                else:
                    q.check("thrust ratios are positive and fall with power", bool(np.all(t[out] > 0) and np.all(np.diff(t[out][1:]) <= 1e-9)), f"{t[out]}")
                tabs[name] = t
            found += 1
            r.count("configs_decided")
            if name == "static_propeller_map_highpower":
                # Raymer's static thrust, a fifth more of it at high power
                a, b = tabs["static_propeller_map_Raymer"], tabs[name]
                k = [int(np.argmin(np.abs(b["cp"] - x))) for x in a["cp"]]
                x, y = a[out], b[out][k]
                q.check("on the grid of the reference", bool(np.allclose(b["cp"][k], a["cp"])), f"{b['cp']}")
                up = np.isclose(y, 1.2 * x, rtol=2e-3)
                q.check("reference thrust, a fifth more at high power", bool(np.all(up | (y == x)) and np.all(np.diff(up.astype(int)) >= 0) and up.any()), f"{y} where the reference has {x}")
            if name == "propeller_map_scaled":
                ref = tabs["propeller_map_Raymer"]
                for dJ, dc in ((2.2, 0.2), (1.1, 0.5), (3.3, 0.2), (2.2, 0.7)):
                    _, t, _ = build(name, 1, design_J=dJ, design_cp=dc)
                    n = t["cp"].size
                    q.check("scaled power axis", bool(np.allclose(t["cp"], ref["cp"][:n] * dc / 0.2, rtol=1e-12)), f"{t['cp']} for a design power coefficient of {dc}")
                    q.check("scaled advance axis", bool(np.isclose(t["J"][-1], ref["J"][-1] * dJ / 2.2, rtol=1e-12) and (dJ != 2.2 or np.allclose(t["J"], ref["J"], rtol=1e-12))), f"{t['J']} for a design advance ratio of {dJ}")
                    q.check("scaled map has the reference efficiencies", t["eta_prop"].shape[1:] == ref["eta_prop"].shape[1:] and bool(np.all(t["eta_prop"] == ref["eta_prop"][:n])), "they differ")
        except (Undecided, InterpRaise) as e:
            r.und(f"{PM}.{name}", str(e))
    return found > 0


law("C22", PM.split(".", 1)[1], kind="own", name="propeller_maps")(maps)


# ------------------------------------------------------------------ rubberised engine
def rubber_cfgs(cls, tier):
    return [C.Config(cls.qual, dict(num_nodes=n, hydrogen=h, engine=e), f"nn={n} hydrogen={h} {e}") for n in ((1, 3) if tier == "quick" else (1, 2, 3, 7)) for h in (False, True) for e in ("N3", "CFM56")]


def defaults(s, keep):
    """substitution of every boundary input that is not in `keep` by the default the group gives it"""
    m = {}
    for nm, L in s.flat.top_in.items():
        if nm in keep:
            continue
        a = L[0][0]
        v = s.flat.vars[a][1]
        x = s.flat.input_value(a).reshape(-1)
        val, un = v.val.a if isinstance(v.val, SArr) else v.val, v.units
        for n2, dv, du, loc, hv in s.inst.om.defs:
            if n2 == nm and hv:
                val, un = (dv.a if isinstance(dv, SArr) else dv), du or v.units
        val = np.broadcast_to(np.asarray(val, dtype=object).reshape(-1) if np.asarray(val, dtype=object).size > 1 else np.asarray(val, dtype=object).reshape(-1), x.shape)
        for k, e in enumerate(x):
            if isinstance(e, E) and e.op == "s":
                y = val[k]
                m[e] = U.convert(X.lift(y), un, v.units) if un and v.units and un != v.units else X.lift(y)
    return m


@law("C22", P_ + "rubberized_turbofan.RubberizedTurbofan", kind="group", cfgs=rubber_cfgs)
def rubber(s):
    keep = ("throttle", "fltcond|h", "fltcond|M", "ac|propulsion|engine|rating")
    m = defaults(s, keep)
    eng = s.opt("engine")
    deck = s.comps("MetaModelUnStructuredComp")
    s.check("one engine deck", len(deck) == 1, f"{len(deck)} decks")
    d = deck[0]
    comp = s.flat.comps[d]
    tr = comp.om.extra.get("train", {})
    s.check("deck is the chosen engine's", all(k in tr for k in DECKS[eng]["out"]), f"outputs {sorted(tr)} for engine {eng}")
    sub = lambda x: s.subst(x, m)
    R = s.i("ac|propulsion|engine|rating", "lbf") / {"N3": 28620.0, "CFM56": 27300.0}[eng]
    T, F_ = sub(s.o("thrust", "lbf")), sub(s.o("fuel_flow", "lbm/s"))
    T0, F0 = sub(s.o(d + ".thrust", "lbf")), sub(s.o(d + ".fuel_flow", "lbm/s"))
    k = 43.0 / 120.0 if s.opt("hydrogen") else 1.0
    s.eq("thrust scales with the rating", T, T0 * R)
    s.eq("fuel flow scales with the rating", F_, F0 * R * k)
    s.eq("specific fuel consumption is the deck's", F_ * T0, F0 * T * k)
    for n, u in (("throttle", None), ("fltcond|h", "ft"), ("fltcond|M", None)):
        s.eq(f"{n} reaches the deck", s.i(d + "." + n, u), s.i(n, u))
