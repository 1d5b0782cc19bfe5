"""Stated laws of the library, compared with the value graphs the analysis derives from the source.

A law is a function f(s) of a component class or group.  s.i / s.o give the value graphs of inputs and outputs (in requested units),
s.eq records one obligation: both graphs must have the same value number."""
import numpy as np
from .. import expr as X
from ..expr import E
from ..values import SArr
from ..interp import InterpRaise, Undecided
from .. import om as OM
from .. import comp as C
from .. import flat as F
from .. import sample as S
from .. import units as U
from ..report import Result, seed_of, pmap
from ..checks.common import loc_text, method_line, user_raise, Stop

SPECS = []


class Spec:
    __slots__ = ("pid", "qual", "fn", "cfgs", "cap", "rel", "name", "kind", "cut", "ivc", "valid")


def law(pid, qual, cfgs=None, cap=None, rel=2e-6, kind="comp", name=None, cut=(), ivc="value", valid=False):
    """register a law for class openconcept.<qual>; kind: comp | group | wiring | own;
    ivc: "value" (independent variables keep their constant) or a predicate on component paths that keep it, others become symbols;
    valid: every configuration is one the class is documented to accept, rejecting it is a violation"""
    def deco(f):
        s = Spec()
        s.valid = valid
        s.pid, s.fn, s.cfgs, s.cap, s.rel, s.kind = pid, f, cfgs, cap, rel, kind
        s.qual = (qual if qual.startswith("ocastub.") else "openconcept." + qual) if qual else None
        s.name = name or f.__name__
        s.cut = tuple(cut)
        s.ivc = ivc
        SPECS.append(s)
        return f
    return deco


# ------------------------------------------------------------------ elementwise helpers on object arrays
def _map(f, *a):
    a = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
    o = np.empty(a[0].shape, dtype=object)
    of = o.reshape(-1)
    fl = [x.reshape(-1) for x in a]
    for i in range(of.size):
        of[i] = f(*[x[i] for x in fl])
    return o


def _u(op):
    return lambda a: _map(lambda e: X.un(op, X.lift(e)), a)


sqrt, exp, log, sin, cos, tan, asin, acos, atan, tanh = map(_u, ("sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "tanh"))


def lt(a, b):
    return _map(lambda p, q: X.lt(X.lift(p), X.lift(q)), a, b)


def le(a, b):
    return _map(lambda p, q: X.le(X.lift(p), X.lift(q)), a, b)


def gt(a, b):
    return lt(b, a)


def where(c, a, b):
    return _map(lambda k, p, q: X.ite(k, X.lift(p), X.lift(q)) if isinstance(k, E) else (p if k else q), c, a, b)


def minimum(a, b):
    return where(lt(b, a), b, a)


def maximum(a, b):
    return where(lt(a, b), b, a)


def absv(a):
    return _map(lambda e: X.abs_(X.lift(e)), a)


def power(a, b):
    return _map(lambda p, q: X.pow_(X.lift(p), X.lift(q)), a, b)


def arr(x):
    return np.asarray(x, dtype=object)


def ssum(a):
    a = arr(a).reshape(-1)
    t = 0.0
    for e in a:
        t = t + e
    return t


def dot(M, v):
    M, v = arr(M), arr(v)
    return np.array([ssum(M[i] * v) for i in range(M.shape[0])], dtype=object)


PI = float(np.pi)
G = 9.80665


class Skip(Exception):
    """configuration to which the law does not apply"""


class View:
    """what a law sees of one configuration"""

    def __init__(self, r, spec, cfg, tier):
        self.r, self.spec, self.cfg, self.tier = r, spec, cfg, tier
        self.rng = np.random.default_rng(seed_of(spec.pid, spec.qual, spec.name, cfg.label))
        self.n = 0
        self.conds = []
        self.units_meta = {}

    # -------- options
    @property
    def nn(self):
        return self.opt("num_nodes")

    def opt(self, k, default=None):
        o = self.inst.om.options
        if k not in o.d:
            return default
        return o.d[k].val

    def skip(self):
        raise Skip()

    # -------- obligations
    def _conv(self, a, have, want):
        if want is None or have == want:
            return a
        if have is None:
            # a number without unit: harmless only where the wanted unit is dimensionless
            return a if U.compatible(want, None) else None
        if not U.compatible(have, want):
            return None
        return _map(lambda e: U.convert(X.lift(e), have, want), a)

    def inunits(self, name, a, have, want):
        c = self._conv(a, have, want)
        if c is None:
            self.bad(f"units of {name}", f"'{name}' is declared {'in ' + have if have else 'without unit'}, the law needs {want}")
            raise Stop()
        return c

    def get(self, io, name, units):
        raise NotImplementedError

    def i(self, name, units=None):
        return self.get("in", name, units)

    def o(self, name, units=None):
        return self.get("out", name, units)

    def eq(self, what, a, b, rel=None, when=(), scale=0.0):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        fa, fb = a.reshape(-1), b.reshape(-1)
        for j in range(fa.size):
            self.n += 1
            self.r.count("obligations")
            ea, eb = fa[j], fb[j]
            ass = list(self.assumptions) + [w for w in when if isinstance(w, E)] + self.conds
            res = self.cmp(ea, eb, ass, rel or self.spec.rel, scale)
            if res == "undecided":
                self.und(f"{what}: no decision")
                continue
            if res is not None:
                at = f" at {res['point']}" if res["point"] else ""
                self.bad(what, f"component gives {res['a']:.9g}, the law gives {res['b']:.9g} (element {j}) [config {self.cfg.label}]{at}")
                return

    def cmp(self, ea, eb, ass, rel, scale):
        return S.compare(ea, eb, ass, self.known, self.rng, want=30, rel=rel, scale=scale)

    def ne(self, what, a, b, scale=0.0):
        """the two graphs must differ (for almost all inputs)"""
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for ea, eb in zip(a.reshape(-1), b.reshape(-1)):
            self.n += 1
            self.r.count("obligations")
            res = self.cmp(ea, eb, list(self.assumptions) + self.conds, self.spec.rel, scale)
            if res == "undecided":
                self.und(f"{what}: no decision")
            elif res is None:
                self.bad(what, f"no difference [config {self.cfg.label}]")
                return

    def smooth(self, what, a, order=0, slope_floor=0.0, when=(), least=1):
        """value (and slope, order=1) agree on both sides of every condition the graphs switch on"""
        from ..checks import contin
        for j, e in enumerate(np.asarray(a, dtype=object).reshape(-1)):
            self.n += 1
            self.r.count("obligations")
            st = {}
            for f in contin.scan_root(X.lift(e), self.assumptions + [w for w in when if isinstance(w, E)], self.known, self.rng, order=order,
                                      stats=st, slope_floor=slope_floor, per_atom=3):
                n = {"value": "value jumps", "point": "value on the boundary jumps", "slope": "slope jumps"}[f["kind"]]
                self.bad(what, f"{n} from {f['before']:.9g} to {f['after']:.9g} at {f['point']} (element {j}) [config {self.cfg.label}]")
                return
            self.r.count("boundaries_compared", st.get("crossings", 0))
            if st.get("crossings", 0) < least and contin.conditional(e):
                self.und(f"{what}: no boundary reached")

    def bound(self, what, a, b, tol, when=()):
        """|a-b| stays within tol*|b|: interval over the sampled points of the domain given by `when`"""
        self.eq(what, a, b, rel=tol, when=when)

    def bad(self, what, msg):
        self.r.add(f"{self.spec.qual}:{what}", f"{what}: {msg}", self.where(), self.spec.name)

    def check(self, what, ok, msg):
        """a structural obligation decided without values"""
        self.n += 1
        self.r.count("obligations")
        if not ok:
            self.bad(what, msg + f" [config {self.cfg.label}]")

    def und(self, why):
        self.r.und(f"{self.spec.qual} [{self.cfg.label}] {self.spec.name}", why)

    def where(self):
        return method_line(self.it, self.inst, "compute", "apply_nonlinear", "setup")

    def subst(self, a, m):
        """replace symbols (given as E) by expressions"""
        mm = {k.id: v for k, v in m.items()}
        return _map(lambda e: X.subst(e, mm) if isinstance(e, E) else e, a)

    def diff(self, a, x):
        return _map(lambda e: X.Differ(x)(e) if isinstance(e, E) else 0.0, a)


class CompView(View):
    def __init__(self, r, spec, cfg, tier):
        super().__init__(r, spec, cfg, tier)
        self.it, self.inst = C.build(cfg)
        self.ev = C.run_eval(self.it, self.inst, partials=False)
        self.known = dict(self.ev.known)
        self.assumptions = list(self.ev.out_assumptions)

    def get(self, io, name, units):
        V = self.inst.om.inputs if io == "in" else self.inst.om.outputs
        if io == "out" and self.ev.kind == "implicit":
            a = self.ev.states.get(name)
            a = a.a if a is not None else None
        else:
            a = self.ev.ins.get(name).a if io == "in" and name in self.ev.ins else self.ev.outs.get(name)
        if a is None or isinstance(a, SArr) and a is None:
            raise Undecided(f"no {io}put '{name}'")
        return self.inunits(name, a, V[name].units, units)

    def res(self, name):
        return self.ev.outs[name]

    def val(self, name, units=None):
        """declared default"""
        v = self.inst.om.inputs.get(name) or self.inst.om.outputs.get(name)
        if v is None:
            raise Undecided(f"no variable '{name}'")
        return self.inunits(name, v.val.a, v.units, units)

    def has(self, name):
        return name in self.inst.om.inputs or name in self.inst.om.outputs


class FlatView(View):
    def __init__(self, r, spec, cfg, tier):
        super().__init__(r, spec, cfg, tier)
        self.it, self.inst = C.build(cfg)
        self.flat = F.Flat(self.it, self.inst)
        self.flat.execute(ivc=spec.ivc, cut=spec.cut)
        self.known = dict(self.flat.known)
        for k, v in self.inst.om.options.d.items():
            if isinstance(v.default, float):
                self.known.setdefault(f"opt:{k}", S.Meta(v.default, None, k, "opt"))
        self.assumptions = list(self.it.assumptions)

    def get(self, io, name, units):
        if "*" in name:
            raise Undecided(name)
        f, a = self.flat.find(name)
        if a is None:
            raise Undecided(f"no variable '{name}'")
        v = self.flat.vars[a][1]
        x = self.flat.val[a] if f == "output" else self.flat.input_value(a)
        return self.inunits(name, x, v.units, units)

    def has(self, name):
        return self.flat.find(name)[1] is not None

    def balances(self):
        """(path.state, left graph, right graph) of every balance equation, in its own units"""
        if not hasattr(self, "_bal"):
            self._bal = []
            for p, c in self.flat.comps.items():
                pre = p + "." if p else ""
                for b in c.om.extra.get("bal", []):
                    try:
                        l, r = self.flat.input_value(pre + b["lhs"]), self.flat.input_value(pre + b["rhs"])
                        if b["mult"]:
                            l = l * self.flat.input_value(pre + b["mult"])
                    except Undecided:
                        continue
                    self._bal.append((pre + b["name"], l, r))
        return self._bal

    def conv(self, name, like):
        """value of a variable in the units of another"""
        a = self.flat.find(like)[1]
        return self.get("out", name, self.flat.vars[a][1].units) if a is not None else self.get("out", name, None)

    def where(self):
        return method_line(self.it, self.inst, "setup")

    def cmp(self, ea, eb, ass, rel, scale):
        res = S.compare(ea, eb, ass, self.known, self.rng, want=30, rel=rel, scale=scale)
        if res is None or res == "undecided":
            return res
        # at a converged state a cut output equals its recomputed value and both sides of a balance are equal: either side may be rewritten with it
        m = {}
        for a, g in self.flat.closure.items():
            x = self.flat.val[a].reshape(-1)
            for k, e in enumerate(g.reshape(-1)):
                m[x[k].id] = X.lift(e)
        rep = {}

        def find(e):
            while e.id in rep:
                e = rep[e.id]
            return e
        pairs = [(X.lift(x), X.lift(y)) for _, l, r in self.balances() for x, y in zip(l.reshape(-1), r.reshape(-1))]
        for x, y in pairs:
            if x.op == "s" and y.op == "s":
                x, y = find(x), find(y)
                if x is not y:
                    # a prescribed value stands for the state that is driven to it
                    if x.args[0].startswith("state:"):
                        rep[x.id] = y
                    else:
                        rep[y.id] = x
        for i in list(rep):
            m[i] = find(X.node(i))
        for x, y in pairs:
            if x.op == "s" and y.op != "s":
                m[find(x).id] = y
            elif y.op == "s" and x.op != "s":
                m[find(y).id] = x
        if not m:
            return res
        rw = lambda e: X.subst(e, m) if isinstance(e, E) else e
        ra, rb = rw(ea), rw(eb)
        for p, q in ((ra, eb), (ea, rb), (ra, rb)):
            r2 = S.compare(p, q, ass, self.known, self.rng, want=30, rel=rel, scale=scale)
            if r2 is None or r2 == "undecided":
                return r2
        return res

    def val(self, name, units=None):
        """declared default of an internal variable, or of the group boundary"""
        a = name if name in self.flat.vars else (self.flat.top_in.get(name) or [(None,)])[0][0]
        if a is None or a not in self.flat.vars:
            raise Undecided(f"no variable '{name}'")
        v = self.flat.vars[a][1]
        return self.inunits(name, v.val.a, v.units, units)

    def comps(self, clsname):
        """paths of the internal components of a class"""
        return [p for p, c in self.flat.comps.items() if getattr(c.cls, "name", "") == clsname]

    def groups(self, clsname):
        out = []

        def rec(g, p):
            for n, s in g.om.subs.items():
                if isinstance(s, OM.ExtSys):
                    continue
                q = p + "." + n if p else n
                if getattr(s.cls, "name", "") == clsname:
                    out.append(q)
                if s.om.kind == "group":
                    rec(s, q)
        rec(self.inst, "")
        return out

    def handed_out(self, absin):
        """absolute name of the output connected to an input of an external (OpenAeroStruct) system, or None"""
        return self.flat.ext_conn.get(absin)

    def source(self, absin):
        """absolute source of an internal input, or the promoted name at the group boundary"""
        s = self.flat.conn.get(absin)
        if s is not None:
            return s.src
        return self.flat.top_of.get(absin)


class WireView(FlatView):
    """only the flattened wiring, no values"""

    def __init__(self, r, spec, cfg, tier):
        View.__init__(self, r, spec, cfg, tier)
        self.it, self.inst = C.build(cfg)
        self.flat = F.Flat(self.it, self.inst)
        self.known, self.assumptions = {}, []
        self.flat.top_of = {a: nm for nm, L in self.flat.top_in.items() for a, ch in L}


def _task(idx, tier):
    spec = SPECS[idx]
    r = Result()
    r.count("laws")
    if spec.kind == "own":
        good = spec.fn(r, tier)
        if good:
            r.count("laws_decided")
        return r
    classes, _ = C.discover()
    cls = classes.get(spec.qual)
    if cls is None and not spec.qual.startswith("ocastub."):
        r.und(spec.qual, "class not found")
        return r
    try:
        cfgs = spec.cfgs(cls, tier) if callable(spec.cfgs) else (spec.cfgs or C.enumerate_configs(cls, tier, spec.cap))
    except (Undecided, InterpRaise, OM.PromErr) as e:
        r.und(spec.qual, f"configurations: {e}")
        return r
    V = {"comp": CompView, "group": FlatView, "wiring": WireView}[spec.kind]
    good = 0
    for cfg in cfgs:
        try:
            s = V(r, spec, cfg, tier)
        except InterpRaise as e:
            if spec.valid or not user_raise(e):
                r.add(f"{spec.qual}:accepted", f"accepted: fails in a documented configuration: {e.exc} [config {cfg.label}]", loc_text(e.loc), spec.name)
            else:
                r.count("configs_rejected_by_component")
            continue
        except (Undecided, OM.PromErr) as e:
            r.und(f"{spec.qual} [{cfg.label}]", str(e))
            continue
        try:
            spec.fn(s)
        except Skip:
            continue
        except Stop:
            pass
        except (Undecided, InterpRaise, KeyError, IndexError) as e:
            s.und(f"{type(e).__name__}: {e}")
            continue
        if s.n:
            good += 1
            r.count("configs_decided")
    if good:
        r.count("laws_decided")
    return r


def load_all():
    if SPECS:
        return
    import importlib
    import pkgutil
    import os
    d = os.path.dirname(__file__)
    for m in sorted(x.name for x in pkgutil.iter_modules([d])):
        if m != "base":
            importlib.import_module("oca.specs." + m)


def run(pid, tier, only=None):
    load_all()
    items = [(i, tier) for i, s in enumerate(SPECS) if s.pid == pid and (not only or only in (s.qual or "") or only in s.name)]
    return pmap(_task, items, limit=300 if tier == "quick" else 800)
