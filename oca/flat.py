"""Flattening of a set-up group: promoted names, connections, wiring problems, and abstract execution of the flattened data flow."""
import fnmatch
import numpy as np
from . import expr as X
from .expr import E
from .values import *
from .interp import InterpRaise, Undecided
from . import om as OM
from . import npmodel as NP
from . import units as U
from .sample import Meta


class Problem_:
    def __init__(self, kind, subject, msg, loc=None):
        self.kind, self.subject, self.msg, self.loc = kind, subject, msg, loc


class Src:
    __slots__ = ("src", "chain", "loc", "explicit")

    def __init__(self, src, chain, loc, explicit):
        self.src, self.chain, self.loc, self.explicit = src, chain, loc, explicit


class Flat:
    def __init__(self, it, inst):
        self.it, self.inst = it, inst
        self.vars = {}          # abs -> (io, Var, component)
        self.comps = {}         # abs path -> component
        self.order = []
        self.conn = {}          # abs input -> Src
        self.problems = []
        self.ext_conn = {}      # input of an external system -> what is connected to it
        self.ext = []           # paths of external systems
        self.n_conn = self.n_prom = 0
        self.scopes = {}
        self.scope = self.rec(inst, "")
        self.finish()

    def bad(self, kind, subject, msg, loc=None):
        self.problems.append(Problem_(kind, subject, msg, loc))

    # scope: {'input': {prom: [(abs, [src_indices infos])]}, 'output': {prom: [abs]}, 'open': [ext pattern lists]}
    def rec(self, g, path):
        sc = {"input": {}, "output": {}, "open": []}
        pre = path + "." if path else ""
        if g.om.kind != "group":
            self.comps[path] = g
            self.order.append(path)
            for n, v in g.om.inputs.items():
                self.vars[pre + n] = ("input", v, g)
                sc["input"][n] = [(pre + n, [])]
            for n, v in g.om.outputs.items():
                self.vars[pre + n] = ("output", v, g)
                sc["output"][n] = [pre + n]
            return sc
        for n, s in g.om.subs.items():
            if isinstance(s, OM.ExtSys):
                self.ext.append(pre + n)
                sc["open"].append((n + ".*", None))
                for k, L in s.prom.items():
                    for p, inf in L:
                        sc["open"].append((p[1] if isinstance(p, tuple) else p, k))
                continue
            ss = self.rec(s, pre + n)

            def report(k, p, s=s, ss=ss, n=n):
                name = p[0] if isinstance(p, tuple) else p
                for q, _ in ss["open"]:
                    if fnmatch.fnmatchcase(name, q) or ("*" in name and fnmatch.fnmatchcase(q, name)):
                        return
                self.bad("promotion", f"{pre + n}: {name}", f"promotes '{name}' of '{pre + n}' but no {'variable' if k == 'any' else k} of that name exists there",
                         s.om.extra.get("loc"))
            pm = OM.resolve_promotes(s.om.promotes, list(ss["input"]), list(ss["output"]), report)
            for io in ("input", "output"):
                for prom, L in ss[io].items():
                    p = pm.get((io, prom))
                    nm = p[0] if p is not None else n + "." + prom
                    self.n_prom += p is not None
                    if io == "input":
                        if p is not None and p[1] is not None:
                            L = [(a, [p[1]] + ch) for a, ch in L]
                        sc["input"].setdefault(nm, []).extend(L)
                    else:
                        sc["output"].setdefault(nm, []).extend(L)
            for q, k in ss["open"]:
                # names of an external system that surface through promotion
                hit = False
                for kk in ("any", "input", "output"):
                    for p, inf in s.om.promotes.get(kk, []):
                        src = p[0] if isinstance(p, tuple) else p
                        if q == src or fnmatch.fnmatchcase(q, src) or fnmatch.fnmatchcase(src, q):
                            sc["open"].append((p[1] if isinstance(p, tuple) else (q if "*" not in q else src), k or kk))
                            hit = True
                if not hit:
                    sc["open"].append((n + "." + q, k))
        # two outputs under one name
        for nm, L in sc["output"].items():
            if len(L) > 1:
                self.bad("two-sources", nm, f"outputs {', '.join(sorted(L))} are promoted to the same name '{nm}' of group '{path or '<model>'}'", g.om.extra.get("loc"))
        for nm, L in sc["input"].items():
            if nm in sc["output"]:
                for a, ch in L:
                    self.add(a, sc["output"][nm][0], ch, g.om.extra.get("loc"), False)
        for src, tgt, si, fl, loc in g.om.conns:
            self.n_conn += 1
            srcs, tgts = sc["output"].get(src), sc["input"].get(tgt)
            if srcs is None and not self.is_open(sc, src):
                what = "an input" if src in sc["input"] else "missing"
                self.bad("connect-source", f"{pre}{src} -> {tgt}", f"connect('{src}', '{tgt}') in group '{path or '<model>'}': source is {what}", loc)
            if tgts is None and not self.is_open(sc, tgt):
                what = "an output" if tgt in sc["output"] else "missing"
                self.bad("connect-target", f"{pre}{src} -> {tgt}", f"connect('{src}', '{tgt}') in group '{path or '<model>'}': target is {what}", loc)
            if tgts is None:
                self.ext_conn[pre + tgt] = srcs[0] if srcs else "?ext:" + pre + src
            else:
                for a, ch in tgts:
                    self.add(a, srcs[0] if srcs else "?ext:" + pre + src, ([(si, fl, None, loc)] if si is not None else []) + ch, loc, True)
        for nm, val, un, loc, hv in g.om.defs:
            if nm not in sc["input"] and not self.is_open(sc, nm):
                self.bad("input-default", f"{pre}{nm}", f"set_input_defaults('{nm}') in group '{path or '<model>'}' names no promoted input", loc)
        for q, k in sc["open"]:
            # an external output of this promoted name may feed inputs of the group
            for nm, L in sc["input"].items():
                if k in (None, "any", "output") and (nm == q or ("*" in q and fnmatch.fnmatchcase(nm, q))):
                    for a, ch in L:
                        self.conn.setdefault(a, Src("?ext:" + pre + nm, ch, None, False)) if False else None
        self.scopes[path] = sc
        return sc

    def is_open(self, sc, name):
        return any(name == q or ("*" in q and fnmatch.fnmatchcase(name, q)) for q, _ in sc["open"])

    def add(self, a, src, chain, loc, explicit):
        old = self.conn.get(a)
        if old is not None:
            if old.src != src:
                self.bad("two-sources", a, f"input '{a}' has two sources: '{old.src}' and '{src}'", loc or old.loc)
            elif explicit and old.explicit:
                self.bad("two-sources", a, f"input '{a}' is connected twice to '{src}'", loc or old.loc)
            return
        self.conn[a] = Src(src, list(chain), loc, explicit)

    def finish(self):
        self.top_in = {}       # promoted name -> [abs]
        for nm, L in self.scope["input"].items():
            for a, ch in L:
                if a not in self.conn:
                    self.top_in.setdefault(nm, []).append((a, ch))

    # -------------------------------------------------------------- rules
    def shape_via(self, shape, chain):
        """shape seen through a chain of src_indices"""
        idx = None
        for inf in chain:
            si = inf[0]
            if si is None:
                continue
            flat = bool(inf[1]) if inf[1] is not None else False
            if idx is None:
                if shape is None:
                    return None, None
                idx = np.arange(int(np.prod(shape))).reshape(shape)
            idx = self.take(idx, si, flat)
        return (idx.shape if idx is not None else shape), idx

    def take(self, idx, si, flat):
        if isinstance(si, SArr):
            si = si.a
        if isinstance(si, (list, tuple)) and any(isinstance(x, (slice, type(Ellipsis))) for x in si):
            return idx[tuple(si)]
        if isinstance(si, slice) or si is Ellipsis:
            return idx[si]
        if isinstance(si, tuple):
            return idx[tuple(np.asarray(x, dtype=int) if not isinstance(x, int) else x for x in si)]
        if isinstance(si, (E, Opaque, Poison)):
            raise Undecided("symbolic src_indices")
        k = np.asarray(si, dtype=int)
        if flat or idx.ndim == 1:
            return idx.reshape(-1)[k]
        return idx.reshape(-1)[k] if k.ndim == 1 else idx.reshape(-1)[k]

    def check_conns(self):
        n = 0
        for a, s in self.conn.items():
            if s.src.startswith("?ext:"):
                continue
            vi, vo = self.vars[a][1], self.vars[s.src][1]
            n += 1
            if vi.units is not None and vo.units is not None and U.get(vi.units) is not None and U.get(vo.units) is not None and not U.compatible(vi.units, vo.units):
                self.bad("units", f"{s.src} -> {a}", f"'{s.src}' [{vo.units}] feeds '{a}' [{vi.units}]: incompatible units", s.loc or self.vars[a][2].om.extra.get("loc"))
            if vi.shape is None or vo.shape is None or vi.dyn or vo.dyn:
                continue
            try:
                sh, _ = self.shape_via(vo.shape, s.chain)
            except IndexError as e:
                self.bad("shape", f"{s.src} -> {a}", f"source indices of '{a}' are outside '{s.src}' {vo.shape}", s.loc)
                continue
            if sh is not None and int(np.prod(sh)) != int(np.prod(vi.shape)):
                self.bad("shape", f"{s.src} -> {a}", f"'{s.src}' with shape {tuple(sh)} feeds '{a}' with shape {tuple(vi.shape)}", s.loc or self.vars[a][2].om.extra.get("loc"))
        for nm, L in self.top_in.items():
            ref = None
            for a, ch in L:
                v = self.vars[a][1]
                if v.units is not None:
                    if ref is not None and U.get(ref[1].units) is not None and U.get(v.units) is not None and not U.compatible(ref[1].units, v.units):
                        self.bad("promoted-units", nm, f"inputs '{ref[0]}' [{ref[1].units}] and '{a}' [{v.units}] share the name '{nm}' but have incompatible units", self.vars[a][2].om.extra.get("loc"))
                    ref = ref or (a, v)
            sh = None
            for a, ch in L:
                v = self.vars[a][1]
                if ch or v.shape is None or v.dyn:
                    continue
                if sh is not None and int(np.prod(sh[1])) != v.size:
                    self.bad("promoted-shape", nm, f"inputs '{sh[0]}' {sh[1]} and '{a}' {v.shape} share the name '{nm}' but have different sizes", self.vars[a][2].om.extra.get("loc"))
                sh = sh or (a, v.shape)
        return n

    def dangling(self):
        """inputs without source whose name is not promoted to the group boundary"""
        out = []
        for nm, L in self.top_in.items():
            for a, ch in L:
                if "." in nm and not self.ext_feeds(a):
                    out.append((a, nm))
        return out

    def ext_feeds(self, a):
        return False

    # -------------------------------------------------------------- execution
    def execute(self, ivc="value", cut=()):
        """abstract values of all outputs; group inputs become symbols named by their promoted name.
        Cycles are cut at implicit states, at the promoted names in `cut`, at integrators, else at the first component in order;
        closure keeps the recomputed value of every cut explicit output"""
        self.known = {}
        self.closure = {}
        pre_cut = {self.find(n)[1] for n in cut}
        pre_cut.discard(None)
        self.val = {}
        self.unresolved = []
        self.top_sym = {}
        defs = {nm: (val, un) for nm, val, un, loc, hv in self.inst.om.defs}
        for nm, L in self.top_in.items():
            units = None
            shape = None
            default = None
            for a, ch in L:
                v = self.vars[a][1]
                units = units or v.units
                if shape is None and not ch:
                    shape, default = v.shape, v.val
            if shape is None:
                for a, ch in L:
                    if ch and ch[0][2] is not None:
                        shape = tuple(int(x) for x in np.atleast_1d(ch[0][2].a if isinstance(ch[0][2], SArr) else ch[0][2]))
                        break
            if nm in defs and defs[nm][1] is not None:
                units = defs[nm][1]
            if shape is None and L:
                shape = self.vars[L[0][0]][1].shape
            if shape is None:
                raise Undecided(f"shape of {nm}")
            f = np.empty(int(np.prod(shape)), dtype=object)
            dv = default.a.reshape(-1) if isinstance(default, SArr) else [1.0] * f.size
            for i in range(f.size):
                f[i] = X.sym(f"{nm}[{i}]")
                d = dv[i] if i < len(dv) else 1.0
                m = self.vars[L[0][0]][1]
                d = float(d) if not isinstance(d, E) and d is not None else 1.0
                if units != m.units and units and m.units:
                    d = float(U.convert(d, m.units, units))
                self.known[f"{nm}[{i}]"] = Meta(d, units, nm, "in")
            self.top_sym[nm] = (f.reshape(shape), units)
        self.top_of = {a: nm for nm, L in self.top_in.items() for a, ch in L}
        self.chain_of = {a: ch for nm, L in self.top_in.items() for a, ch in L}
        for p, c in self.comps.items():
            for k, v in c.om.options.d.items():
                pass
        pend = list(self.order)
        deps = {}
        for p in pend:
            c = self.comps[p]
            deps[p] = set()
            for n in c.om.inputs:
                s = self.conn.get(p + "." + n if p else n)
                if s is not None and not s.src.startswith("?ext:"):
                    deps[p].add(s.src)
        for a in pre_cut:
            self.sym_out(a)
        while pend:
            progress = False
            for p in list(pend):
                if all(d in self.val for d in deps[p]):
                    self.run_comp(p, ivc)
                    pend.remove(p)
                    progress = True
            if not progress:
                # cut the cycle: implicit components first, then the first component in order
                cut = next((p for p in pend if self.comps[p].om.kind == "implicit"),
                           next((p for p in pend if getattr(self.comps[p].cls, "name", "") in ("Integrator", "OldIntegrator") and not self.done(p)), pend[0]))
                if self.comps[cut].om.kind == "implicit":
                    self.symbolic(cut)
                    pend.remove(cut)
                elif getattr(self.comps[cut].cls, "name", "") in ("Integrator", "OldIntegrator") and not self.done(cut):
                    for n in self.comps[cut].om.outputs:
                        a = cut + "." + n if cut else n
                        if a not in self.val:
                            self.sym_out(a)
                            self.unresolved.append(a)
                else:
                    missing = sorted(d for d in deps[cut] if d not in self.val)
                    for d in missing:
                        self.sym_out(d)
                        self.unresolved.append(d)
        return self.val

    def done(self, p):
        return all((p + "." + n if p else n) in self.val for n in self.comps[p].om.outputs)

    def sym_out(self, a):
        io, v, c = self.vars[a]
        if v.shape is None:
            raise Undecided(f"dynamic shape of {a}")
        f = np.empty(v.size, dtype=object)
        dv = v.val.a.reshape(-1) if isinstance(v.val, SArr) else [1.0] * v.size
        for i in range(v.size):
            f[i] = X.sym(f"state:{a}[{i}]")
            d = dv[i] if i < len(dv) else 1.0
            self.known[f"state:{a}[{i}]"] = Meta(float(d) if not isinstance(d, E) and d is not None else 1.0, v.units, a, "in")
        self.val[a] = f.reshape(v.shape)

    def symbolic(self, p):
        for n in self.comps[p].om.outputs:
            self.sym_out(p + "." + n if p else n)

    def input_value(self, a):
        io, v, c = self.vars[a]
        s = self.conn.get(a)
        if s is None:
            arr, units = self.top_sym[self.top_of[a]]
            chain = self.chain_of[a]
        elif s.src.startswith("?ext:"):
            f = np.empty(v.size, dtype=object)
            for i in range(v.size):
                f[i] = X.sym(f"ext:{a}[{i}]")
                self.known[f"ext:{a}[{i}]"] = Meta(1.0, v.units, a, "in")
            return f.reshape(v.shape)
        else:
            arr, units = self.val[s.src], self.vars[s.src][1].units
            chain = s.chain
        try:
            sh, idx = self.shape_via(arr.shape, chain)
        except IndexError:
            raise Undecided(f"source indices of {a}")
        if idx is not None:
            arr = arr.reshape(-1)[idx]
        if v.shape is None:
            raise Undecided(f"dynamic shape of {a}")
        if arr.size != v.size:
            if arr.size == 1:
                arr = np.full(v.shape, arr.reshape(-1)[0], dtype=object)
            else:
                raise Undecided(f"shape of the source of {a}")
        arr = arr.reshape(v.shape)
        if units is not None and v.units is not None and units != v.units:
            if U.get(units) is None or U.get(v.units) is None or not U.compatible(units, v.units):
                raise Undecided(f"units of the source of {a}")
            o = np.empty(v.size, dtype=object)
            fl = arr.reshape(-1)
            for i in range(v.size):
                o[i] = U.convert(X.lift(fl[i]), units, v.units)
            arr = o.reshape(v.shape)
        else:
            arr = arr.copy()
        return arr

    def run_comp(self, p, ivc):
        c = self.comps[p]
        it = self.it
        pre = p + "." if p else ""
        todo = [n for n in c.om.outputs if pre + n not in self.val]
        if c.om.kind == "implicit":
            self.symbolic(p)
            return
        native = it.find_method(c.cls, "compute")
        if c.om.kind == "ivc" or (not c.om.inputs and native is None):
            for n in todo:
                v = c.om.outputs[n]
                if (ivc(p) if callable(ivc) else ivc == "value") and isinstance(v.val, SArr):
                    self.val[pre + n] = v.val.a.copy().astype(object)
                else:
                    self.sym_out(pre + n)
            return
        if not isinstance(c.cls, ClsObj) and native is None or (isinstance(c.cls, ClsObj) and c.cls.qual.startswith("ocastub.") and native is None):
            for n in todo:
                self.sym_out(pre + n)
            return
        if native is None:
            for n in todo:
                self.sym_out(pre + n)
            return
        ins = {n: SArr(self.input_value(pre + n).astype(object), "f", Root(f"input '{n}'")) for n in c.om.inputs}
        outs = {}
        for n, v in c.om.outputs.items():
            if v.shape is None:
                raise Undecided(f"dynamic shape of {n}")
            f = np.empty(v.size, dtype=object)
            for i in range(v.size):
                f[i] = X.sym(f"out:{pre}{n}[{i}]")
            outs[n] = SArr(f.reshape(v.shape), "f")
        try:
            it.call(Bound(native, c), [OM.Vec("input", ins, False), OM.Vec("output", outs, True)], {})
        except Undecided:
            for n in todo:
                self.sym_out(pre + n)
            self.unresolved += [pre + n for n in todo]
            return
        for n in c.om.outputs:
            if n in todo:
                self.val[pre + n] = outs[n].a.copy()
            else:
                self.closure[pre + n] = outs[n].a.copy()

    # -------------------------------------------------------------- access by promoted name
    def find(self, prom):
        """absolute name(s) behind a promoted name of the group, outputs first"""
        L = self.scope["output"].get(prom)
        if L:
            return "output", L[0]
        L = self.scope["input"].get(prom)
        if L:
            return "input", L[0][0]
        if prom in self.vars:
            return self.vars[prom][0], prom
        parts = prom.split(".")
        for k in range(len(parts) - 1, 0, -1):
            sc = self.scopes.get(".".join(parts[:k]))
            if sc is not None:
                rest = ".".join(parts[k:])
                if rest in sc["output"]:
                    return "output", sc["output"][rest][0]
                if rest in sc["input"]:
                    return "input", sc["input"][rest][0][0]
        return None, None

    def get(self, prom, units=None):
        io, a = self.find(prom)
        if a is None:
            raise Undecided(f"no variable '{prom}'")
        v = self.vars[a][1]
        arr = self.val[a] if io == "output" else self.input_value(a)
        u = v.units
        if units is None or u is None or units == u:
            return arr
        return np.array([U.convert(X.lift(e), u, units) for e in arr.reshape(-1)], dtype=object).reshape(arr.shape)
