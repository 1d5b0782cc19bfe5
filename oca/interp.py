"""Abstract interpreter for the Python subset used by OpenConcept.

Statements are interpreted over abstract values (values.py); scalar data are
terms of the value graph (expr.py).  At a branch on a symbolic condition both
successors are analysed and their states joined with gated (ite) terms; a
branch that raises is excluded and its negated condition kept as an
assumption.  No repository code is executed.
"""
import ast
import collections
import os
import operator
import re
import numpy as np
from . import expr as X
from .expr import E
from .values import *
from . import npmodel as NP
from . import om as OM

MAX_DEPTH = 80
BUILTIN_EXC = {n: type(n, (), {"__name__": n, "name": n, "isexc": True}) for n in (
    "Exception", "ValueError", "TypeError", "KeyError", "RuntimeError", "NotImplementedError", "ImportError",
    "IndexError", "AttributeError", "RuntimeWarning", "UserWarning", "Warning", "DeprecationWarning", "AssertionError",
    "StopIteration", "ZeroDivisionError", "ModuleNotFoundError", "FloatingPointError", "ArithmeticError", "OSError",
    "FileNotFoundError", "NameError", "UnboundLocalError", "LookupError", "BaseException", "FutureWarning", "OverflowError",
    "RecursionError", "MemoryError", "EOFError", "KeyboardInterrupt", "SystemExit", "UnicodeError", "PermissionError", "TimeoutError")}
BUILTIN_EXC["IOError"] = BUILTIN_EXC["EnvironmentError"] = BUILTIN_EXC["OSError"]
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
              "ModuleNotFoundError": "ImportError", "UnboundLocalError": "NameError",
              "ZeroDivisionError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
              "NotImplementedError": "RuntimeError", "RuntimeWarning": "Warning", "UserWarning": "Warning",
              "DeprecationWarning": "Warning", "Warning": "Exception", "FileNotFoundError": "OSError",
              "BaseException": None}


_trees = {}


def parse_file(path):
    t = _trees.get(path)
    if t is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = _trees[path] = ast.parse(open(path).read(), path)
    return t


_lib = set()


def lib_names():
    if not _lib:
        t = parse_file(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "lib.py"))
        for st in t.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                _lib.add(st.name)
            elif isinstance(st, ast.Assign):
                _lib.add(st.targets[0].id)
    return _lib


def desugar_match(st):
    """match statement as assignments and a chain of conditionals"""
    r = getattr(st, "_oca_if", None)
    if r is not None:
        return r
    tmp = f"$match{st.lineno}_{st.col_offset}"

    def name(n):
        return ast.Name(n, ast.Load())

    def test(p, subj):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [test(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            t = test(p.pattern, subj) if p.pattern is not None else ast.Constant(True)
            if p.name is None:
                return t
            bind = ast.List([ast.NamedExpr(ast.Name(p.name, ast.Store()), subj)], ast.Load())
            return ast.BoolOp(ast.And(), [t, bind])
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            ts = [ast.Call(name("isinstance"), [subj, ast.Tuple([name("list"), name("tuple")], ast.Load())], []),
                  ast.Compare(ast.Call(name("len"), [subj], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            for i, x in enumerate(p.patterns):
                ts.append(test(x, ast.Subscript(subj, ast.Constant(i), ast.Load())))
            return ast.BoolOp(ast.And(), ts)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(name("isinstance"), [subj, p.cls], [])
        raise Undecided("match pattern")

    orelse = []
    for c in reversed(st.cases):
        t = test(c.pattern, name(tmp))
        if c.guard is not None:
            t = ast.BoolOp(ast.And(), [t, c.guard])
        orelse = [ast.If(t, c.body, orelse)]
    r = [ast.Assign([ast.Name(tmp, ast.Store())], st.subject)] + orelse
    for x in r:
        ast.copy_location(x, st)
        ast.fix_missing_locations(x)
    st._oca_if = r
    return r


def is_gen(node):
    r = getattr(node, "_oca_gen", None)
    if r is None:
        def has(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)) or has(c):
                    return True
            return False
        r = node._oca_gen = not isinstance(node, ast.Lambda) and has(node)
    return r


def escapes(st):
    """can this statement leave its block (return / break / continue of an enclosing loop)?"""
    r = getattr(st, "_oca_esc", None)
    if r is None:
        r = st._oca_esc = _esc(st, isinstance(st, (ast.For, ast.While)))
    return r


def _esc(st, inloop):
    for c in ast.iter_child_nodes(st):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.expr)):
            continue
        if isinstance(c, ast.Return) or isinstance(c, (ast.Break, ast.Continue)):
            return True
        if _esc(c, inloop):
            return True
    return False


class Event:
    def __init__(self, kind, loc, func, msg, data=None):
        self.kind, self.loc, self.func, self.msg, self.data = kind, loc, func, msg, data

    def __repr__(self):
        return f"{self.kind} {self.loc} in {self.func}: {self.msg}"


class IterV:
    """iterator: the values still to come"""

    def __init__(self, xs):
        self.rest = list(xs)

    def om_iter(self, it):
        it.touch(self.rest)
        xs = list(self.rest)
        self.rest.clear()
        return xs

    def om_truth(self):
        return True


class CtxV:
    """call of a generator-based context manager"""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Frame:
    gen = None

    def __init__(self, func, module, closure=None):
        self.vars = {}
        self.func = func
        self.module = module
        self.closure = closure
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}
        self.loaded = False
        self.lib = name == "ocastub.lib"


class Interp:
    const_hook = None           # numeric literals that stand for physical constants (dimensional analysis)

    def __init__(self, root="/repo", package="openconcept"):
        self.root = root
        self.package = package
        self.modules = {}
        self.journal = []
        self.events = []
        self.assumptions = []
        self.handling = []      # exceptions whose handlers are being analysed
        self.in_try = 0
        self.guards = []        # (condition under which evaluation goes on, exception, place)
        self.cs_syms = frozenset()
        self.loc = ("?", 0)
        self.depth = 0
        self.frames = []
        self.track = False
        self.protect = {}
        self.ext_calls = []
        self.natives = {}
        self.class_instances = {}
        self.no_effects = False
        self.step = 0
        self.step_limit = 3_000_000
        self.files = set()
        self.global_writes = []
        self.phase = "load"
        self.load_hook = None       # relabels the numbers of a data file (provenance analysis)
        self.analysis_hook = None   # fails a nested analysis (fault histories)
        self.path_conds = []
        self.sparse_values = False
        self.stub_mods = {}         # library module -> recorder that stands for it
        OM.install(self)

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        parts = name.split(".")
        if parts[0] == "ocastub":
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", *parts[1:])
        else:
            p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f if os.path.exists(f) else None
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.modpath(name)
        if path is None:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]       # imported by the package itself
        m = Module(name, path)
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        if path.endswith("__init__.py"):
            m.ns["__path__"] = [os.path.dirname(path)]
        if not m.lib:
            self.files.add(path)
        tree = parse_file(path)
        fr = Frame(None, m)
        fr.vars = m.ns
        saved = self.loc
        self.frames.append(fr)
        try:
            for st in tree.body:
                try:
                    self.exec_stmt(st, fr)
                except Undecided as u:
                    # module-level statement outside the model: its targets become poison
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.ns[n.id] = Poison(str(u))
        finally:
            self.frames.pop()
            self.loc = saved
        m.loaded = True
        if "." in name:
            par, last = name.rsplit(".", 1)
            if par in self.modules:
                self.modules[par].ns.setdefault(last, m)
        return m

    def relpath(self, p):
        return os.path.relpath(p, self.root)

    def prelude(self, name):
        """library function defined in the interpreted subset (stubs/lib.py), or None"""
        m = self.modules.get("ocastub.lib")
        if m is None:
            if name not in lib_names():
                return None
            saved = self.loc, self.phase
            self.phase = "load"
            m = self.load("ocastub.lib")
            self.loc, self.phase = saved
        v = m.ns.get(name)
        return v if isinstance(v, (FuncObj, ClsObj, Inst)) else None

    # ------------------------------------------------------------ journal
    def touch(self, obj):
        if not self.journal:
            return
        seg = self.journal[-1]
        k = id(obj)
        if k not in seg:
            seg[k] = (obj, self._snap(obj))

    @staticmethod
    def _snap(o):
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, list):
            return list(o)
        if isinstance(o, set):
            return set(o)
        if isinstance(o, np.ndarray):
            return o.copy()
        raise Undecided(f"cannot journal {type(o)}")

    @staticmethod
    def _put(o, s):
        if isinstance(o, dict):
            o.clear()
            o.update(s)
        elif isinstance(o, list):
            o[:] = s
        elif isinstance(o, set):
            o.clear()
            o.update(s)
        else:
            o[...] = s

    def push(self):
        self.journal.append({})

    def pop(self):
        """close the top segment: returns {id: (obj, pre, post)} and restores the pre state"""
        seg = self.journal.pop()
        out = {}
        for k, (o, pre) in seg.items():
            out[k] = (o, pre, self._snap(o))
        for k, (o, pre) in seg.items():
            self._put(o, pre)
        return out

    def apply(self, touched):
        for o, pre, post in touched.values():
            self.touch(o)
            self._put(o, post)

    def commit(self):
        """close the top segment keeping its effects (merge into the parent)"""
        seg = self.journal.pop()
        if self.journal:
            par = self.journal[-1]
            for k, v in seg.items():
                par.setdefault(k, v)

    def merge_states(self, c, ta, tb):
        keys = list(ta) + [k for k in tb if k not in ta]
        posts = ({k: v[2] for k, v in ta.items()}, {k: v[2] for k, v in tb.items()})
        # arrays first: the values merged afterwards refer to them
        keys.sort(key=lambda k: not isinstance((ta.get(k) or tb.get(k))[0], np.ndarray))
        saved, self.posts = self.posts, posts
        try:
            self._merge_states(c, ta, tb, keys)
        finally:
            self.posts = saved

    posts = ({}, {})

    def _merge_states(self, c, ta, tb, keys):
        for k in keys:
            if k in ta:
                o, pre, pa = ta[k]
                pb = tb[k][2] if k in tb else pre
            else:
                o, pre, pb = tb[k]
                pa = pre
            self.touch(o)
            self._put(o, self.merge_content(c, pa, pb))

    def merge_content(self, c, a, b):
        if isinstance(a, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                if (k not in a or k not in b) and has_sym(k):
                    out[k] = a[k] if k in a else b[k]       # found only where an equal key was put (dict_sym)
                    continue
                out[k] = self.merge(c, a[k] if k in a else UNDEF, b[k] if k in b else UNDEF)
            return out
        if isinstance(a, list):
            if len(a) != len(b):
                return [Gap("list lengths differ between branches")]
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, set):
            if a != b:
                raise Undecided("sets differ between branches")
            return a
        if a.dtype != object:
            if (a == b).all():
                return a
            raise Undecided("integer array differs between branches")
        return np.frompyfunc(lambda x, y: self.merge_scalar(c, x, y), 2, 1)(a, b) if a.size else a

    def merge_scalar(self, c, x, y):
        if x is y:
            return x
        if is_scalar(x) and is_scalar(y):
            return X.lower(X.ite(c, x, y))
        if isinstance(x, str) and x == y:
            return x
        return Poison("differs between branches")

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison):
            return a if not (a is UNDEF) else Gap("possibly unbound")
        if isinstance(b, Poison):
            return b if not (b is UNDEF) else Gap("possibly unbound")
        if is_scalar(a) and is_scalar(b):
            return X.lower(X.ite(c, a, b))
        if isinstance(a, SArr) or isinstance(b, SArr):
            if (isinstance(a, SArr) or is_scalar(a)) and (isinstance(b, SArr) or is_scalar(b)):
                if isinstance(a, SArr) and isinstance(b, SArr) and a.a is b.a:
                    return a
                sa = a.shape if isinstance(a, SArr) else ()
                sb = b.shape if isinstance(b, SArr) else ()
                if sa == sb:
                    return NP.where(self, c, a, b)
                # keep both: representable only if broadcasting one loses nothing on later use
                if isinstance(a, SArr) and isinstance(b, SArr):
                    return Poison("array shapes differ between branches")
                return NP.where(self, c, a, b)
            return Poison("kinds differ between branches")
        if type(a) is type(b) and isinstance(a, tuple) and len(a) == len(b):
            return retuple(a, [self.merge(c, x, y) for x, y in zip(a, b)])
        if type(a) is type(b) and type(a) in (list, dict):
            # containers built separately on the two paths, with what each path put into them
            ca, cb = self.posts[0].get(id(a), a), self.posts[1].get(id(b), b)
            if len(ca) == len(cb) and (type(a) is list or list(ca) == list(cb)):
                return self.merge_content(c, ca, cb)
        if isinstance(a, MaskIdx) and isinstance(b, MaskIdx):
            return MaskIdx(NP.where(self, c, a.mask, b.mask))
        try:
            if a == b:
                return a
        except Exception:
            pass
        return Poison("differs between branches")

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr, top=False):
        return self.run(("block", stmts, 0, None), fr, top)

    def run(self, k, fr, top):
        """execute an explicit continuation (linked: kind, data..., next); an undetermined condition whose arms may leave the
        block evaluates the rest of the continuation inside each arm, so every early exit is joined exactly"""
        while k is not None:
            kind = k[0]
            if kind == "for":
                _, st, items, i, nx = k
                if i == len(items):
                    k = ("block", st.orelse, 0, nx)
                    continue
                self.assign(st.target, items[i], fr)
                k = ("block", st.body, 0, ("for", st, items, i + 1, nx))
                continue
            if kind == "while":
                _, st, n, nx = k
                c = self.truth(self.ev(st.test, fr))
                if not isinstance(c, bool):
                    if n > 40:
                        raise Undecided("symbolic loop condition")
                    ka = ("block", st.body, 0, ("while", st, n + 1, nx))
                    kb = ("block", st.orelse, 0, nx)
                    return self.branch(c, lambda: self.run(ka, fr, top), lambda: self.run(kb, fr, top), fr, top)
                if not c:
                    k = ("block", st.orelse, 0, nx)
                    continue
                if n > 20000:
                    raise Undecided("loop limit")
                k = ("block", st.body, 0, ("while", st, n + 1, nx))
                continue
            _, stmts, i, nx = k
            if i >= len(stmts):
                k = nx
                continue
            st = stmts[i]
            k = ("block", stmts, i + 1, nx)
            if isinstance(st, ast.Match):
                k = ("block", desugar_match(st), 0, k)
                continue
            f = self.may_miss(st, fr)
            if f is not None:
                c, ka, kb = f[0], ("block", f[1], 0, k), ("block", f[2], 0, k)
                return self.branch(c, lambda: self.run(ka, fr, top), lambda: self.run(kb, fr, top), fr, top)
            if isinstance(st, (ast.If, ast.For, ast.While)) and escapes(st):
                self.step += 1
                if self.step > self.step_limit:
                    raise Undecided("step limit")
                if not fr.module.lib:
                    self.loc = (fr.module.path, getattr(st, "lineno", 0))
                if isinstance(st, ast.For):
                    k = ("for", st, list(self.iterate(self.ev(st.iter, fr))), 0, k)
                    continue
                if isinstance(st, ast.While):
                    k = ("while", st, 0, k)
                    continue
                c = self.truth(self.ev(st.test, fr))
                if isinstance(c, bool):
                    k = ("block", st.body if c else st.orelse, 0, k)
                    continue
                ka, kb = ("block", st.body, 0, k), ("block", st.orelse, 0, k)
                return self.branch(c, lambda: self.run(ka, fr, top), lambda: self.run(kb, fr, top), fr, top)
            sig = self.exec_stmt(st, fr)
            if sig is None:
                continue
            if sig[0] in ("break", "continue"):
                while k is not None and k[0] not in ("for", "while"):
                    k = k[-1]
                if k is None:
                    return sig
                if sig[0] == "break":
                    k = k[-1]
                continue
            return sig
        return None

    def may_miss(self, st, fr):
        """x = d.get(k[, default]) and try: x = d[k] except KeyError: ... where it is undetermined whether k is in d:
        (condition, statements when it is, statements when it is not)"""
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "get" and \
                1 <= len(st.value.args) <= 2 and not st.value.keywords and isinstance(st.value.func.value, (ast.Name, ast.Attribute)):
            d, kx = st.value.func.value, st.value.args[0]
            dflt = st.value.args[1] if len(st.value.args) == 2 else ast.Constant(None)
            miss = [ast.copy_location(ast.Assign(targets=st.targets, value=dflt), st)]
            hit = [ast.copy_location(ast.Assign(targets=st.targets, value=ast.Subscript(value=d, slice=kx, ctx=ast.Load())), st)]
        elif isinstance(st, ast.Try) and len(st.body) == 1 and len(st.handlers) == 1 and st.handlers[0].name is None and isinstance(st.body[0], (ast.Assign, ast.Return)) and \
                isinstance(st.body[0].value, ast.Subscript) and isinstance(st.body[0].value.value, (ast.Name, ast.Attribute)) and \
                isinstance(st.handlers[0].type, ast.Name) and st.handlers[0].type.id in ("KeyError", "LookupError", "Exception"):
            d, kx = st.body[0].value.value, st.body[0].value.slice
            hit, miss = list(st.body) + list(st.orelse) + list(st.finalbody), list(st.handlers[0].body) + list(st.finalbody)
        else:
            return None
        o = self.ev(d, fr)
        if not isinstance(o, dict) or isinstance(o, DefDict) or isinstance(kx, ast.Slice):
            return None
        c = self.dict_in(o, self.key(self.ev(kx, fr)))
        if isinstance(c, bool):
            return None
        for x in hit + miss:
            ast.fix_missing_locations(x)
        return c, hit, miss

    def exec_stmt(self, st, fr):
        self.step += 1
        if self.step > self.step_limit:
            raise Undecided("step limit")
        if not fr.module.lib:
            self.loc = (fr.module.path, getattr(st, "lineno", 0))
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(st).__name__}")
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        return None

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            rhs = self.ev(st.value, fr)
            if isinstance(cur, SArr):
                self.inplace(cur, op, rhs)
                return
            if isinstance(cur, list) and op == "Add":
                self.touch(cur)
                self.effect(cur, "in-place list extension")
                cur.extend(self.iterate(rhs))
                return
            self.assign(t, self.binop(op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(st.value, fr)
            if isinstance(cur, SArr):
                self.inplace(cur, op, rhs)
                return
            if isinstance(cur, list) and op == "Add":
                self.touch(cur)
                self.effect(cur, "in-place list extension")
                cur.extend(self.iterate(rhs))
                return
            self.setattr(o, t.attr, self.binop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.getitem(o, idx)
            rhs = self.ev(st.value, fr)
            if isinstance(cur, list) and op == "Add":
                self.touch(cur)
                self.effect(cur, "in-place list extension")
                cur.extend(self.iterate(rhs))
                return
            new = self.binop(op, cur, rhs)
            if isinstance(cur, SArr) and isinstance(new, SArr) and new.shape != cur.shape and new.size == cur.size:
                pass
            # numpy refuses in-place complex into real
            if isinstance(o, SArr) and o.kind == "f" and self.is_complex(new):
                new = self.mark_map("inplace-real-buffer", new)
            if isinstance(cur, SArr) and not isinstance(o, SArr) and not isinstance(o, dict):
                # x[k] op= v on a vector entry: in place on the stored array
                pass
            elif isinstance(cur, SArr) and isinstance(o, dict):
                self.inplace(cur, op, rhs)
                return
            self.setitem(o, idx, new)
        else:
            raise Undecided("augassign target")

    def inplace(self, cur, op, rhs):
        new = self.binop(op, cur, rhs)
        if cur.kind == "f" and self.is_complex(new):
            new = self.mark_map("inplace-real-buffer", new)
        NP.store(self, cur, Ellipsis, new)

    def st_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        return ("return", v)

    def st_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        if isinstance(c, bool):
            return self.exec_block(st.body if c else st.orelse, fr)
        return self.branch(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr), fr)

    def _arm(self, f, cond):
        self.push()
        self.path_conds.append(cond)
        try:
            sig = f()
        except InterpRaise as r:
            sig = ("raise", r)
        except Undecided:
            self.path_conds.pop()
            self.apply(self.pop())
            raise
        self.path_conds.pop()
        return sig, self.pop()

    def branch(self, c, fa, fb, fr, top=False):
        loc = self.loc
        sa, ta = self._arm(fa, c)
        self.loc = loc
        sb, tb = self._arm(fb, X.not_(c))
        ra = sa is not None and sa[0] == "raise"
        rb = sb is not None and sb[0] == "raise"
        if ra and rb:
            raise sa[1]
        if ra:
            self.assume(X.not_(c), sa[1])
            self.apply(tb)
            return sb
        if rb:
            self.assume(c, sb[1])
            self.apply(ta)
            return sa
        if sa is None and sb is None:
            self.merge_states(c, ta, tb)
            return None
        if top:
            sa, sb = sa or ("return", None), sb or ("return", None)
        if sa is not None and sb is not None and sa[0] == sb[0]:
            self.merge_states(c, ta, tb)
            return ("return", self.merge(c, sa[1], sb[1])) if sa[0] == "return" else sa
        raise Undecided("conditional exit from a nested block")

    def assume(self, c, raised=None):
        cc = c
        for p in self.path_conds:
            cc = X.or_(cc, X.not_(p))
        if isinstance(cc, E):
            self.assumptions.append(cc)
            self.guards.append((cc, raised, self.loc))

    def st_For(self, st, fr):
        return self.run(("for", st, list(self.iterate(self.ev(st.iter, fr))), 0, None), fr, False)

    def st_While(self, st, fr):
        return self.run(("while", st, 0, None), fr, False)

    def st_Break(self, st, fr):
        return ("break",)

    def st_Continue(self, st, fr):
        return ("continue",)

    def st_Raise(self, st, fr):
        if st.exc is None and self.handling:
            raise InterpRaise(self.handling[-1], self.loc)
        if st.exc is None:
            raise InterpRaise(ExcObj(BUILTIN_EXC["Exception"], ("re-raise",)), self.loc)
        loc = self.loc
        try:
            e = self.ev(st.exc, fr)
        except Undecided:
            e = ExcObj(BUILTIN_EXC["Exception"], ())
        if isinstance(e, (ClsObj,)):
            e = self.instantiate(e, [], {})
        if isinstance(e, Inst):
            x = ExcObj(e.cls, e.attrs.get("args", ()))
            x.inst = e
            e = x
        if not isinstance(e, ExcObj):
            e = ExcObj(e, ())
        e.user = True
        raise InterpRaise(e, loc)

    def st_Try(self, st, fr):
        nj = len(self.journal)
        try:
            self.in_try += 1
            try:
                sig = self.exec_block(st.body, fr)
            finally:
                self.in_try -= 1
            if sig is None:
                sig = self.exec_block(st.orelse, fr)
        except InterpRaise as r:
            if len(self.journal) != nj:
                raise
            for h in st.handlers:
                if h.type is None or self.exc_match(r.exc, self.ev(h.type, fr)):
                    if h.name:
                        self.setvar(h.name, r.exc, fr)
                    self.handling.append(r.exc)
                    try:
                        sig = self.exec_block(h.body, fr)
                    finally:
                        self.handling.pop()
                    break
            else:
                if st.finalbody:
                    self.exec_block(st.finalbody, fr)
                raise
        if st.finalbody:
            s2 = self.exec_block(st.finalbody, fr)
            if s2 is not None:
                return s2
        return sig

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        n = exc.name()
        tn = getattr(t, "name", None)
        while n is not None:
            if n == tn:
                return True
            if n not in EXC_PARENT and n != "Exception":
                n = "Exception"
            else:
                n = EXC_PARENT.get(n, "BaseException" if n == "Exception" else None)
        if isinstance(exc.cls, ClsObj):
            return any(getattr(m, "name", None) == tn for m in exc.cls.mro)
        return False

    def st_Match(self, st, fr):
        return self.exec_block(desugar_match(st), fr)

    def st_With(self, st, fr, k=0):
        if k == len(st.items):
            return self.exec_block(st.body, fr)
        it = st.items[k]
        v = self.ev(it.context_expr, fr)

        def body(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, fr)
            return self.st_With(st, fr, k + 1)
        if isinstance(v, CtxV):
            sig = []

            def hook(x):
                if sig:
                    raise Undecided("context manager yields twice")
                loc, fs = self.loc, self.frames
                self.frames = v.outer
                try:
                    sig.append(body(x))
                finally:
                    self.loc, self.frames = loc, fs
            v.outer = self.frames
            self.frames = list(self.frames)
            try:
                self.call_func(v.func, v.args, v.kw, hook)
            finally:
                self.frames = v.outer
            return sig[0] if sig else None
        if isinstance(v, Inst):
            me, mx = self.find_method(v.cls, "__enter__"), self.find_method(v.cls, "__exit__")
            if me is not None and mx is not None:
                x = self.call(Bound(me, v), [], {})
                nj = len(self.journal)
                try:
                    sig = body(x)
                except InterpRaise as r:
                    if len(self.journal) != nj:
                        raise
                    if self.truth(self.call(Bound(mx, v), [r.exc.cls, r.exc, None], {})) is True:
                        return None
                    raise
                self.call(Bound(mx, v), [None, None, None], {})
                return sig
        return body(v)

    def st_Assert(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        if c is False:
            raise InterpRaise(ExcObj(BUILTIN_EXC["AssertionError"], ()), self.loc)
        if isinstance(c, E):
            self.assume(c)

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.touch(fr.vars)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev_index(t.slice, fr)
                if isinstance(o, (dict, list)):
                    self.touch(o)
                    self.effect(o, "deletion")
                    del o[i]
                else:
                    raise Undecided("del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Inst):
                    self.touch(o.attrs)
                    o.attrs.pop(t.attr, None)

    def st_Global(self, st, fr):
        fr.globals_decl |= set(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocal_decl |= set(st.names)

    def st_Import(self, st, fr):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == self.package:
                m = self.load(a.name)
                if m is None:
                    raise InterpRaise(ExcObj(BUILTIN_EXC["ImportError"], (a.name,)), self.loc)
                v = m if a.asname else self.load(top)
            else:
                v = ModRef(a.name if a.asname else top)
                if a.asname and a.name in self.stub_mods:
                    v = self.load(self.stub_mods[a.name])
            self.setvar(a.asname or top, v, fr)

    def st_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.module.name
            if not fr.module.path.endswith("__init__.py"):
                base = base.rsplit(".", 1)[0]
            for _ in range(st.level - 1):
                base = base.rsplit(".", 1)[0]
            mod = base + ("." + mod if mod else "")
        if mod.split(".")[0] == self.package or mod in self.stub_mods:
            m = self.load(self.stub_mods.get(mod, mod))
            if m is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["ImportError"], (mod,)), self.loc)
            for a in st.names:
                if a.name == "*":
                    allv = m.ns.get("__all__")
                    for k, v in m.ns.items():
                        if (allv is None and not k.startswith("_")) or (allv is not None and k in allv):
                            self.setvar(k, v, fr)
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    sub = self.load(mod + "." + a.name)
                    if sub is None:
                        if not m.loaded:
                            v = Poison("circular import")
                        else:
                            raise InterpRaise(ExcObj(BUILTIN_EXC["ImportError"], (a.name,)), self.loc)
                    else:
                        v = sub
                self.setvar(a.asname or a.name, v, fr)
        else:
            for a in st.names:
                if f"{mod}.{a.name}" in self.stub_mods:
                    self.setvar(a.asname or a.name, self.load(self.stub_mods[f"{mod}.{a.name}"]), fr)
                    continue
                if a.name == "*":
                    if mod.startswith("openmdao"):
                        for k, v in self.natives.items():
                            if k.startswith("openmdao.api."):
                                self.setvar(k.rsplit(".", 1)[1], v, fr)
                    continue
                self.setvar(a.asname or a.name, self.ext(mod, a.name), fr)

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr)
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d)
            if dn == "staticmethod":
                f.kind = "static"
            elif dn == "classmethod":
                f.kind = "classm"
            elif dn == "property":
                f.kind = "prop"
            elif dn.endswith(".setter") and isinstance(fr.vars.get(st.name), FuncObj):
                fr.vars[st.name].setter = f
                return
            elif dn in ("contextmanager", "contextlib.contextmanager"):
                f.kind = "ctx"
            elif dn in ("cached_property", "functools.cached_property"):
                f.kind = "prop"
            else:
                dv = self.ev(d, fr)
                try:
                    r = self.call(dv, [f], {})
                    if not isinstance(r, Opaque):
                        f = r
                except Undecided:
                    pass
        self.setvar(st.name, f, fr)

    def mkfunc(self, st, fr):
        f = FuncObj(st, fr.module, fr if fr.func is not None or getattr(fr, "is_class", False) else None)
        f.defaults = [self.ev(d, fr) for d in st.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        for a, d in zip((st.args.posonlyargs + st.args.args)[-len(f.defaults):] if f.defaults else [], f.defaults):
            if isinstance(d, (list, dict, set)):
                self.protect_obj(d, f"default argument '{a.arg}' of {f.name}")
        return f

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ev(b, fr)
            if isinstance(v, (ExtRef, Opaque, Poison)):
                v = self.opaque_class(getattr(v, "name", ast.unparse(b)))
            bases.append(v)
        sub = Frame(None, fr.module)
        sub.is_class = True
        sub.closure = fr if fr.func is not None else None
        self.frames.append(sub)
        try:
            for s in st.body:
                self.exec_stmt(s, sub)
        finally:
            self.frames.pop()
        if any(isinstance(b, Opaque) or getattr(b, "name", None) in ("typing.NamedTuple", "NamedTuple") for b in bases):
            names = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign)]
            t = collections.namedtuple(st.name, names, defaults=[sub.vars[n] for n in names if n in sub.vars])
            if any(isinstance(s, ast.FunctionDef) for s in st.body):
                raise Undecided("methods of a named tuple")
            self.setvar(st.name, t, fr)
            return
        if any(isinstance(b, type) and hasattr(b, "_fields") for b in bases):
            raise Undecided("subclass of a named tuple")
        c = ClsObj(st.name, bases or [], sub.vars, fr.module.name, st)
        for v in sub.vars.values():
            if isinstance(v, FuncObj) and v.cls is None:
                v.cls = c
                if v.closure is sub:
                    v.closure = sub.closure
        if any(isinstance(b, NativeCls) and b.name.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in c.mro):
            members = {}
            n = 0
            for k, v in list(sub.vars.items()):
                if isinstance(v, (FuncObj, NativeFn)) or k.startswith("_"):
                    continue
                if isinstance(v, Opaque):
                    n += 1
                    v = n
                else:
                    n = v if isinstance(v, int) else n
                m = Inst(c)
                m.attrs.update(name=k, value=v)
                members[k] = m
            sub.vars.update(members)
            c.members = members
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if dn in ("dataclass", "dataclasses.dataclass"):
                self.dataclass(c, st, sub, fr)
            elif dn in ("final", "typing.final", "runtime_checkable", "unique", "enum.unique"):
                pass
            else:
                r = self.call(self.ev(d, fr), [c], {})
                if r is not c:
                    raise Undecided(f"class decorator {dn}")
        self.setvar(st.name, c, fr)

    def dataclass(self, c, st, sub, fr):
        fields = {}
        for b in reversed(c.mro[1:]):
            fields.update(getattr(b, "dc_fields", {}))
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if "ClassVar" in ast.unparse(s.annotation):
                    continue
                fields[s.target.id] = sub.vars.get(s.target.id, UNDEF) if s.value is not None else UNDEF
        c.dc_fields = fields
        own = c.ns

        def init(it, inst, *a, **kw):
            names = list(fields)
            vals = dict(zip(names, a))
            if len(a) > len(names) or any(k in vals or k not in fields for k in kw):
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{c.name}() arguments",)), it.loc)
            vals.update(kw)
            for n in names:
                if n not in vals:
                    d = fields[n]
                    if d is UNDEF:
                        raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{c.name}() missing '{n}'",)), it.loc)
                    if isinstance(d, Opaque) and d.args is not None and d.name.endswith("field()"):
                        k = d.args[1]
                        if "default" in k:
                            d = k["default"]
                        elif "default_factory" in k:
                            d = it.call(k["default_factory"], [], {})
                        else:
                            raise Undecided("dataclass field")
                    vals[n] = d
                it.setattr(inst, n, vals[n])
            m = it.find_method(c, "__post_init__")
            if m is not None:
                it.call(Bound(m, inst), [], {})

        def eq(it, inst, o):
            if not isinstance(o, Inst) or o.cls is not inst.cls:
                return False
            r = True
            for n in fields:
                r = X.and_(r, it.truth(it.compare("Eq", inst.attrs[n], o.attrs[n])))
            return r
        own.setdefault("__init__", NativeFn("__init__", init))
        own.setdefault("__eq__", NativeFn("__eq__", eq))

    def opaque_class(self, name):
        k = "opaque:" + name
        if k not in self.natives:
            self.natives[k] = NativeCls(name)
            self.natives[k].opaque = True
        return self.natives[k]

    # ------------------------------------------------------------ variables
    def setvar(self, name, v, fr):
        if name in fr.globals_decl:
            self.touch(fr.module.ns)
            if self.phase != "load":
                self.event("global-write", f"module global '{name}' of {fr.module.name} assigned", name)
            fr.module.ns[name] = v
            return
        if name in fr.nonlocal_decl:
            c = fr.closure
            while c is not None:
                if name in c.vars:
                    self.touch(c.vars)
                    c.vars[name] = v
                    return
                c = c.closure
        self.touch(fr.vars)
        fr.vars[name] = v

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    if v.why == "possibly unbound":
                        self.event("maybe-unbound", f"local '{name}' is unbound on some path", name)
                    raise Undecided(f"'{name}': {v.why}")
                return v
            f = f.closure
        ns = fr.module.ns
        if name in ns:
            v = ns[name]
            if isinstance(v, Poison):
                raise Undecided(f"'{name}': {v.why}")
            return v
        if name in BUILTINS:
            return BUILTINS[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        raise InterpRaise(ExcObj(BUILTIN_EXC["NameError"], (name,)), self.loc)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                parts = vs[:i] + [list(vs[i:len(vs) - k])] + vs[len(vs) - k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("unpack",)), self.loc)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Undecided("assign target")

    # ------------------------------------------------------------ effects
    def event(self, kind, msg, data=None):
        fn = None
        for f in reversed(self.frames):
            if f.func is not None:
                fn = f.func
                break
        self.events.append(Event(kind, (self.loc[0], self.loc[1]), fn, msg, data))

    def protect_obj(self, o, tag):
        """mark a list/dict/array as shared data that evaluation must not modify"""
        if isinstance(o, SArr):
            o.root.tag = tag
        elif isinstance(o, (list, dict, set)):
            self.protect[id(o)] = (o, tag)
            for x in (o.values() if isinstance(o, dict) else o):
                if isinstance(x, (list, dict, set, SArr)):
                    self.protect_obj(x, tag)
        elif isinstance(o, tuple):
            for x in o:
                self.protect_obj(x, tag)

    def effect(self, o, what):
        if isinstance(o, SArr):
            if o.root.tag is not None:
                self.event("mutate", f"{what} of {o.root.tag}", o.root.tag)
        else:
            p = self.protect.get(id(o))
            if p is not None and p[0] is o:
                self.event("mutate", f"{what} of {p[1]}", p[1])

    # complex-step marks
    def is_complex(self, v):
        if not self.cs_syms:
            return False
        if isinstance(v, E):
            return bool(v.sup & self.cs_syms) and bool(X.nsup(v) & self.cs_syms)
        if isinstance(v, SArr):
            return v.kind in ("c", "f", "O") and any(isinstance(x, E) and self.is_complex(x) for x in v.a.reshape(-1))
        return False

    def mark(self, what, x):
        """in complex-step mode, wrap a value that lost its imaginary part"""
        if self.cs_syms and isinstance(x, E) and self.is_complex(x):
            f = os.path.relpath(self.loc[0], self.root)
            fn = None
            for fr in reversed(self.frames):
                if fr.func is not None:
                    fn = fr.func
                    break
            name = f"nonanalytic:{what}@{f}:{self.loc[1]}"
            return X.uf(name, x)
        return x

    def mark_map(self, what, v):
        if not self.cs_syms:
            return v
        if isinstance(v, SArr) and v.a.dtype == object:
            return SArr(np.frompyfunc(lambda x: self.mark(what, x), 1, 1)(v.a) if v.a.size else v.a, v.kind)
        return self.mark(what, v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = EV.get(type(e))
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(self, e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if self.const_hook is not None and type(v) in (int, float):
            return self.const_hook(v, fr)
        if isinstance(v, complex):
            return X.lower(X.lift(v))
        return v

    def ev_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ev_List(self, e, fr):
        return list(self.ev_Tuple(e, fr))

    def ev_Set(self, e, fr):
        return set(self.ev_Tuple(e, fr))

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return d

    def key(self, k):
        if isinstance(k, (str, int, float, bool, tuple, type(None))):
            return k
        if isinstance(k, np.generic):
            return k.item()
        if isinstance(k, E):
            return k
        if isinstance(k, (list, dict, SArr)):
            raise Undecided("unhashable key")
        return k

    # ---- dictionaries with symbolic keys: entries in order of insertion, a lookup finds the first equal key
    def dict_sym(self, o, k):
        """None when key k and the keys of o compare as usual; else [(condition, key)] of the entries k may be, in order"""
        sk = has_sym(k)
        if not o or not (sk or any(has_sym(x) for x in o)):
            return None
        out = []
        for x in o:
            if not sk and not has_sym(x):
                if x == k:
                    out.append((True, x))
                    break
                continue
            t = True if x == k else self.truth(self.compare("Eq", k, x)) if isinstance(k, type(x)) or isinstance(x, type(k)) or isinstance(k, E) or isinstance(x, E) else False
            if t is False:
                continue
            out.append((t, x))
            if t is True:
                break
        return out

    def dict_in(self, o, k):
        cs = self.dict_sym(o, k)
        if cs is None:
            return k in o
        r = False
        for t, _ in cs:
            if t is True:
                return True
            r = t if r is False else X.or_(r, t)
        return r

    def dict_get(self, o, k):
        """entry of a key that is in the dictionary (the caller decides what happens when it is not)"""
        cs = self.dict_sym(o, k)
        if cs is None:
            return o[k]
        v = o[cs[-1][1]]
        for t, x in reversed(cs[:-1]):
            v = self.merge(t, o[x], v)
        return v

    def dict_put(self, o, k, v):
        for t, x in self.dict_sym(o, k) or ():
            if t is not True:
                o[x] = self.merge(t, v, o[x])
        o[k] = v

    def ev_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                try:
                    x = self.ev(v.value, fr)
                except (Undecided, InterpRaise):
                    out.append("<?>")
                    continue
                if isinstance(x, E) or isinstance(x, (SArr, Opaque, Masked)):
                    out.append(f"<{type(x).__name__}>")
                    continue
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev_JoinedStr(v.format_spec, fr)
                try:
                    if v.conversion == 114:
                        x = repr(x)
                    out.append(format(x, spec))
                except Exception:
                    out.append("<?>")
        return "".join(out)

    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else X.not_(t)
        if isinstance(v, (Opaque,)):
            return v
        if isinstance(v, Inst):
            m = self.find_method(v.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("bad operand type",)), self.loc)
            return self.call(Bound(m, v), [], {})
        if op == "USub":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return NP.unary(self, "neg", v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            return NP.unary(self, "not", v)
        raise Undecided(op)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isinstance(t, bool):
                if acc is None:
                    if t != isand:
                        return v
                    last = v
                    continue
                if t != isand:
                    return (not isand)
                continue
            acc = t if acc is None else (X.and_(acc, t) if isand else X.or_(acc, t))
        return last if acc is None else acc

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if acc is True:
                acc = v
            else:
                ta, tv = self.truth(acc), self.truth(v)
                if ta is False:
                    return False
                acc = tv if ta is True else X.and_(ta, tv)
            left = right
        return acc

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Undecided("poison compare")
        if op not in ("Is", "IsNot"):
            self.whole(a)
            self.whole(b)
        if op == "Is" or op == "IsNot":
            r = a is b or (a is not None and b is not None and isinstance(a, (bool, str)) and isinstance(b, (bool, str)) and a == b)
            if isinstance(a, ExtRef) and isinstance(b, ExtRef):
                r = a == b
            if isinstance(a, Opaque) and b is None or isinstance(b, Opaque) and a is None:
                raise Undecided("opaque is None")
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, Opaque):
                raise Undecided("in opaque")
            if isinstance(b, str):
                if not isinstance(a, str):
                    raise Undecided("in str")
                r = a in b
            elif hasattr(b, "om_contains"):
                r = b.om_contains(a)
            elif isinstance(b, dict):
                r = self.dict_in(b, self.key(a))
            elif isinstance(b, Inst) and self.find_method(b.cls, "__contains__") is not None:
                r = self.truth(self.call(Bound(self.find_method(b.cls, "__contains__"), b), [a], {}))
            else:
                r = False
                for x in self.iterate(b):
                    t = self.truth(self.compare("Eq", a, x)) if x is not a else True
                    if t is True:
                        r = True
                        break
                    if t is not False:
                        r = t if r is False else X.or_(r, t)
            if isinstance(r, bool):
                return r if op == "In" else not r
            return r if op == "In" else X.not_(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided(f"comparison with opaque value")
        if isinstance(a, Inst) or isinstance(b, Inst):
            for o, x, t in ((a, b, CMP), (b, a, CMP_R)):
                m = self.find_method(o.cls, t[op]) if isinstance(o, Inst) else None
                if m is not None:
                    return self.call(Bound(m, o), [x], {})
                if op == "NotEq" and isinstance(o, Inst) and self.find_method(o.cls, "__eq__") is not None:
                    t = self.truth(self.compare("Eq", a, b))
                    return not t if isinstance(t, bool) else X.not_(t)
            if op in ("Eq", "NotEq"):
                return (a is b) == (op == "Eq")
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("compare",)), self.loc)
        num = (SArr, E, int, float, np.number, Masked)
        if isinstance(a, num) and isinstance(b, num + (list, tuple)) or isinstance(b, num) and isinstance(a, (list, tuple)):
            if isinstance(a, (SArr, Masked)) or isinstance(b, (SArr, Masked)) or isinstance(a, E) or isinstance(b, E):
                return NP.compare(self, op, a, b)
        f = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b) or any(isinstance(x, SArr) for x in list(a) + list(b))):
            if op not in ("Eq", "NotEq"):
                raise Undecided("compare containers")
            r = True
            if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
                r = False
            for x, y in zip(a, b) if r else ():
                if isinstance(x, SArr) or isinstance(y, SArr):
                    raise Undecided("compare containers of arrays")
                t = True if x is y else self.truth(self.compare("Eq", x, y))
                if t is False:
                    r = False
                    break
                if t is not True:
                    r = t if r is True else X.and_(r, t)
            if isinstance(r, bool):
                return r == (op == "Eq")
            return r if op == "Eq" else X.not_(r)
        try:
            return bool(f(a, b))
        except TypeError:
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("compare",)), self.loc)

    def ev_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        box = {}

        def arm(x, k):
            def f():
                box[k] = self.ev(x, fr)
                return None
            return f
        sa, ta = self._arm(arm(e.body, "a"), c)
        sb, tb = self._arm(arm(e.orelse, "b"), X.not_(c))
        if sa is not None or sb is not None:
            raise Undecided("raise in conditional expression")
        self.merge_states(c, ta, tb)
        return self.merge(c, box["a"], box["b"])

    def ev_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def _comp(self, gens, fr, emit):
        sub = Frame(fr.func, fr.module, fr)

        def rec(i):
            if i == len(gens):
                emit(sub)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, sub if i else fr)):
                self.assign(g.target, v, sub)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, sub))
                    if not isinstance(t, bool):
                        raise Undecided("symbolic comprehension filter")
                    if not t:
                        ok = False
                        break
                if ok:
                    rec(i + 1)
        rec(0)

    def ev_ListComp(self, e, fr):
        out = []
        self._comp(e.generators, fr, lambda s: out.append(self.ev(e.elt, s)))
        return out

    def ev_GeneratorExp(self, e, fr):
        return IterV(self.ev_ListComp(e, fr))

    def ev_SetComp(self, e, fr):
        return set(self.ev_ListComp(e, fr))

    def ev_DictComp(self, e, fr):
        out = {}

        def emit(s):
            out[self.key(self.ev(e.key, s))] = self.ev(e.value, s)
        self._comp(e.generators, fr, emit)
        return out

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Starred(self, e, fr):
        raise Undecided("starred")

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None and f.gen is None:
            f = f.closure
        if f is None:
            raise Undecided("yield")
        if callable(f.gen):
            f.gen(v)
        else:
            self.touch(f.gen)
            f.gen.append(v)
        return None

    def ev_YieldFrom(self, e, fr):
        if not isinstance(fr.gen, list):
            raise Undecided("yield from")
        xs = self.iterate(self.ev(e.value, fr))
        self.touch(fr.gen)
        fr.gen.extend(xs)
        return None

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return self.ev_Slice(s, fr)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ev_Slice(self, s, fr):
        def g(x):
            if x is None:
                return None
            v = self.ev(x, fr)
            if isinstance(v, SArr) and v.size == 1:
                v = v.items()[0]
            if isinstance(v, E):
                raise Undecided("symbolic slice")
            if isinstance(v, Opaque):
                raise Undecided("opaque slice")
            return v
        return slice(g(s.lower), g(s.upper), g(s.step))

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.closure
            if f is None:
                raise Undecided("super()")
            a0 = (f.func.node.args.posonlyargs + f.func.node.args.args)[0].arg
            return SuperObj(f.func.cls, f.vars[a0])
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Opaque):
                    raise Undecided("**opaque")
                if hasattr(d, "om_items"):
                    d = dict(d.om_items())
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        loc = self.loc
        if not fr.module.lib:
            self.loc = (fr.module.path, e.lineno)
        try:
            return self.call(fn, args, kw)
        finally:
            self.loc = loc

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        if isinstance(fn, Bound):
            if isinstance(fn.func, FuncObj):
                return self.call_func(fn.func, [fn.inst] + list(args), kw)
            return self.native_call(fn.func.fn, [fn.inst] + list(args), kw)
        if isinstance(fn, FuncObj):
            return self.call_func(fn, args, kw)
        if isinstance(fn, NativeFn):
            return self.native_call(fn.fn, args, kw)
        if isinstance(fn, ClsObj):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, NativeCls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExtRef):
            return self.call_ext(fn, args, kw)
        if isinstance(fn, Opaque):
            self.ext_calls.append((fn.name, self.loc))
            return Opaque(fn.name + "()").called(args, kw)
        if isinstance(fn, ModRef):
            return Opaque(fn.name + "()")
        if isinstance(fn, type) and getattr(fn, "isexc", False):
            return ExcObj(fn, tuple(args))
        if isinstance(fn, type) and hasattr(fn, "_fields"):
            try:
                return fn(*args, **kw)
            except TypeError as ex:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (str(ex),)), self.loc)
        if isinstance(fn, type) and fn in BUILTIN_TYPES:
            return self.native_call(BUILTIN_TYPES[fn], args, kw)
        if isinstance(fn, Inst):
            m = self.find_method(fn.cls, "__call__")
            if m is not None:
                return self.call(Bound(m, fn), args, kw)
        if isinstance(fn, Poison):
            raise Undecided(fn.why)
        raise Undecided(f"call of {fn!r}")

    def native_call(self, f, args, kw):
        try:
            return f(self, *args, **kw)
        except (Undecided, InterpRaise):
            raise
        except TypeError as ex:
            if re.search(r"missing \d+ required (positional|keyword-only) argument", str(ex)) and ex.__traceback__.tb_next is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (str(ex),)), self.loc)
            raise Undecided(f"native call: {ex}")

    def call_func(self, f, args, kw, gen=None):
        if f.kind == "ctx" and gen is None:
            return CtxV(f, args, kw)
        if self.depth > MAX_DEPTH:
            raise Undecided("recursion depth")
        if isinstance(f.node, ast.Lambda):
            body = None
        fr = Frame(f, f.module, f.closure)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{f.name}() takes {len(pos)} positional arguments",)), self.loc)
            vals[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vals[n] = v
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"multiple values for {k}",)), self.loc)
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        elif extra:
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{f.name}() got unexpected keyword {sorted(extra)}",)), self.loc)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in vals:
                vals[n] = d
        for x in a.kwonlyargs:
            if x.arg not in vals and x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{f.name}() missing argument '{n}'",)), self.loc)
        fr.vars.update(vals)
        if gen is not None:
            fr.gen = gen
        elif is_gen(f.node):
            fr.gen = []
        saved = self.loc
        self.depth += 1
        self.frames.append(fr)
        nj = len(self.journal)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                sig = self.exec_block(f.node.body, fr, True)
                if isinstance(fr.gen, list):
                    return IterV(fr.gen)
                return sig[1] if sig is not None and sig[0] == "return" else None
            except Undecided:
                # leave the journal balanced
                while len(self.journal) > nj:
                    self.commit()
                raise
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = saved

    def instantiate(self, cls, args, kw):
        if getattr(cls, "members", None) is not None:
            for m in cls.members.values():
                if self.truth(self.compare("Eq", m.attrs["value"], args[0])) is True:
                    return m
            raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], (f"not a valid {cls.name}",)), self.loc)
        inst = Inst(cls)
        nat = cls.native() if isinstance(cls, ClsObj) else cls
        if isinstance(cls, NativeCls) and getattr(cls, "opaque", False):
            self.ext_calls.append((cls.name, self.loc))
            return Opaque(cls.name + "()").called(args, kw)
        init = self.find_method(cls, "__init__")
        if nat is not None and "__pre__" in nat_methods(nat):
            nat_methods(nat)["__pre__"](self, inst)
        if init is None:
            if (args or kw) and nat is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{cls.name}() takes no arguments",)), self.loc)
            return inst
        self.call(Bound(init, inst), args, kw)
        return inst

    def find_method(self, cls, name):
        for m in cls.mro:
            if isinstance(m, ClsObj):
                if name in m.ns:
                    return m.ns[name]
            elif isinstance(m, NativeCls):
                if name in m.methods:
                    v = m.methods[name]
                    return v if not callable(v) else NativeFn(f"{m.name}.{name}", v)
        return None

    # ------------------------------------------------------------ attributes
    def ext(self, mod, name):
        full = f"{mod}.{name}"
        if full in self.natives:
            return self.natives[full]
        if mod.startswith("openmdao") and ("openmdao.api." + name) in self.natives:
            return self.natives["openmdao.api." + name]
        if mod in ("numpy", "math", "scipy", "scipy.sparse", "scipy.sparse.linalg", "numpy.linalg", "numpy.random", "copy", "warnings",
                   "time", "os", "os.path", "numbers", "collections", "itertools", "functools", "random", "datetime",
                   "operator", "numpy.polynomial", "numpy.polynomial.polynomial", "numpy.ma", "scipy.linalg", "scipy.special", "contextlib"):
            return ExtRef(full)
        return Opaque(full)

    def getattr(self, o, name):
        if isinstance(o, Inst):
            if name in o.attrs and not self.prop(o, name):
                v = o.attrs[name]
                if isinstance(v, Poison):
                    if v.why == "possibly unbound":
                        self.event("maybe-unbound", f"attribute '{name}' is unset on some path", name)
                    raise Undecided(f"attribute {name}: {v.why}")
                return v
            m = self.find_method(o.cls, name)
            if m is None:
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return o.attrs
                if o.om is not None and name == "_static_mode":
                    return bool(o.om.static)
                if o.om is not None and o.om.kind == "group":
                    if name == "_resolver":
                        return OM.Resolver(o)
                    if name == "_var_abs2prom":
                        return OM.abs2prom(self, o, False)
                ga = self.find_method(o.cls, "__getattr__") if isinstance(o.cls, ClsObj) else None
                if ga is not None:
                    return self.call(Bound(ga, o), [name], {})
                raise InterpRaise(ExcObj(BUILTIN_EXC["AttributeError"], (f"{o!r} has no attribute {name}",)), self.loc)
            if isinstance(m, FuncObj):
                if m.kind == "static":
                    return m
                if m.kind == "classm":
                    return Bound(m, o.cls)
                if m.kind == "prop":
                    return self.call_func(m, [o], {})
                return Bound(m, o)
            if isinstance(m, NativeFn):
                return Bound(m, o)
            return m
        if isinstance(o, ClsObj):
            for m in o.mro:
                if isinstance(m, ClsObj) and name in m.ns:
                    v = m.ns[name]
                    if isinstance(v, FuncObj) and v.kind == "classm":
                        return Bound(v, o)
                    return v
                if isinstance(m, NativeCls) and name in m.methods:
                    return NativeFn(f"{m.name}.{name}", m.methods[name])
            if name == "__name__":
                return o.name
            raise InterpRaise(ExcObj(BUILTIN_EXC["AttributeError"], (f"{o!r} has no attribute {name}",)), self.loc)
        if isinstance(o, SuperObj):
            mro = o.inst.cls.mro if isinstance(o.inst, Inst) else o.inst.mro
            i = mro.index(o.cls)
            for m in mro[i + 1:]:
                if isinstance(m, ClsObj) and name in m.ns:
                    return Bound(m.ns[name], o.inst)
                if isinstance(m, NativeCls) and name in m.methods:
                    return Bound(NativeFn(f"{m.name}.{name}", m.methods[name]), o.inst)
            if name in ("__init__", "initialize", "setup", "configure", "_configure", "_setup_procs", "__setattr__"):
                return NativeFn(name, lambda it, *a, **k: None)
            raise Undecided(f"super().{name}")
        if isinstance(o, Module):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Poison):
                    raise Undecided(v.why)
                return v
            sub = self.load(o.name + "." + name)
            if sub is not None:
                return sub
            raise InterpRaise(ExcObj(BUILTIN_EXC["AttributeError"], (f"module {o.name} has no attribute {name}",)), self.loc)
        if isinstance(o, ModRef):
            if f"{o.name}.{name}" in self.stub_mods:
                return self.load(self.stub_mods[f"{o.name}.{name}"])
            if o.name in ("numpy", "math") and name in ("pi", "e", "inf", "nan", "newaxis", "Inf", "NaN", "tau"):
                return {"pi": np.pi, "e": np.e, "inf": float("inf"), "nan": float("nan"), "newaxis": None, "Inf": float("inf"), "NaN": float("nan"), "tau": 2 * np.pi}[name]
            if f"{o.name}.{name}" in ("numpy.linalg", "numpy.random", "scipy.sparse", "scipy.linalg", "scipy.interpolate", "scipy.optimize", "os.path", "openmdao.api", "openmdao.utils", "openmdao.utils.assert_utils", "numpy.polynomial", "numpy.polynomial.polynomial", "scipy.special"):
                return ModRef(f"{o.name}.{name}")
            return self.ext(o.name, name)
        if isinstance(o, ExtRef):
            n = f"{o.name}.{name}"
            if n in self.natives:
                return self.natives[n]
            if name == "__name__":
                return o.name.rsplit(".", 1)[1]
            return ExtRef(n)
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, ExcObj) and getattr(o, "inst", None) is not None and name != "args":
            return self.getattr(o.inst, name)
        if isinstance(o, ExcObj):
            if name == "args":
                return o.args
            return Opaque(f"exc.{name}")
        if isinstance(o, FuncObj):
            if name == "__name__":
                return o.name
            raise Undecided(f"function attribute {name}")
        if isinstance(o, Bound):
            raise Undecided(f"method attribute {name}")
        if hasattr(o, "om_attr"):
            return o.om_attr(self, name)
        return NP.attribute(self, o, name)

    def prop(self, o, name):
        if not isinstance(o.cls, ClsObj):
            return None
        m = self.find_method(o.cls, name)
        return m if isinstance(m, FuncObj) and m.kind == "prop" and getattr(m, "setter", None) else None

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            m = self.prop(o, name)
            if m is not None:
                self.call_func(m.setter, [o, v], {})
                return
            self.touch(o.attrs)
            if self.track:
                self.event("setattr", f"self.{name}", (o, name))
            o.attrs[name] = v
            if name == "_var_promotes" and o.om is not None and isinstance(v, dict):
                o.om.promotes = v
            return
        if isinstance(o, ClsObj):
            self.touch(o.ns)
            self.event("class-write", f"class attribute {o.name}.{name} assigned", (o, name))
            o.ns[name] = v
            return
        if isinstance(o, Module):
            self.touch(o.ns)
            self.event("global-write", f"module attribute {o.name}.{name} assigned", name)
            o.ns[name] = v
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, SArr) and name == "shape":
            o.a.shape = v
            return
        if hasattr(o, "om_setattr"):
            return o.om_setattr(self, name, v)
        if isinstance(o, (ModRef, ExtRef)):
            self.event("global-write", f"external module attribute {o.name}.{name} assigned", name)
            return
        if isinstance(o, NativeCls):
            self.event("class-write", f"class attribute {o.name}.{name} assigned", (o, name))
            return
        raise Undecided(f"setattr on {type(o).__name__}")

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if hasattr(o, "om_getitem"):
            return o.om_getitem(self, i)
        if isinstance(o, (SArr, Masked, MaskIdx, MaskShape, Sparse)):
            return NP.getitem(self, o, i)
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}[]")
        if isinstance(o, E) or isinstance(o, (int, float)) and not isinstance(o, bool):
            if isinstance(o, E) and (i in (0, -1, Ellipsis) or i == slice(None) or i == ()):
                return o
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("scalar not subscriptable",)), self.loc)
        if isinstance(o, ExtRef):
            g = self.prelude(o.name.replace(".", "__"))
            if isinstance(g, Inst):
                return self.getitem(g, i)
            raise Undecided(f"subscript of {o.name}")
        if isinstance(o, ClsObj) and getattr(o, "members", None) is not None:
            if i not in o.members:
                raise InterpRaise(ExcObj(BUILTIN_EXC["KeyError"], (i,)), self.loc)
            return o.members[i]
        if isinstance(o, dict):
            k = self.key(i)
            if k not in o and isinstance(o, DefDict):
                self.touch(o)
                o[k] = self.call(o.factory, [], {}) if o.factory is not None else 0
            here = self.dict_in(o, k)
            if here is False:
                raise InterpRaise(ExcObj(BUILTIN_EXC["KeyError"], (k,)), self.loc)
            if here is not True and self.in_try:
                raise Undecided("lookup that may fail inside try")
            v = self.dict_get(o, k)
            if isinstance(v, Poison):
                raise Undecided(v.why)
            return v
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, SArr) and i.size == 1:
                i = i.items()[0]
            if isinstance(i, np.integer):
                i = int(i)
            if isinstance(i, float) and i.is_integer() is False:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("index",)), self.loc)
            if isinstance(i, E):
                return self.select(list(o), i)
            try:
                v = o[i]
            except IndexError:
                raise InterpRaise(ExcObj(BUILTIN_EXC["IndexError"], (f"index {i}",)), self.loc)
            except TypeError:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"index {i!r}",)), self.loc)
            if isinstance(v, Poison):
                raise Undecided(v.why)
            return v
        if isinstance(o, Inst):
            m = self.find_method(o.cls, "__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [i], {})
            if isinstance(o.cls, ClsObj) and o.cls.native() is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"'{o.cls.name}' object is not subscriptable",)), self.loc)
        if isinstance(o, Poison):
            raise Undecided(o.why)
        if o is None:
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("None is not subscriptable",)), self.loc)
        raise Undecided(f"subscript of {type(o).__name__}")

    def select(self, xs, i):
        """xs[i] for an index known only symbolically"""
        if i.isbool:
            i = X.ite(i, 1, 0)
        n = len(xs)
        if n == 0 or n > 400:
            raise Undecided("symbolic index")
        r = xs[-1]
        for k in range(n - 2, -1, -1):
            r = self.merge(X.or_(X.eq(i, k), X.eq(i, k - n)), xs[k], r)
        if isinstance(r, Poison):
            raise Undecided("symbolic index")
        self.assume(X.and_(X.not_(X.lt(i, -n)), X.lt(i, n)))
        return r

    def setitem(self, o, i, v):
        if hasattr(o, "om_setitem"):
            return o.om_setitem(self, i, v)
        if isinstance(o, SArr):
            NP.store(self, o, i, v)
            return
        if isinstance(o, Sparse):
            return NP.sparse_store(self, o, i, v)
        if isinstance(o, dict):
            self.touch(o)
            self.effect(o, "item assignment")
            self.dict_put(o, self.key(i), v)
            return
        if isinstance(o, list):
            self.touch(o)
            self.effect(o, "item assignment")
            if isinstance(i, (E, SArr)):
                raise Undecided("symbolic list index")
            o[i] = list(self.iterate(v)) if isinstance(i, slice) else v
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, Inst):
            m = self.find_method(o.cls, "__setitem__")
            if m is not None:
                self.call(Bound(m, o), [i, v], {})
                return
        raise Undecided(f"item store on {type(o).__name__}")

    @staticmethod
    def whole(v):
        """a container whose extent differs between paths has no definite length"""
        if isinstance(v, (list, dict)):
            for x in v.values() if isinstance(v, dict) else v:
                if isinstance(x, Gap):
                    raise Undecided(x.why)

    def iterate(self, v):
        self.whole(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (range, str)):
            return list(v)
        if isinstance(v, set):
            self.event("set-iteration", "iteration over a set")
            return sorted(v, key=repr)
        if isinstance(v, SArr):
            if v.a.ndim == 0:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("iteration over 0-d array",)), self.loc)
            return [NP.getitem(self, v, k) for k in range(v.shape[0])]
        if hasattr(v, "om_iter"):
            return v.om_iter(self)
        if isinstance(v, Opaque):
            raise Undecided(f"iteration over {v.name}")
        if isinstance(v, (E, int, float, type(None))):
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"{type(v).__name__} not iterable",)), self.loc)
        if isinstance(v, ClsObj) and getattr(v, "members", None) is not None:
            return list(v.members.values())
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__iter__")
            if m is not None:
                r = self.call(Bound(m, v), [], {})
                if isinstance(r, Inst):
                    mn = self.find_method(r.cls, "__next__")
                    if mn is None:
                        raise Undecided("iterator protocol")
                    xs = []
                    while len(xs) < 400:
                        nj = len(self.journal)
                        try:
                            xs.append(self.call(Bound(mn, r), [], {}))
                        except InterpRaise as ex:
                            if len(self.journal) == nj and ex.exc.name() == "StopIteration":
                                return xs
                            raise
                    raise Undecided("long iterator")
                return self.iterate(r)
            ml, mg = self.find_method(v.cls, "__len__"), self.find_method(v.cls, "__getitem__")
            if ml is not None and mg is not None:
                return [self.call(Bound(mg, v), [k], {}) for k in range(self.call(Bound(ml, v), [], {}))]
        raise Undecided(f"iteration over {type(v).__name__}")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        self.whole(v)
        if isinstance(v, E):
            t = X.tobool(v)
            return t
        if isinstance(v, (int, float, str, list, tuple, dict, set, range)) or v is None:
            return bool(v)
        if isinstance(v, np.generic):
            return bool(v)
        if isinstance(v, SArr):
            if v.size == 1:
                return self.truth(norm_elem(v.a.reshape(-1)[0]))
            raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("truth value of an array is ambiguous",)), self.loc)
        if isinstance(v, Inst):
            for n in ("__bool__", "__len__"):
                m = self.find_method(v.cls, n)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
        if isinstance(v, (Inst, ClsObj, FuncObj, Bound, Module, ModRef, NativeCls, ExtRef)):
            return True
        if isinstance(v, Opaque):
            raise Undecided(f"truth of {v.name}")
        if isinstance(v, Poison):
            raise Undecided(v.why)
        if hasattr(v, "om_truth"):
            return v.om_truth()
        return True

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Undecided((a if isinstance(a, Poison) else b).why)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            return Opaque(o.name + "~")
        if isinstance(a, str) and op in ("Add", "Mult", "Mod"):
            if op == "Mod":
                try:
                    return a % (b if not has_sym(b) else "<?>")
                except TypeError:
                    return a
            if op == "Add" and isinstance(b, str):
                return a + b
            if op == "Mult" and isinstance(b, int):
                return a * b
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("str op",)), self.loc)
        if isinstance(a, (list, tuple)) and op in ("Add", "Mult") and not isinstance(b, (SArr, Masked)):
            if op == "Add" and type(a) is type(b):
                return a + b
            if op == "Mult" and isinstance(b, int):
                return a * b
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("list op",)), self.loc)
        if isinstance(b, (list, tuple)) and op == "Mult" and isinstance(a, int):
            return a * b
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return {**a, **b}
        if isinstance(a, set) and isinstance(b, set):
            r = {"BitOr": a | b, "BitAnd": a & b, "Sub": a - b, "BitXor": a ^ b}.get(op)
            if r is None:
                raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("set op",)), self.loc)
            return r
        if isinstance(a, (Inst, ClsObj)) or isinstance(b, (Inst, ClsObj)):
            d = DUNDER.get(op)
            for o, x, pre in ((a, b, "__"), (b, a, "__r")):
                m = self.find_method(o.cls, pre + d + "__") if isinstance(o, Inst) and d else None
                if m is not None:
                    return self.call(Bound(m, o), [x], {})
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"unsupported operand for {op}",)), self.loc)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"unsupported operand for {op}",)), self.loc)
        return NP.binop(self, op, a, b)


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}
CMP = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
CMP_R = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}


def nat_methods(nat):
    d = {}
    for m in reversed(nat.mro):
        d.update(m.methods)
    return d


EV = {getattr(ast, n[3:]): getattr(Interp, n) for n in dir(Interp) if n.startswith("ev_") and hasattr(ast, n[3:])}


# ---------------------------------------------------------------- builtins
def _b_len(it, x):
    it.whole(x)
    if isinstance(x, SArr):
        if x.a.ndim == 0:
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("len() of unsized",)), it.loc)
        return x.shape[0]
    if isinstance(x, (list, tuple, dict, str, set, range)):
        return len(x)
    if hasattr(x, "om_len"):
        return x.om_len()
    if isinstance(x, Inst) and it.find_method(x.cls, "__len__") is not None:
        return it.call(Bound(it.find_method(x.cls, "__len__"), x), [], {})
    if isinstance(x, (E, int, float)):
        raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("len() of scalar",)), it.loc)
    if x is None:
        raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("object of type 'NoneType' has no len()",)), it.loc)
    raise Undecided(f"len of {type(x).__name__}")


def _int(it, v):
    if isinstance(v, SArr) and v.size == 1:
        v = norm_elem(v.a.reshape(-1)[0])
    if isinstance(v, E):
        raise Undecided("symbolic int")
    return int(v)


def _b_range(it, *a):
    r = []
    for x in a:
        if isinstance(x, SArr) and x.size == 1:
            x = norm_elem(x.a.reshape(-1)[0])
        if isinstance(x, float):
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("float in range",)), it.loc)
        if x is None or isinstance(x, (str, list, tuple, dict)):
            raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], (f"'{type(x).__name__}' object cannot be interpreted as an integer",)), it.loc)
        if not isinstance(x, (int, np.integer)):
            raise Undecided("symbolic range")
        r.append(int(x))
    return range(*r)


def _b_float(it, x=0.0):
    if isinstance(x, SArr) and x.size == 1:
        x = norm_elem(x.a.reshape(-1)[0])
    if isinstance(x, E):
        return it.mark("float()", x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("float",)), it.loc)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if isinstance(x, Opaque):
        return x
    raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("float",)), it.loc)


def _b_int(it, x=0, *a):
    if isinstance(x, SArr) and x.size == 1:
        x = norm_elem(x.a.reshape(-1)[0])
    if isinstance(x, E):
        return X.un("trunc", it.mark("int()", x))
    if isinstance(x, Opaque):
        return x
    try:
        return int(x, *a)
    except (ValueError, TypeError):
        raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("int",)), it.loc)


def _b_isinstance(it, x, t):
    if isinstance(t, tuple):
        return any(_b_isinstance(it, x, y) for y in t)
    if isinstance(x, Opaque):
        raise Undecided("isinstance of opaque")
    if isinstance(t, (ClsObj, NativeCls)):
        return isinstance(x, Inst) and t in x.cls.mro
    if isinstance(t, ExtRef):
        n = t.name
        if n == "numpy.ndarray":
            return isinstance(x, (SArr, Masked))
        if n in ("numbers.Number", "numpy.number", "numbers.Real"):
            return is_scalar(x) or n == "numbers.Number" and isinstance(x, (int, float))
        if n in ("numpy.integer", "numbers.Integral", "numpy.int64", "numpy.int32"):
            return isinstance(x, int) and n == "numbers.Integral"
        if n in ("numpy.floating", "numpy.float64"):
            return isinstance(x, E)
        raise Undecided(f"isinstance {n}")
    if isinstance(t, Opaque):
        n = t.name.rsplit(".", 1)[-1]
        if n in ("Iterable", "Sequence", "Collection", "Sized", "Container") and t.name.startswith(("collections", "typing")):
            if isinstance(x, (list, tuple, str, dict, set)) or isinstance(x, SArr):
                return n != "Sequence" or isinstance(x, (list, tuple, str))
            return False
        if n in ("Mapping", "MutableMapping"):
            return isinstance(x, dict)
        if n in ("Callable",):
            return isinstance(x, (FuncObj, Bound, NativeFn, ClsObj))
        return False if not isinstance(x, Opaque) else None
    if t is float:
        return isinstance(x, (float, E)) and not X.isbool(x)
    if t is bool:
        return X.isbool(x)
    if t is complex:
        return False
    if t in (int, str, list, tuple, dict, set, range, slice) or isinstance(t, type) and hasattr(t, "_fields"):
        return isinstance(x, t)
    if t is object:
        return True
    if isinstance(t, type) and getattr(t, "isexc", False):
        return isinstance(x, ExcObj) and it.exc_match(x, t)
    raise Undecided(f"isinstance {t!r}")


def _b_minmax(which):
    def f(it, *a, **kw):
        xs = it.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs and "default" in kw:
            return kw["default"]
        if xs and kw.get("key") is not None:
            ks = [it.call(kw["key"], [x], {}) for x in xs]
            if has_sym(ks):
                raise Undecided("min/max key")
            return xs[(min if which == "min" else max)(range(len(ks)), key=lambda j: ks[j])]
        if not xs:
            raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("empty",)), it.loc)
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, SArr) and x.size == 1:
                x = norm_elem(x.a.reshape(-1)[0])
            if isinstance(r, SArr) and r.size == 1:
                r = norm_elem(r.a.reshape(-1)[0])
            if isinstance(x, E) or isinstance(r, E):
                r = X.lower(X.min_(r, x) if which == "min" else X.max_(r, x))
            elif isinstance(x, (SArr, Opaque)) or isinstance(r, (SArr, Opaque)):
                raise Undecided("min/max of arrays")
            else:
                r = min(r, x) if which == "min" else max(r, x)
        return r
    return f


def _b_sum(it, x, start=0):
    r = start
    for v in it.iterate(x):
        r = it.binop("Add", r, v)
    return r


def _b_abs(it, x):
    return NP.unary(it, "abs", x)


def _b_zip(it, *a, **kw):
    strict = kw.get("strict", False)
    xs = [it.iterate(x) for x in a]
    if strict and len({len(x) for x in xs}) > 1:
        raise InterpRaise(ExcObj(BUILTIN_EXC["ValueError"], ("zip() arguments of different lengths",)), it.loc)
    return IterV(tuple(t) for t in zip(*xs))


def _b_enumerate(it, x, start=0):
    return IterV((i + start, v) for i, v in enumerate(it.iterate(x)))


def _b_list(it, x=()):
    return list(it.iterate(x))


def _b_tuple(it, x=()):
    return tuple(it.iterate(x))


def _b_dict(it, *a, **kw):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        elif hasattr(a[0], "om_items"):
            d.update(dict(a[0].om_items()))
        else:
            for k, v in it.iterate(a[0]):
                d[it.key(k)] = v
    d.update(kw)
    return d


def _b_str(it, x=""):
    if isinstance(x, (E, SArr, Opaque)):
        return f"<{type(x).__name__}>"
    if isinstance(x, ExcObj):
        return str(x)
    return str(x)


def _b_hasattr(it, o, n):
    if isinstance(o, Opaque):
        raise Undecided("hasattr of opaque")
    try:
        it.getattr(o, n)
        return True
    except InterpRaise:
        return False


def _b_getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except InterpRaise:
        if d:
            return d[0]
        raise


def _b_sorted(it, x, key=None, reverse=False):
    xs = it.iterate(x) if not isinstance(x, set) else list(x)
    if has_sym(xs):
        raise Undecided("sort symbolic")
    ks = [it.call(key, [v], {}) if key is not None else v for v in xs]
    return [v for _, v in sorted(zip(ks, xs), key=lambda t: t[0], reverse=reverse)]


def _b_type(it, x, *a):
    if isinstance(x, Inst):
        return x.cls
    if isinstance(x, SArr):
        return ExtRef("numpy.ndarray")
    if isinstance(x, E):
        return ExtRef("numpy.float64")
    return type(x)


def _b_print(it, *a, **k):
    it.event("print", "writes to standard output")
    return None


def _b_any(it, x):
    r = False
    for v in it.iterate(x):
        t = it.truth(v)
        r = X.or_(r, t)
    return r


def _b_all(it, x):
    r = True
    for v in it.iterate(x):
        r = X.and_(r, it.truth(v))
    return r


def _b_round(it, x, n=None):
    if isinstance(x, (E, SArr)):
        return NP.np_round(it, x, n or 0)
    return round(x) if n is None else round(x, n)


def _b_setattr(it, o, n, v):
    it.setattr(o, n, v)


def _b_map(it, f, *xs):
    return IterV(it.call(f, list(t), {}) for t in zip(*[it.iterate(x) for x in xs]))


def _b_filter(it, f, xs):
    out = []
    for x in it.iterate(xs):
        t = it.truth(it.call(f, [x], {}) if f is not None else x)
        if not isinstance(t, bool):
            raise Undecided("symbolic filter")
        if t:
            out.append(x)
    return IterV(out)


def _b_eval(it, s, *a):
    import ast as _a
    e = _a.parse(s, mode="eval").body
    return it.ev(e, it.frames[-1])


def _b_id(it, x):
    return id(x)


def _b_super(it, cls, inst):
    return SuperObj(cls, inst)


def _b_reversed(it, x):
    return IterV(reversed(it.iterate(x)))


def _b_set(it, x=()):
    s = set()
    for v in it.iterate(x):
        s.add(it.key(v))
    return s


def _b_callable(it, x):
    return isinstance(x, (FuncObj, Bound, NativeFn, ClsObj, NativeCls, ExtRef))


def _b_issub(it, c, t):
    if isinstance(t, tuple):
        return any(_b_issub(it, c, x) for x in t)
    return isinstance(c, (ClsObj, NativeCls)) and t in c.mro


def _b_pow(it, a, b):
    return it.binop("Pow", a, b)


def _b_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


def _b_bool(it, x=False):
    return it.truth(x)


def _b_complex(it, a=0.0, b=0.0):
    return X.lower(X.add(a, X.mul(b, X.IMAG)))


_NONE = object()


def _b_iter(it, x):
    return x if isinstance(x, IterV) else IterV(it.iterate(x))


def _b_next(it, x, d=_NONE):
    if not isinstance(x, IterV):
        if isinstance(x, Inst) and it.find_method(x.cls, "__next__") is not None:
            return it.call(Bound(it.find_method(x.cls, "__next__"), x), [], {})
        raise InterpRaise(ExcObj(BUILTIN_EXC["TypeError"], ("not an iterator",)), it.loc)
    if not x.rest:
        if d is _NONE:
            raise InterpRaise(ExcObj(BUILTIN_EXC["StopIteration"], ()), it.loc)
        return d
    it.touch(x.rest)
    return x.rest.pop(0)


def _b_vars(it, o):
    if isinstance(o, Inst):
        return o.attrs
    raise Undecided("vars")


def _b_repr(it, x):
    return repr(x) if isinstance(x, (str, int, float, type(None))) or (isinstance(x, (list, tuple, dict)) and not has_sym(x)) else "<?>"


BUILTIN_TYPES = {int: _b_int, float: _b_float, list: _b_list, tuple: _b_tuple, dict: _b_dict, str: _b_str, set: _b_set,
                 bool: _b_bool, range: _b_range, complex: _b_complex,
                 slice: lambda it, *a: slice(*a), object: lambda it: Inst(ClsObj("object", [], {}, "builtins", None))}
BUILTINS = {"True": True, "False": False, "None": None, "int": int, "float": float, "list": list, "tuple": tuple,
            "dict": dict, "str": str, "set": set, "bool": bool, "range": range, "complex": complex, "object": object,
            "__name__": "mod", "Ellipsis": Ellipsis, "slice": slice, "NotImplemented": NotImplemented}
for _n, _f in dict(len=_b_len, isinstance=_b_isinstance, min=_b_minmax("min"), max=_b_minmax("max"), sum=_b_sum, abs=_b_abs,
                   zip=_b_zip, enumerate=_b_enumerate, hasattr=_b_hasattr, getattr=_b_getattr, sorted=_b_sorted, type=_b_type,
                   print=_b_print, any=_b_any, all=_b_all, round=_b_round, setattr=_b_setattr, map=_b_map, filter=_b_filter, eval=_b_eval,
                   id=_b_id, reversed=_b_reversed, callable=_b_callable, issubclass=_b_issub, super=_b_super, pow=_b_pow,
                   divmod=_b_divmod, iter=_b_iter, next=_b_next, vars=_b_vars, repr=_b_repr,
                   ord=lambda it, x: ord(x), chr=lambda it, x: chr(x), hash=lambda it, x: ("<hash>", it.key(x)) if has_sym(x) else hash(it.key(x)),
                   frozenset=_b_set, format=lambda it, x, f="": format(x, f) if not has_sym(x) else "<?>").items():
    BUILTINS[_n] = NativeFn(_n, _f)


def _call_ext(self, fn, args, kw):
    n = fn.name
    self.ext_calls.append((n, self.loc))
    return NP.call_ext(self, n, args, kw)


Interp.call_ext = _call_ext
