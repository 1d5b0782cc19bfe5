"""Model of the numpy / scipy.sparse / math operations used by the repository.

Fully concrete calls are constant-folded with the real numpy; symbolic calls
are interpreted element-wise over terms."""
import copy as _copy
import math
import operator
import numpy as np
from . import expr as X
from .expr import E
from .values import *


def _raise(it, name, msg):
    from .interp import BUILTIN_EXC
    raise InterpRaise(ExcObj(BUILTIN_EXC[name], (msg,)), it.loc)


# ---------------------------------------------------------------- helpers
def asarr(it, v, kind=None):
    if isinstance(v, SArr):
        return v
    if isinstance(v, (E, bool, int, float, np.number, np.bool_)):
        a = np.empty((), dtype=object)
        a[()] = norm_elem(v)
        return wrap(a)
    if isinstance(v, complex):
        a = np.empty((), dtype=object)
        a[()] = norm_elem(v)
        return SArr(a, "c")
    if isinstance(v, np.ndarray):
        return wrap(v)
    if isinstance(v, range):
        return wrap(np.array(list(v), dtype=np.int64))
    if isinstance(v, (list, tuple)):
        if not v:
            return SArr(np.empty((0,), dtype=object), "f")
        if all(isinstance(x, str) for x in v):
            return SArr(np.array(v), "U")
        try:
            parts = [asarr(it, x) for x in v]
        except Undecided:
            raise
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            _raise(it, "ValueError", "inhomogeneous array")
        st = np.stack([p.a.astype(object) if p.kind != "U" else p.a for p in parts])
        if any(p.kind == "c" for p in parts):
            w = wrap(st)
            w.kind = "c"
            return w
        if any(p.kind == "f" for p in parts) and st.dtype == object:
            w = wrap(st)
            if w.kind == "i":
                return SArr(np.frompyfunc(float, 1, 1)(w.a), "f")
            return w
        return wrap(st)
    if isinstance(v, Sparse):
        _raise(it, "ValueError", "sparse as array")
    if v is None:
        a = np.empty((), dtype=object)
        return SArr(a, "O")
    if isinstance(v, str):
        return SArr(np.array(v), "U")
    if isinstance(v, Opaque):
        raise Undecided(f"array of {v.name}")
    if isinstance(v, (Inst, dict)):
        a = np.empty((), dtype=object)
        a[()] = v
        return SArr(a, "O")
    raise Undecided(f"array of {type(v).__name__}")


def obj(s):
    """object-dtype view of data"""
    return s.a if s.a.dtype == object else s.a.astype(object)


def out(it, a, kind=None):
    """result of elementwise function: scalar or SArr"""
    if not isinstance(a, np.ndarray):
        return norm_elem(a)
    if a.dtype != object:
        return wrap(a)
    if a.size == 0:
        return SArr(a, kind or "f")
    if kind in ("f", "c", "b"):
        return SArr(a, kind)
    return wrap(a)


def _fdiv(a, b):
    return X.div(a, b)


def _floordiv(a, b):
    if isinstance(a, E) or isinstance(b, E):
        return X.un("floor", X.div(a, b))
    with np.errstate(all="ignore"):
        return float(np.floor_divide(float(a), float(b)))


def _mod(a, b):
    if isinstance(a, E) or isinstance(b, E):
        return X.sub(a, X.mul(b, X.un("floor", X.div(a, b))))
    with np.errstate(all="ignore"):
        return float(np.mod(float(a), float(b)))


SOPS = {"Add": X.add, "Sub": X.sub, "Mult": X.mul, "Div": _fdiv, "Pow": X.pow_, "FloorDiv": _floordiv, "Mod": _mod,
        "BitAnd": X.and_, "BitOr": X.or_}
PYOPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "Pow": operator.pow,
         "FloorDiv": operator.floordiv, "Mod": operator.mod, "BitAnd": operator.and_, "BitOr": operator.or_,
         "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift}


def _samemask(a, b):
    if a is b:
        return True
    return a.shape == b.shape and all(x is y or (not isinstance(x, E) and not isinstance(y, E) and x == y) for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)))


def binop(it, op, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        if isinstance(a, Masked) and isinstance(b, Masked):
            if not _samemask(a.mask, b.mask):
                raise Undecided("different masks")
            return Masked(asarr(it, binop(it, op, a.full, b.full)), a.mask)
        m, o, sw = (a, b, False) if isinstance(a, Masked) else (b, a, True)
        o = asarr(it, o)
        if o.size != 1:
            raise Undecided("masked op array")
        o = norm_elem(o.a.reshape(-1)[0])
        r = binop(it, op, o, m.full) if sw else binop(it, op, m.full, o)
        return Masked(asarr(it, r), m.mask)
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return sparse_binop(it, op, a, b)
    if op == "MatMult":
        return matmul(it, a, b)
    na = isinstance(a, (int, float, complex)) and not isinstance(a, np.generic) or isinstance(a, np.generic)
    nb = isinstance(b, (int, float, complex)) and not isinstance(b, np.generic) or isinstance(b, np.generic)
    if na and nb:
        try:
            r = PYOPS[op](a, b)
        except ZeroDivisionError:
            r = SOPS[op](float(a), float(b))
        except OverflowError:
            r = float("inf")
        if isinstance(r, complex):
            if isinstance(a, complex) or isinstance(b, complex):
                return X.lower(X.lift(r))
            return float("nan") if False else X.lower(X.lift(r))
        return norm_elem(r)
    if isinstance(a, complex):
        a = X.lower(X.lift(a))
    if isinstance(b, complex):
        b = X.lower(X.lift(b))
    f = SOPS.get(op)
    if f is None:
        raise Undecided(f"operator {op}")
    if (isinstance(a, E) or na) and (isinstance(b, E) or nb):
        if op in ("BitAnd", "BitOr") or True:
            return X.lower(f(a, b))
    sa, sb = asarr(it, a), asarr(it, b)
    if sa.kind == "U" or sb.kind == "U":
        raise Undecided("string arrays")
    try:
        if sa.a.dtype != object and sb.a.dtype != object and op not in ("Div", "Pow"):
            r = PYOPS[op](sa.a, sb.a)
            return wrap(np.asarray(r)) if isinstance(r, np.ndarray) else norm_elem(r)
        r = np.frompyfunc(f, 2, 1)(obj(sa), obj(sb))
    except ValueError as ex:
        _raise(it, "ValueError", str(ex))
    if op in ("BitAnd", "BitOr"):
        return out(it, r, "b")
    k = "c" if "c" in (sa.kind, sb.kind) else "f"
    if isinstance(r, np.ndarray):
        if sa.kind == "O" or sb.kind == "O":
            return wrap(r)
        if sa.kind == "i" and sb.kind == "i" and op == "Pow":
            return wrap(np.power(sa.a, sb.a))
        r = _floatify(r)
        return SArr(r, k)
    return norm_elem(r)


def _floatify(r):
    if r.size:
        f = r.reshape(-1)
        if any(type(x) is int or isinstance(x, (bool, np.generic)) for x in f):
            r = np.frompyfunc(lambda x: float(x) if isinstance(x, (int, bool, np.generic)) else x, 1, 1)(r)
            if not isinstance(r, np.ndarray):
                a = np.empty((), dtype=object)
                a[()] = r
                r = a
    return r


CMP = {"Lt": X.lt, "LtE": X.le, "Gt": lambda a, b: X.lt(b, a), "GtE": lambda a, b: X.le(b, a), "Eq": X.eq,
       "NotEq": lambda a, b: X.not_(X.eq(a, b))}


def compare(it, op, a, b):
    f0 = CMP[op]

    def f(x, y):
        if X.isbool(x) and X.isbool(y) and op in ("Eq", "NotEq") and (isinstance(x, E) or isinstance(y, E)):
            r = X.or_(X.and_(x, y), X.and_(X.not_(x), X.not_(y)))
            return r if op == "Eq" else X.not_(r)
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            r = x == y
            return r if op == "Eq" else not r
        return f0(x, y)
    if isinstance(a, Masked) or isinstance(b, Masked):
        m, o, sw = (a, b, False) if isinstance(a, Masked) else (b, a, True)
        if isinstance(o, Masked):
            if not _samemask(a.mask, b.mask):
                raise Undecided("different masks")
            return Masked(asarr(it, compare(it, op, a.full, b.full)), a.mask)
        return Masked(asarr(it, compare(it, op, o, m.full) if sw else compare(it, op, m.full, o)), m.mask)
    if not isinstance(a, (SArr, list, tuple)) and not isinstance(b, (SArr, list, tuple)):
        return X.lower(f(a, b)) if not isinstance(f(a, b), bool) else f(a, b)
    sa, sb = asarr(it, a), asarr(it, b)
    try:
        r = np.frompyfunc(f, 2, 1)(obj(sa), obj(sb))
    except ValueError as ex:
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        _raise(it, "ValueError", str(ex))
    return out(it, r, "b")


NONANALYTIC = {"abs", "floor", "round", "ceil", "trunc", "sign", "cbrt", "arctan2", "deg2rad", "rad2deg", "hypot"}


def _sc_abs(it):
    def f(x):
        if isinstance(x, E) and it.is_complex(x):
            return it.mark("abs", x)
        return X.abs_(x)
    return f


def unary(it, op, v):
    if isinstance(v, Opaque):
        return Opaque(f"{op}({v.name})")
    if isinstance(v, Masked):
        return Masked(asarr(it, unary(it, op, v.full)), v.mask)
    if isinstance(v, Sparse):
        if op == "neg":
            return Sparse(np.frompyfunc(X.neg, 1, 1)(v.a), v.pat, v.fmt)
        raise Undecided("unary on sparse")
    if op == "neg":
        f = X.neg
    elif op == "not":
        f = X.not_
    elif op == "abs":
        f = _sc_abs(it)
    elif op == "sign":
        f = X.sign
    elif op in ("floor", "ceil", "trunc", "cbrt"):
        def f(x, op=op):
            return X.un(op, it.mark(op, x))
    elif op == "round":
        def f(x):
            return X.un("round", x)
    else:
        def f(x, op=op):
            return X.un(op, x)
    if isinstance(v, (E, int, float, np.number, bool)):
        if isinstance(v, int) and not isinstance(v, bool) and op in ("neg", "abs"):
            return -v if op == "neg" else abs(v)
        return X.lower(f(norm_elem(v)))
    s = asarr(it, v)
    if s.a.dtype != object and op in ("neg", "abs") and s.kind == "i":
        return wrap(-s.a if op == "neg" else np.abs(s.a))
    r = np.frompyfunc(f, 1, 1)(obj(s)) if s.size else obj(s)
    return out(it, r, "b" if op == "not" else ("c" if s.kind == "c" else "f")) if isinstance(r, np.ndarray) else norm_elem(r)


def where(it, c, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Undecided("where opaque")
    if isinstance(a, Masked) or isinstance(b, Masked):
        raise Undecided("where masked")
    sc, sa, sb = asarr(it, c), asarr(it, a), asarr(it, b)

    def f(k, x, y):
        return X.lower(X.ite(k, x, y))
    try:
        r = np.frompyfunc(f, 3, 1)(obj(sc), obj(sa), obj(sb))
    except ValueError as ex:
        _raise(it, "ValueError", str(ex))
    k = "c" if "c" in (sa.kind, sb.kind) else None
    if isinstance(r, np.ndarray):
        if sa.kind == "b" and sb.kind == "b":
            return SArr(r, "b")
        if k is None and ("f" in (sa.kind, sb.kind)):
            return SArr(_floatify(r), "f")
        return out(it, r, k)
    return norm_elem(r)


def bool_index(it, i):
    """SArr boolean mask?"""
    return isinstance(i, SArr) and i.kind == "b"


def idx_conv(it, i):
    """index value -> something usable on a numpy array; symbolic masks returned as ('mask', m)"""
    if isinstance(i, tuple):
        parts = [idx_conv(it, x) for x in i]
        if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0] and parts[0][0] == "mask":
            return parts[0]
        if any(isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] == "mask" for p in parts):
            raise Undecided("mixed symbolic mask index")
        return tuple(parts)
    if isinstance(i, MaskIdx):
        return ("mask", i.mask)
    if bool_index(it, i):
        if has_sym(i):
            return ("mask", i)
        return concrete(i)
    if isinstance(i, SArr):
        if i.kind == "i":
            return i.a
        if has_sym(i):
            raise Undecided("symbolic index array")
        c = concrete(i)
        if c.dtype.kind == "f":
            if c.size == 0:
                return c.astype(int)
            _raise(it, "IndexError", "float index")
        return c
    if isinstance(i, E):
        if i.isbool:
            raise Undecided("symbolic boolean index")
        raise Undecided("symbolic index")
    if isinstance(i, list):
        return idx_conv(it, asarr(it, i))
    if isinstance(i, range):
        return np.array(list(i), dtype=int)
    if isinstance(i, float):
        _raise(it, "IndexError", "float index")
    if isinstance(i, Opaque):
        raise Undecided("opaque index")
    return i


def _objarr(xs):
    a = np.empty(len(xs), dtype=object)
    for k, x in enumerate(xs):
        a[k] = x
    return a


def getitem(it, o, i):
    if isinstance(o, Sparse):
        return sparse_getitem(it, o, i)
    if isinstance(o, MaskIdx):
        if i == 0:
            return MaskIdx(o.mask)
        _raise(it, "IndexError", "tuple index out of range")
    if isinstance(o, MaskShape):
        if i == 0:
            return MaskShape(o.mask)
        raise Undecided("mask shape")
    if isinstance(o, Masked):
        raise Undecided("index of masked selection")
    k = i[0] if isinstance(i, tuple) and i else i
    if isinstance(k, SArr) and k.kind != "b" and k.a.ndim == 0 and has_sym(k):
        k = k.a[()]
    if isinstance(k, E) and not k.isbool and o.a.ndim and not any(isinstance(x, (E, SArr)) for x in (i[1:] if isinstance(i, tuple) else ())):
        r = it.select([getitem(it, o, n) for n in range(o.shape[0])], k)
        return getitem(it, r, i[1:]) if isinstance(i, tuple) and len(i) > 1 else r
    if isinstance(i, SArr) and i.kind != "b" and i.a.ndim == 1 and has_sym(i) and o.a.ndim == 1:
        return wrap(_objarr([it.select(o.items(), x) if isinstance(x, E) else norm_elem(o.a[int(x)]) for x in i.items()]))
    j = idx_conv(it, i)
    if isinstance(j, tuple) and j and isinstance(j[0], str) and j[0] == "mask":
        m = j[1]
        if m.shape == o.shape:
            return Masked(o, m)
        if m.size == 1 and o.size == 1:
            return Masked(o, SArr(m.a.reshape(o.shape), "b"))
        _raise(it, "IndexError", "boolean index shape mismatch")
    try:
        r = o.a[j]
    except (IndexError, ValueError) as ex:
        _raise(it, "IndexError", str(ex))
    if isinstance(r, np.ndarray) and (r.dtype == o.a.dtype):
        view = np.shares_memory(r, o.a) if r.size and o.a.size else False
        return SArr(r, o.kind, o.root if view else None)
    return norm_elem(r)


def store(it, o, i, v):
    """o[i] = v with numpy broadcasting, in place (o SArr)"""
    if isinstance(v, Opaque):
        n = o.a[i] if not isinstance(i, (SArr, MaskIdx)) else o.a
        v = fill_top(np.shape(n), v.name)
    it.effect(o, "in-place write")
    if isinstance(i, E) and not i.isbool and o.a.ndim == 1 and (is_scalar(v) or isinstance(v, SArr) and v.size == 1):
        n = o.shape[0]
        m = np.empty(n, dtype=object)
        m[:] = [X.or_(X.eq(i, k), X.eq(i, k - n)) for k in range(n)]
        it.assume(X.and_(X.not_(X.lt(i, -n)), X.lt(i, n)))
        i = SArr(m, "b")
    j = idx_conv(it, i)
    base = o.base()
    it.touch(base)
    if isinstance(j, tuple) and j and isinstance(j[0], str) and j[0] == "mask":
        m = j[1]
        if m.shape != o.shape:
            if m.size == 1 and o.size == 1:
                m = SArr(m.a.reshape(o.shape), "b")
            else:
                _raise(it, "IndexError", "boolean index shape mismatch")
        if isinstance(v, Masked):
            if not _samemask(v.mask, m):
                raise Undecided("masked store with another mask")
            val = v.full
        else:
            val = asarr(it, v)
            if val.size != 1:
                if val.shape == (0,):
                    return
                raise Undecided("masked store of array")
            val = norm_elem(val.a.reshape(-1)[0])
        new = where(it, m, val, SArr(o.a.copy(), o.kind))
        new = conv_kind(it, asarr(it, new), o.kind)
        o.a[...] = new.a
        return
    if isinstance(v, (Masked, MaskIdx)):
        raise Undecided("store of masked selection")
    if isinstance(v, Sparse):
        raise Undecided("store sparse in array")
    val = conv_kind(it, asarr(it, v), o.kind)
    try:
        tgt = o.a[j]
        if not isinstance(tgt, np.ndarray):
            if val.size != 1:
                raise ValueError("setting an array element with a sequence.")
            o.a[j] = val.a.reshape(-1)[0]
        elif val.a.ndim == 0:
            o.a[j] = val.a[()]
        else:
            o.a[j] = val.a
    except (ValueError, IndexError) as ex:
        _raise(it, type(ex).__name__, str(ex))
    except TypeError as ex:
        raise Undecided(f"store: {ex}")


def fill_top(shape, name):
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for k in range(f.size):
        f[k] = X.top(name)
    return SArr(a, "f")


def conv_kind(it, s, kind):
    """value conversion when stored in an array of the given kind"""
    if kind == "f":
        if s.kind == "f":
            if it.cs_syms:
                return it.mark_map("real-buffer", s)
            return s
        if s.kind in ("i", "b"):
            return SArr(np.frompyfunc(lambda x: X.ite(x, 1.0, 0.0) if isinstance(x, E) and x.isbool else (float(x) if not isinstance(x, E) else x), 1, 1)(obj(s)) if s.a.ndim else _zd(s), "f")
        if s.kind == "c":
            return it.mark_map("real-buffer", SArr(s.a, "f"))
        return s
    if kind == "c":
        if s.kind in ("i", "b"):
            return conv_kind(it, s, "f") if not it.cs_syms else SArr(obj(s), "c")
        return s
    if kind == "i":
        if s.kind == "i":
            return s
        if has_sym(s):
            raise Undecided("symbolic value into integer array")
        return SArr(concrete(s).astype(np.int64), "i")
    return s


def _zd(s):
    a = np.empty((), dtype=object)
    x = s.a[()]
    a[()] = float(x) if not isinstance(x, E) else (X.ite(x, 1.0, 0.0) if x.isbool else x)
    return a


# ---------------------------------------------------------------- attributes
def attribute(it, o, name):
    if isinstance(o, SArr):
        return arr_attr(it, o, name)
    if isinstance(o, (E, float, int, complex, np.generic)) and not isinstance(o, bool):
        return scalar_attr(it, o, name)
    if isinstance(o, MaskShape):
        raise Undecided("mask shape attr")
    if isinstance(o, (Masked, MaskIdx)):
        if name == "shape":
            return MaskShape(o.mask)
        if name == "copy":
            return NativeFn("copy", lambda it: o)
        raise Undecided(f"attribute {name} of masked selection")
    if isinstance(o, Sparse):
        return sparse_attr(it, o, name)
    if isinstance(o, dict):
        return dict_attr(it, o, name)
    if isinstance(o, list):
        return list_attr(it, o, name)
    if isinstance(o, set):
        if name == "add":
            def f(it, x):
                it.touch(o)
                it.effect(o, "set addition")
                o.add(it.key(x))
            return NativeFn("add", f)
        def keys(it, x):
            return set(x) if isinstance(x, set) else {it.key(k) for k in it.iterate(x)}
        if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference", "copy"):
            return NativeFn(name, lambda it, *a: getattr(o, name)(*[keys(it, x) for x in a]))
        if name in ("update", "discard", "remove", "clear", "pop", "intersection_update", "difference_update"):
            def g(it, *a):
                it.touch(o)
                it.effect(o, "set " + name)
                if name in ("discard", "remove"):
                    k = it.key(a[0])
                    if k not in o and name == "remove":
                        _raise(it, "KeyError", k)
                    o.discard(k)
                    return None
                if name == "pop":
                    raise Undecided("set.pop")
                return getattr(o, name)(*[keys(it, x) for x in a])
            return NativeFn(name, g)
    if isinstance(o, tuple) and hasattr(o, "_fields"):
        if name in o._fields:
            return getattr(o, name)
        if name in ("_replace", "_asdict"):
            return NativeFn(name, lambda it, **k: getattr(o, name)(**k))
        if name == "_fields":
            return o._fields
    if isinstance(o, tuple) and name in ("index", "count"):
        return list_attr(it, list(o), name)
    if isinstance(o, str) and name == "join":
        def join(it, x):
            xs = it.iterate(x)
            return o.join(y if isinstance(y, str) else "<?>" for y in xs)
        return NativeFn(name, join)
    if isinstance(o, (str, tuple)):
        if hasattr(o, name):
            m = getattr(o, name)

            def f(it, *a, **k):
                try:
                    return m(*[("<?>" if has_sym(x) else x) for x in a], **k)
                except (TypeError, ValueError, KeyError, IndexError):
                    return "<?>"
            return NativeFn(name, f)
    if o is None or isinstance(o, (bool, str, tuple, list)):
        _raise(it, "AttributeError", f"{type(o).__name__} has no attribute {name}")
    if isinstance(o, slice) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if o in (str, dict, list, float, int):
        if o is dict and name == "fromkeys":
            return NativeFn("fromkeys", lambda it, ks, v=None: {it.key(k): v for k in it.iterate(ks)})
    raise Undecided(f"attribute {name} of {type(o).__name__}")


def dict_attr(it, o, name):
    def get(it, k, d=None):
        k = it.key(k)
        c = it.dict_in(o, k)
        if isinstance(c, bool):
            return it.dict_get(o, k) if c else d
        return it.merge(c, it.dict_get(o, k), d)

    def pop(it, k, *d):
        k = it.key(k)
        if it.dict_sym(o, k) is not None:
            raise Undecided("pop of a symbolic key")
        if k in o:
            it.touch(o)
            it.effect(o, "pop")
            it.event("pop", f"pop of {k!r}", o)
            return o.pop(k)
        if d:
            return d[0]
        _raise(it, "KeyError", k)

    def setdefault(it, k, d=None):
        k = it.key(k)
        c = it.dict_in(o, k)
        if not isinstance(c, bool):
            v = it.merge(c, it.dict_get(o, k), d)
            it.touch(o)
            it.effect(o, "setdefault")
            o[k] = v
            return v
        if k not in o and c:
            return it.dict_get(o, k)
        if k not in o:
            it.touch(o)
            it.effect(o, "setdefault")
            o[k] = d
        return o[k]

    def update(it, *a, **kw):
        it.touch(o)
        it.effect(o, "update")
        for x in a:
            if hasattr(x, "om_items"):
                o.update(dict(x.om_items()))
            else:
                o.update(x if isinstance(x, dict) else dict(it.iterate(x)))
        o.update(kw)

    def clear(it):
        it.touch(o)
        it.effect(o, "clear")
        o.clear()

    T = {"keys": lambda it: list(o.keys()), "values": lambda it: list(o.values()), "items": lambda it: list(o.items()),
         "get": get, "pop": pop, "setdefault": setdefault, "update": update, "copy": lambda it: dict(o), "clear": clear}
    if name in T:
        return NativeFn(name, T[name])
    if name == "popitem":
        def popitem(it):
            if not o:
                _raise(it, "KeyError", "popitem")
            it.touch(o)
            it.effect(o, "popitem")
            return o.popitem()
        return NativeFn(name, popitem)
    if name == "move_to_end":
        def move(it, k, last=True):
            it.touch(o)
            it.effect(o, "move_to_end")
            v = o.pop(k)
            if last:
                o[k] = v
            else:
                rest = list(o.items())
                o.clear()
                o[k] = v
                o.update(rest)
        return NativeFn(name, move)
    _raise(it, "AttributeError", f"dict.{name}")


def list_attr(it, o, name):
    def mut(nm):
        def f(it, *a, **kw):
            it.touch(o)
            it.effect(o, nm)
            if nm == "extend":
                o.extend(it.iterate(a[0]))
                return None
            if nm == "sort":
                from .interp import BUILTINS
                o[:] = it.call(BUILTINS["sorted"], [list(o)], kw)
                return None
            if nm == "popleft":
                if not o:
                    _raise(it, "IndexError", nm)
                return o.pop(0)
            if nm == "appendleft":
                return o.insert(0, a[0])
            if nm in ("remove",):
                for k, x in enumerate(o):
                    if it.truth(it.compare("Eq", x, a[0])) is True:
                        del o[k]
                        return None
                _raise(it, "ValueError", "list.remove")
            try:
                return getattr(o, nm)(*a)
            except IndexError:
                _raise(it, "IndexError", nm)
        return f
    if name in ("append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort") or (
            isinstance(o, Deque) and name in ("popleft", "appendleft")):
        return NativeFn(name, mut(name))
    if name == "__len__":
        return NativeFn(name, lambda it: len(o))
    if name == "copy":
        return NativeFn(name, lambda it: list(o))
    if name == "index":
        def index(it, x):
            for k, y in enumerate(o):
                if y is x or it.truth(it.compare("Eq", y, x)) is True:
                    return k
            _raise(it, "ValueError", "index")
        return NativeFn(name, index)
    if name == "count":
        return NativeFn(name, lambda it, x: sum(1 for y in o if y is x or it.truth(it.compare("Eq", y, x)) is True))
    _raise(it, "AttributeError", f"list.{name}")


def scalar_attr(it, o, name):
    if name == "real":
        return take_real(it, o)
    if name == "imag":
        return take_imag(it, o)
    if name in ("size", "ndim"):
        return 1 if name == "size" else 0
    if name == "shape":
        return ()
    if name in ("conj", "conjugate"):
        return NativeFn(name, lambda it: np_conj(it, o))
    if name in ("copy", "item", "squeeze", "flatten", "ravel"):
        if name in ("flatten", "ravel"):
            return NativeFn(name, lambda it: SArr(asarr(it, o).a.reshape(1), asarr(it, o).kind))
        return NativeFn(name, lambda it, *a: o)
    if name in ("astype",):
        return NativeFn(name, lambda it, *a: o)
    if name == "is_integer":
        return NativeFn(name, lambda it: float(o).is_integer())
    if name == "dtype":
        return ExtRef("numpy.float64")
    if name in ("sum", "max", "min", "mean"):
        return NativeFn(name, lambda it, *a, **k: o)
    if isinstance(o, (int, float)):
        _raise(it, "AttributeError", f"{type(o).__name__}.{name}")
    raise Undecided(f"scalar attribute {name}")


def take_imag(it, v):
    d = X.Differ(X.IMAG)

    def f(x):
        if not isinstance(x, E):
            return 0.0
        if it.cs_syms and it.is_complex(x) and X.IMAG.id not in x.sup:
            return it.mark("imag", x)
        return X.subst(d(x), {X.IMAG.id: 0.0})
    if isinstance(v, (E, float, int)):
        return X.lower(f(v))
    s = asarr(it, v)
    return out(it, np.frompyfunc(f, 1, 1)(obj(s)), "f") if s.size else s


def take_real(it, v):
    def f(x):
        if not isinstance(x, E):
            return x
        if it.cs_syms and it.is_complex(x):
            return it.mark("real", x)
        return X.subst(x, {X.IMAG.id: 0.0})
    if isinstance(v, (E, float, int)):
        return X.lower(f(v))
    s = asarr(it, v)
    return out(it, np.frompyfunc(f, 1, 1)(obj(s)), "f") if s.size else s


def kind_of_dtype(it, d, default="f"):
    if d is None:
        return default
    if isinstance(d, ExtRef):
        n = d.name.rsplit(".", 1)[1]
        if n.startswith("complex"):
            return "c"
        if n.startswith("float") or n in ("double", "single"):
            return "f"
        if n.startswith("int") or n.startswith("uint"):
            return "i"
        if n.startswith("bool"):
            return "b"
        if n == "object_" or n == "dtype":
            return "O"
        raise Undecided(f"dtype {d.name}")
    if d in (int, float, bool, complex):
        return {int: "i", float: "f", bool: "b", complex: "c"}[d]
    if d is object:
        return "O"
    if isinstance(d, str):
        if d.startswith("complex"):
            return "c"
        if d.startswith(("float", "f", "d")):
            return "f"
        if d.startswith("int") or d == "i":
            return "i"
        if d.startswith("bool"):
            return "b"
    if isinstance(d, DTypeV):
        return d.kind
    raise Undecided(f"dtype {d!r}")


class DTypeV:
    def __init__(self, kind):
        self.kind = kind


def new(shape, kind, fill):
    if kind == "i":
        return SArr(np.full(shape, int(fill), dtype=np.int64), "i")
    a = np.empty(shape, dtype=object)
    a[...] = bool(fill) if kind == "b" else float(fill)
    return SArr(a, kind)


def conv_shape(it, s):
    if isinstance(s, SArr):
        s = concrete(s).tolist()
    if isinstance(s, (list, tuple)):
        if len(s) == 1 and isinstance(s[0], MaskShape):
            return s[0]
        r = []
        for x in s:
            if isinstance(x, SArr) and x.size == 1:
                x = norm_elem(x.a.reshape(-1)[0])
            if isinstance(x, E) or isinstance(x, Opaque):
                raise Undecided("symbolic shape")
            if isinstance(x, float):
                _raise(it, "TypeError", "float shape")
            r.append(int(x))
        return tuple(r)
    if isinstance(s, MaskShape):
        return s
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, float):
        _raise(it, "TypeError", "float shape")
    raise Undecided(f"shape {s!r}")


def creator(kind0, fill):
    def f(it, shape, *a, dtype=None, order=None):
        if a:
            if fill == "full":
                pass
            else:
                dtype = a[0]
        k = kind_of_dtype(it, dtype)
        sh = conv_shape(it, shape)
        if isinstance(sh, MaskShape):
            return Masked(new(sh.mask.shape, k, fill), sh.mask)
        if k == "O":
            return SArr(np.full(sh, fill if kind0 != "empty" else None, dtype=object), "O")
        if kind0 == "empty":
            r = new(sh, k, 0.0)
            if k == "f" or k == "c":
                fl = r.a.reshape(-1)
                for q in range(fl.size):
                    fl[q] = X.sym(f"\u22a5uninit:{it.loc[1]}:{q}")
            return r
        return new(sh, k, fill)
    return f


def _like(fill):
    def f(it, v, dtype=None, **kw):
        s = asarr(it, v)
        k = s.kind if dtype is None else kind_of_dtype(it, dtype)
        if fill == "empty":
            return creator("empty", 0.0)(it, s.shape, dtype=None if dtype is None else dtype)
        if it.cs_syms and k == "f" and it.is_complex(s):
            k = "c"
        return new(s.shape, k, fill)
    return f


def arr_attr(it, o, name):
    if name == "shape":
        return tuple(int(x) for x in o.a.shape)
    if name == "size":
        return int(o.a.size)
    if name == "ndim":
        return o.a.ndim
    if name == "T":
        return SArr(o.a.T, o.kind, o.root)
    if name == "dtype":
        return DTypeV(o.kind)
    if name == "flat":
        return SArr(o.a.reshape(-1), o.kind, o.root)
    if name == "real":
        return take_real(it, o)
    if name == "imag":
        return take_imag(it, o)
    if name == "copy":
        return NativeFn("copy", lambda it, *a, **k: SArr(o.a.copy(), o.kind))
    if name == "flatten":
        return NativeFn(name, lambda it, order="C": SArr(o.a.flatten(order=order), o.kind))
    if name == "ravel":
        return NativeFn(name, lambda it, order="C": _viewed(o, o.a.ravel(order=order)))
    if name == "reshape":
        def reshape(it, *s, order="C"):
            sh = conv_shape(it, s[0] if len(s) == 1 else list(s))
            try:
                return _viewed(o, o.a.reshape(sh, order=order))
            except ValueError as ex:
                _raise(it, "ValueError", str(ex))
        return NativeFn(name, reshape)
    if name == "item":
        def item(it, *a):
            if a:
                return norm_elem(o.a.item(*a))
            if o.size != 1:
                _raise(it, "ValueError", "item of array")
            return norm_elem(o.a.reshape(-1)[0])
        return NativeFn(name, item)
    if name in ("tobytes", "tostring"):
        return NativeFn(name, lambda it, *a: ("<bytes>", o.kind) + tuple(o.a.reshape(-1).tolist()) if has_sym(o) else np.asarray(concrete(o)).tobytes())
    if name == "tolist":
        return NativeFn(name, lambda it: o.a.tolist())
    if name == "fill":
        return NativeFn(name, lambda it, v: store(it, o, Ellipsis, v))
    if name == "astype":
        def astype(it, d, **kw):
            k = kind_of_dtype(it, d)
            if k == o.kind:
                return SArr(o.a.copy(), o.kind)
            if k == "i" and has_sym(o):
                return SArr(np.frompyfunc(lambda x: X.ite(x, 1.0, 0.0) if isinstance(x, E) and x.isbool else X.un("trunc", it.mark("astype-int", x)), 1, 1)(obj(o)), "f")
            if k == "c":
                return SArr(obj(o).copy(), "c")
            if k == "b":
                return SArr(np.frompyfunc(X.tobool, 1, 1)(obj(o)), "b")
            return conv_kind(it, SArr(o.a.copy(), o.kind), k)
        return NativeFn(name, astype)
    if name in ("sum", "min", "max", "mean", "prod", "any", "all", "cumsum", "dot", "squeeze", "transpose", "repeat", "argmax", "argmin",
                "nonzero", "conj", "conjugate", "diagonal", "trace", "round", "clip", "swapaxes", "std", "var", "take", "cumprod", "put", "ptp",
                "searchsorted"):
        n = {"conj": "conjugate"}.get(name, name)
        if name == "transpose":
            return NativeFn(name, lambda it, *a, **k: call_ext(it, "numpy.transpose", [o] + ([a] if len(a) > 1 else list(a)), k))
        return NativeFn(name, lambda it, *a, **k: call_ext(it, "numpy." + n, [o] + list(a), k))
    if name == "sort":
        raise Undecided("in-place sort")
    _raise(it, "AttributeError", f"ndarray.{name}")


def _viewed(o, r):
    view = np.shares_memory(r, o.a) if r.size else False
    return SArr(r, o.kind, o.root if view else None)


# ---------------------------------------------------------------- reductions
def _axis(k, a):
    if "axis" in k:
        return k["axis"]
    return a[0] if a else None


def reduce_fn(f, init=None, kind=None):
    def g(it, v, *a, **k):
        ax = _axis(k, a)
        keep = k.get("keepdims", False)
        if isinstance(v, Masked):
            if init is None:
                raise Undecided("reduction of masked selection")
            v = where(it, v.mask, v.full, init)
        if isinstance(v, Sparse):
            return sparse_sum(it, v, ax)
        s = asarr(it, v)
        o = obj(s)
        if s.kind == "U":
            raise Undecided("reduce strings")

        def red(xs):
            r = red_(xs)
            if s.kind in ("i", "b") and isinstance(r, float) and r.is_integer():
                r = int(r)
            return r

        def red_(xs):
            xs = list(xs)
            if not xs:
                if init is None:
                    _raise(it, "ValueError", "reduction of empty array")
                return init
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        if ax is None:
            r = red(o.reshape(-1))
            r = norm_elem(r)
            if keep:
                z = np.empty((1,) * o.ndim, dtype=object)
                z.reshape(-1)[0] = r
                return wrap(z)
            return r
        axes = tuple(x % o.ndim for x in (ax if isinstance(ax, tuple) else (ax,)))
        m = np.moveaxis(o, axes, range(len(axes)))
        rest = m.shape[len(axes):]
        m = m.reshape((-1,) + rest)
        res = np.empty(rest, dtype=object)
        for idx in np.ndindex(*rest):
            res[idx] = red(m[(slice(None),) + idx])
        if keep:
            sh = list(o.shape)
            for x in axes:
                sh[x] = 1
            res = res.reshape(sh)
        if res.ndim == 0:
            return norm_elem(res[()])
        return out(it, res, kind or ("c" if s.kind == "c" else "i" if s.kind == "i" and all(isinstance(x, int) for x in res.reshape(-1)) else None))
    return g


def _mean(it, v, *a, **k):
    if isinstance(v, Masked):
        raise Undecided("mean of masked")
    s = asarr(it, v)
    ax = _axis(k, a)
    n = s.size if ax is None else s.shape[ax] if isinstance(ax, int) else int(np.prod([s.shape[x] for x in ax]))
    return binop(it, "Div", SUM(it, v, *a, **k), float(n))


SUM = reduce_fn(X.add, 0.0)
PROD = reduce_fn(X.mul, 1.0)
MIN = reduce_fn(X.min_)
MAX = reduce_fn(X.max_)
ANY = reduce_fn(X.or_, False, "b")
ALL = reduce_fn(X.and_, True, "b")


def _tb(it, v):
    if isinstance(v, (Masked,)):
        return Masked(_tb(it, v.full), v.mask)
    s = asarr(it, v)
    if s.kind == "b":
        return s
    r = np.frompyfunc(X.tobool, 1, 1)(obj(s))
    if not isinstance(r, np.ndarray):
        return asarr(it, r)
    return SArr(r, "b")


def np_any(it, v, *a, **k):
    return ANY(it, _tb(it, v), *a, **k)


def np_all(it, v, *a, **k):
    v = _tb(it, v)
    if isinstance(v, Masked):
        v = where(it, v.mask, v.full, True)
    return ALL(it, v, *a, **k)


def np_where(it, c, *ab):
    if not ab:
        if isinstance(c, (bool, E)):
            c = SArr(np.array([c], dtype=object), "b")
        c = _tb(it, c)
        if has_sym(c):
            if c.a.ndim != 1:
                return MaskIdx(c)
            return MaskIdx(c)
        return tuple(wrap(x) for x in np.where(concrete(c)))
    return where(it, _tb(it, c) if not isinstance(c, (E, bool)) else c, *ab)


def _minmax2(f):
    def g(it, a, b, **k):
        sa, sb = asarr(it, a), asarr(it, b)
        try:
            r = np.frompyfunc(f, 2, 1)(obj(sa), obj(sb))
        except ValueError as ex:
            _raise(it, "ValueError", str(ex))
        return out(it, r, "c" if "c" in (sa.kind, sb.kind) else None) if isinstance(r, np.ndarray) else norm_elem(r)
    return g


def np_clip(it, v, lo=None, hi=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    if "min" in k or "max" in k:
        lo, hi = k.get("min", lo), k.get("max", hi)
    r = v
    if lo is not None:
        r = _minmax2(X.max_)(it, r, lo)
    if hi is not None:
        r = _minmax2(X.min_)(it, r, hi)
    return r


def np_array(it, v, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(v, Masked):
        return v
    s = asarr(it, v)
    if isinstance(v, SArr):
        s = SArr(v.a.copy(), v.kind)
    if ndmin > s.a.ndim:
        s = SArr(s.a.reshape((1,) * (ndmin - s.a.ndim) + s.shape), s.kind)
    if dtype is not None:
        kd = kind_of_dtype(it, dtype)
        if kd == "O":
            return s
        if kd == "c" and s.kind != "c":
            return SArr(obj(s), "c")
        s = conv_kind(it, s, kd)
    elif s.kind == "f" and it.cs_syms and it.is_complex(s):
        s = SArr(s.a, "c")
    return s


def np_asarray(it, v, dtype=None, **k):
    if isinstance(v, SArr) and dtype is None:
        return v
    return np_array(it, v, dtype)


def shape_fn(name):
    """numpy shape manipulation on object arrays"""
    fn = getattr(np, name)

    def g(it, *args, **kw):
        kinds = []
        roots = []

        def conv(v):
            if isinstance(v, SArr):
                kinds.append(v.kind)
                roots.append(v)
                return v.a
            if isinstance(v, (E,)):
                kinds.append("f")
                a = np.empty((), dtype=object)
                a[()] = v
                return a
            if isinstance(v, (list, tuple)):
                if any(isinstance(x, (SArr, E, list, tuple)) for x in v):
                    return [conv(x) if isinstance(x, (SArr, E, list, tuple)) else (conv(asarr(it, x)) if name in ("hstack", "concatenate", "vstack", "stack", "dstack", "append") else x) for x in v]
                return v
            if isinstance(v, (Masked, MaskIdx, Opaque)):
                raise Undecided(f"{name} of {type(v).__name__}")
            return v
        if name in ("hstack", "concatenate", "vstack", "stack", "dstack", "column_stack"):
            seq = [asarr(it, x) for x in it.iterate(args[0])]
            kinds = [s.kind for s in seq]
            arrs = [obj(s) if any(k != "i" for k in kinds) else s.a for s in seq]
            a2 = [arrs] + list(args[1:])
        else:
            first = asarr(it, args[0])
            kinds.append(first.kind)
            roots.append(first)
            a2 = [first.a] + [conv(v) if not isinstance(v, SArr) or name in ("append", "insert") else concrete(v) for v in args[1:]]
        kw2 = {k: (concrete(v) if not isinstance(v, (E, SArr)) or True else v) for k, v in kw.items()}
        try:
            r = fn(*a2, **kw2)
        except (ValueError, IndexError) as ex:
            _raise(it, "ValueError", str(ex))
        except TypeError as ex:
            raise Undecided(f"{name}: {ex}")

        def back(r):
            if isinstance(r, (list, tuple)):
                return [back(x) for x in r]
            if not isinstance(r, np.ndarray):
                return norm_elem(r)
            if r.dtype != object:
                w = wrap(r)
                return w
            k = "c" if "c" in kinds else ("f" if "f" in kinds else (kinds[0] if kinds else "f"))
            if k == "f":
                r = _floatify(r)
            root = None
            if roots and r.size and np.shares_memory(r, roots[0].a):
                root = roots[0].root
            return SArr(r, k, root) if k != "O" else wrap(r)
        return back(r)
    return g


def matmul(it, a, b):
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return sparse_binop(it, "MatMult", a, b)
    sa, sb = asarr(it, a), asarr(it, b)
    if sa.a.ndim == 0 or sb.a.ndim == 0:
        return binop(it, "Mult", a, b)
    try:
        r = np.dot(_nd(sa), _nd(sb))
    except ValueError as ex:
        _raise(it, "ValueError", str(ex))
    return out(it, r) if isinstance(r, np.ndarray) else norm_elem(r)


def _nd(s):
    return obj(s)


def np_linspace(it, a, b, num=50, **k):
    if isinstance(num, SArr):
        num = norm_elem(num.a.reshape(-1)[0])
    if isinstance(num, (E, Opaque)):
        raise Undecided("symbolic linspace count")
    if isinstance(num, float):
        _raise(it, "TypeError", "linspace num")
    sa, sb = asarr(it, a), asarr(it, b)
    if not has_sym(sa) and not has_sym(sb):
        k.pop("dtype", None)
        r = np.linspace(concrete(sa), concrete(sb), num, **{q: concrete(v) for q, v in k.items()})
        if isinstance(r, tuple):
            return (wrap(r[0]), norm_elem(r[1]))
        return wrap(r)
    ep = k.get("endpoint", True)
    n = num - 1 if ep else num
    xs = []
    step = binop(it, "Div", binop(it, "Sub", b, a), float(max(n, 1)))
    for q in range(num):
        if q == num - 1 and ep and num > 1:
            xs.append(b)
        elif q == 0:
            xs.append(a)
        else:
            xs.append(binop(it, "Add", a, binop(it, "Mult", step, float(q))))
    if "dtype" in k and it.cs_syms:
        dk = kind_of_dtype(it, k["dtype"])
        if dk == "f":
            xs = [it.mark_map("linspace-dtype", x) for x in xs]
    if it.cs_syms and (it.is_complex(sa) or it.is_complex(sb)):
        r = asarr(it, xs)
        r.kind = "c"
        return r
    bs = np.broadcast_shapes(sa.shape, sb.shape)
    xs = [asarr(it, x) for x in xs]
    r = asarr(it, [SArr(np.broadcast_to(x.a, bs).copy(), x.kind) for x in xs])
    ax = k.get("axis", 0)
    if ax != 0:
        r = SArr(np.moveaxis(r.a, 0, ax), r.kind)
    return r


def np_solve(it, A, b):
    sA, sb = asarr(it, A), asarr(it, b)
    if not has_sym(sA) and not has_sym(sb):
        return wrap(np.linalg.solve(concrete(sA), concrete(sb)))
    if not has_sym(sA):
        inv = np.linalg.inv(concrete(sA))
        return matmul(it, wrap(inv), sb)
    n = sA.shape[0]
    if sA.a.ndim != 2 or n > 12:
        raise Undecided("symbolic solve")
    M = [list(r) for r in obj(sA)]
    vec = sb.a.ndim == 1
    B = [list(r) for r in obj(SArr(sb.a.reshape(n, -1), sb.kind))]
    # fraction-free-ish gaussian elimination without pivoting (terms)
    for i in range(n):
        p = None
        for r in range(i, n):
            x = M[r][i]
            if isinstance(x, E) or x != 0:
                p = r
                break
        if p is None:
            raise Undecided("singular")
        M[i], M[p] = M[p], M[i]
        B[i], B[p] = B[p], B[i]
        for r in range(i + 1, n):
            f = X.div(M[r][i], M[i][i])
            if not isinstance(f, E) and f == 0:
                continue
            for c in range(i, n):
                M[r][c] = X.sub(M[r][c], X.mul(f, M[i][c]))
            for c in range(len(B[r])):
                B[r][c] = X.sub(B[r][c], X.mul(f, B[i][c]))
    for i in range(n - 1, -1, -1):
        for c in range(len(B[i])):
            s = B[i][c]
            for k in range(i + 1, n):
                s = X.sub(s, X.mul(M[i][k], B[k][c]))
            B[i][c] = X.div(s, M[i][i])
    r = np.empty((n, len(B[0])), dtype=object)
    for i in range(n):
        for c in range(len(B[0])):
            r[i, c] = B[i][c]
    return out(it, r.reshape(sb.shape))


def np_trapz(it, y, x=None, dx=1.0, axis=-1):
    s = asarr(it, y)
    if s.a.ndim == 0:
        raise Undecided("trapz 0d")
    if s.a.ndim > 1:
        ax = axis % s.a.ndim
        mv = np.moveaxis(s.a, ax, -1)
        xx = None if x is None else asarr(it, x)
        o = np.empty(mv.shape[:-1], dtype=object)
        for i in np.ndindex(*o.shape):
            if xx is None:
                xi = None
            elif xx.a.ndim == 1:
                xi = xx
            else:
                xi = SArr(np.moveaxis(np.broadcast_to(xx.a, s.a.shape), ax, -1)[i], xx.kind)
            o[i] = np_trapz(it, SArr(mv[i], s.kind), xi, dx)
        return wrap(o)
    n = s.shape[0]
    r = 0.0
    for i in range(n - 1):
        d = dx if x is None else binop(it, "Sub", getitem(it, asarr(it, x), i + 1), getitem(it, asarr(it, x), i))
        r = X.add(r, X.mul(X.mul(0.5, d), X.add(s.a[i], s.a[i + 1])))
    return X.lower(r)


def np_cumsum(it, v, axis=None, **k):
    s = asarr(it, v)
    o = obj(s)
    r = np.add.accumulate(o.reshape(-1) if axis is None else o, axis=0 if axis is None else axis)
    return out(it, r)


def np_diff(it, v, n=1, axis=-1, prepend=None, append=None):
    if prepend is not None or append is not None:
        if asarr(it, v).a.ndim != 1:
            raise Undecided("diff prepend")
        parts = [asarr(it, x).a.reshape(-1) if asarr(it, x).a.ndim == 0 else asarr(it, x).a for x in (prepend, v, append) if x is not None]
        v = wrap(np.concatenate([np.asarray(x, dtype=object) for x in parts]))
    s = asarr(it, v)
    o = s.a
    for _ in range(n):
        a = np.moveaxis(o, axis, 0)
        o = np.moveaxis(np.frompyfunc(X.sub, 2, 1)(a[1:].astype(object), a[:-1].astype(object)), 0, axis)
    return out(it, o)


def np_outer(it, a, b):
    sa, sb = asarr(it, a), asarr(it, b)
    return binop(it, "Mult", SArr(sa.a.reshape(-1, 1), sa.kind), SArr(sb.a.reshape(1, -1), sb.kind))


def np_norm(it, v, *a, **k):
    s = asarr(it, v)
    if a or k:
        if not has_sym(s):
            return norm_or_wrap(np.linalg.norm(concrete(s), *a, **k))
        ax = k.get("axis", None)
        if a or ax is None:
            raise Undecided("norm order")
    if it.is_complex(s):
        return it.mark("norm", X.un("sqrt", SUM(it, binop(it, "Mult", s, s), **k)))
    return unary(it, "sqrt", SUM(it, binop(it, "Mult", s, s), **k))


def norm_or_wrap(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, (list, tuple)):
        return type(r)(norm_or_wrap(x) for x in r)
    return norm_elem(r)


def np_interp(it, x, xp, fp, *a, **k):
    sx, sp, sf = asarr(it, x), asarr(it, xp), asarr(it, fp)
    if has_sym(sp) and True:
        pass
    n = sp.size
    P, F = obj(sp).reshape(-1), obj(sf).reshape(-1)

    def f(q):
        q = it.mark("interp", q)
        r = F[n - 1]
        for i in range(n - 2, -1, -1):
            t = X.div(X.sub(q, P[i]), X.sub(P[i + 1], P[i]))
            seg = X.add(F[i], X.mul(t, X.sub(F[i + 1], F[i])))
            r = X.ite(X.lt(q, P[i + 1]), seg, r)
        return X.lower(X.ite(X.lt(q, P[0]), F[0], r))
    if n > 60:
        raise Undecided("large interp table")
    r = np.frompyfunc(f, 1, 1)(obj(sx))
    return out(it, r) if isinstance(r, np.ndarray) else norm_elem(r)


def np_meshgrid(it, *xs, indexing="xy", **k):
    arrs = [obj(asarr(it, x)) for x in xs]
    r = np.meshgrid(*arrs, indexing=indexing)
    return [out(it, x, "f") for x in r]


def np_deg2rad(it, v):
    return binop(it, "Mult", it.mark_map("deg2rad", v), np.pi / 180)


def np_rad2deg(it, v):
    return binop(it, "Mult", it.mark_map("rad2deg", v), 180 / np.pi)


def np_arctan2(it, a, b):
    sa, sb = asarr(it, it.mark_map("arctan2", a)), asarr(it, it.mark_map("arctan2", b))
    r = np.frompyfunc(X.atan2, 2, 1)(obj(sa), obj(sb))
    return out(it, r) if isinstance(r, np.ndarray) else norm_elem(r)


def np_isnan(it, v):
    if isinstance(v, (E, float, int)):
        return X.isnan(v)
    s = asarr(it, v)
    return out(it, np.frompyfunc(X.isnan, 1, 1)(obj(s)), "b")


def np_allclose(it, a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym(a) or has_sym(b):
        return it.call(it.prelude("numpy__allclose"), [a, b, rtol, atol], {})
    d = binop(it, "Sub", a, b)
    if has_sym(d):
        lim = binop(it, "Add", atol, binop(it, "Mult", rtol, unary(it, "abs", b)))
        return np_all(it, compare(it, "LtE", unary(it, "abs", d), lim))
    return bool(np.allclose(concrete(asarr(it, a)), concrete(asarr(it, b)), rtol=rtol, atol=atol))


def np_repeat(it, v, n, axis=None):
    s = asarr(it, v)
    n = concrete(n)
    try:
        return _kindwrap(np.repeat(s.a, n, axis=axis), s.kind)
    except ValueError as ex:
        _raise(it, "ValueError", str(ex))


def _kindwrap(a, k):
    return SArr(a, k) if k != "O" else wrap(a)


def np_tile(it, v, reps):
    s = asarr(it, v)
    return _kindwrap(np.tile(s.a, concrete(reps)), s.kind)


def np_arange(it, *a, **k):
    k.pop("dtype", None) if False else None
    kd = k.pop("dtype", None)
    if any(has_sym(x) for x in a):
        raise Undecided("symbolic arange")
    r = np.arange(*[concrete(x) for x in a])
    w = wrap(r)
    if kd is not None:
        w = conv_kind(it, w, kind_of_dtype(it, kd))
    return w


def np_full(it, shape, v, dtype=None, **k):
    s = asarr(it, v)
    sh = conv_shape(it, shape)
    r = np.empty(sh, dtype=object)
    r[...] = s.a[()] if s.a.ndim == 0 else s.a
    kd = s.kind if dtype is None else kind_of_dtype(it, dtype)
    if kd == "i":
        return SArr(r.astype(np.int64), "i")
    return conv_kind(it, SArr(r, s.kind), kd)


def np_eye(it, n, *a, **k):
    return wrap(np.eye(n, *a))


def np_diag(it, v, k=0):
    s = asarr(it, v)
    o = obj(s)
    if o.ndim == 1:
        n = o.size + abs(k)
        r = np.empty((n, n), dtype=object)
        r[...] = 0.0
        for i, x in enumerate(o):
            r[i + max(0, -k), i + max(0, k)] = x
        return out(it, r)
    return out(it, np.diagonal(o, k).copy())


def np_conj(it, v):
    return it.mark_map("conj", v)


def np_shape(it, v):
    if isinstance(v, Masked):
        return MaskShape(v.mask)
    return tuple(asarr(it, v).shape)


def np_copyto(it, dst, src, casting=None, where=True):
    if where is not True:
        src = globals()["where"](it, _tb(it, where), src, SArr(dst.a.copy(), dst.kind))
    store(it, dst, Ellipsis, src)


def np_round(it, v, decimals=0):
    if not has_sym(v):
        return norm_or_wrap(np.round(concrete(v), decimals))
    if decimals == 0:
        return unary(it, "round", v)
    return binop(it, "Div", unary(it, "round", binop(it, "Mult", v, 10.0 ** decimals)), 10.0 ** decimals)


def math_fn(name):
    T = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "atan": "atan", "asin": "asin",
         "acos": "acos", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh", "log10": "log10", "floor": "floor", "ceil": "ceil",
         "fabs": "abs", "log1p": "log1p", "expm1": "expm1", "erf": "erf"}

    def f(it, x, *a):
        if isinstance(x, SArr):
            if x.size != 1:
                _raise(it, "TypeError", "math function of array")
            x = norm_elem(x.a.reshape(-1)[0])
        if isinstance(x, E):
            x = it.mark("math." + name, x)
        if name == "pow":
            return binop(it, "Pow", x, a[0])
        if name == "radians":
            return binop(it, "Mult", x, np.pi / 180)
        if name == "degrees":
            return binop(it, "Mult", x, 180 / np.pi)
        if name == "atan2":
            return X.lower(X.atan2(x, a[0]))
        if name == "isnan":
            return X.isnan(x)
        if name == "log" and a:
            return binop(it, "Div", unary(it, "log", x), math.log(a[0]))
        if name not in T:
            return norm_elem(getattr(math, name)(concrete(x), *a))
        if not isinstance(x, E):
            try:
                return norm_elem(getattr(math, name)(x))
            except ValueError:
                _raise(it, "ValueError", "math domain error")
        return unary(it, T[name], x)
    return f


def u(op):
    return lambda it, v, *a, **k: unary(it, op, v)


def b(op):
    def f(it, x, y, **k):
        r = binop(it, op, x, y)
        if k.get("out") is not None:
            store(it, k["out"], Ellipsis, r)
            return k["out"]
        return r
    return f


def cmpf(op):
    return lambda it, x, y, **k: compare(it, op, x, y)


def logical(f):
    def g(it, x, y, **k):
        sa, sb = _tb(it, x), _tb(it, y)
        r = np.frompyfunc(f, 2, 1)(obj(sa), obj(sb))
        return out(it, r, "b") if isinstance(r, np.ndarray) else r
    return g


def deep(it, v, memo=None):
    if isinstance(v, SArr):
        return SArr(v.a.copy(), v.kind)
    if isinstance(v, list):
        return [deep(it, x) for x in v]
    if isinstance(v, tuple):
        return retuple(v, [deep(it, x) for x in v])
    if isinstance(v, DefDict):
        r = DefDict({k: deep(it, x) for k, x in v.items()})
        r.factory = v.factory
        return r
    if isinstance(v, dict):
        return {k: deep(it, x) for k, x in v.items()}
    if isinstance(v, Inst):
        raise Undecided("deepcopy of instance")
    if hasattr(v, "om_items"):
        return {k: deep(it, x) for k, x in v.om_items()}
    return v


def shallow(it, v):
    if isinstance(v, SArr):
        return SArr(v.a.copy(), v.kind)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, (Inst,)) or hasattr(v, "om_items"):
        raise Undecided("copy of instance")
    return v


def np_load(it, path, *a, **k):
    if not isinstance(path, str):
        raise Undecided("np.load path")
    import os
    p = os.path.normpath(path)
    if not p.startswith(it.root) or not os.path.exists(p):
        _raise(it, "FileNotFoundError", path)
    data = np.load(p)
    if it.load_hook is not None:
        data = it.load_hook(p, data)
    r = wrap(data)
    it.event("load", p, p)
    return r


def nprandom(it, name, args, kw):
    it.event("nondeterminism", f"calls {name}", name)
    size = kw.get("size", None)
    if size is None:
        if name.endswith((".uniform", ".normal")) and len(args) > 2:
            size = args[2]
        elif name.endswith((".rand", ".randn")) and args:
            size = tuple(args)
        elif name.endswith((".random",)) and args:
            size = args[0]
    f, l = it.loc
    if size is None:
        return X.sym(f"random@{l}")
    sh = conv_shape(it, size)
    a = np.empty(sh, dtype=object)
    fl = a.reshape(-1)
    for i in range(fl.size):
        fl[i] = X.sym(f"random@{l}[{i}]#{len(it.events)}")
    return SArr(a, "f")


TABLE = {
    "numpy.zeros": creator("zeros", 0.0), "numpy.ones": creator("ones", 1.0), "numpy.empty": creator("empty", 0.0),
    "numpy.zeros_like": _like(0.0), "numpy.ones_like": _like(1.0), "numpy.empty_like": _like("empty"),
    "numpy.full": np_full, "numpy.array": np_array, "numpy.asarray": np_asarray, "numpy.atleast_1d": lambda it, v: asarr(it, v) if asarr(it, v).a.ndim else SArr(asarr(it, v).a.reshape(1), asarr(it, v).kind),
    "numpy.full_like": lambda it, v, x, **k: np_full(it, asarr(it, v).shape, x, **k),
    "numpy.copy": lambda it, v: np_array(it, v), "numpy.where": np_where, "numpy.arange": np_arange, "numpy.linspace": np_linspace,
    "numpy.sum": SUM, "numpy.prod": PROD, "numpy.min": MIN, "numpy.max": MAX, "numpy.amin": MIN, "numpy.amax": MAX, "numpy.mean": _mean,
    "numpy.any": np_any, "numpy.all": np_all, "numpy.minimum": _minmax2(X.min_), "numpy.maximum": _minmax2(X.max_),
    "numpy.fmin": _minmax2(X.min_), "numpy.fmax": _minmax2(X.max_),
    "numpy.clip": np_clip, "numpy.dot": matmul, "numpy.matmul": matmul, "numpy.inner": matmul, "numpy.outer": np_outer,
    "numpy.linalg.solve": np_solve, "numpy.linalg.norm": np_norm, "numpy.trapz": np_trapz, "numpy.cumsum": np_cumsum, "numpy.diff": np_diff,
    "numpy.interp": np_interp, "numpy.meshgrid": np_meshgrid, "numpy.deg2rad": np_deg2rad, "numpy.radians": np_deg2rad, "numpy.rad2deg": np_rad2deg,
    "numpy.degrees": np_rad2deg, "numpy.arctan2": np_arctan2, "numpy.isnan": np_isnan, "numpy.allclose": np_allclose, "numpy.repeat": np_repeat,
    "numpy.tile": np_tile, "numpy.eye": np_eye, "numpy.identity": np_eye, "numpy.diag": np_diag, "numpy.conjugate": np_conj, "numpy.conj": np_conj,
    "numpy.shape": np_shape, "numpy.size": lambda it, v, *a: int(asarr(it, v).size), "numpy.ndim": lambda it, v: asarr(it, v).a.ndim,
    "numpy.copyto": np_copyto, "numpy.real": take_real, "numpy.imag": take_imag, "numpy.load": np_load,
    "numpy.logical_and": logical(X.and_), "numpy.logical_or": logical(X.or_), "numpy.logical_not": lambda it, v: unary(it, "not", _tb(it, v)),
    "numpy.invert": u("not"),
    "numpy.float64": lambda it, v=0.0: v if isinstance(v, (E, float)) else float(v), "numpy.isscalar": lambda it, v: isinstance(v, (int, float, E, str)),
    "numpy.iscomplexobj": lambda it, v: it.is_complex(v), "numpy.nonzero": np_where, "numpy.flatnonzero": lambda it, v: np_where(it, v)[0] if not has_sym(v) else MaskIdx(_tb(it, v)),
    "numpy.exp": u("exp"), "numpy.log": u("log"), "numpy.sqrt": u("sqrt"), "numpy.sin": u("sin"), "numpy.cos": u("cos"), "numpy.tan": u("tan"),
    "numpy.arcsin": u("asin"), "numpy.arccos": u("acos"), "numpy.arctan": u("atan"), "numpy.sinh": u("sinh"), "numpy.cosh": u("cosh"),
    "numpy.tanh": u("tanh"), "numpy.abs": u("abs"), "numpy.absolute": u("abs"), "numpy.fabs": u("abs"), "numpy.floor": u("floor"), "numpy.ceil": u("ceil"),
    "numpy.round": np_round, "numpy.around": np_round,
    "numpy.sign": u("sign"), "numpy.log10": u("log10"), "numpy.log2": u("log2"), "numpy.log1p": u("log1p"), "numpy.expm1": u("expm1"), "numpy.cbrt": u("cbrt"),
    "numpy.square": lambda it, v: binop(it, "Mult", v, v), "numpy.negative": u("neg"), "numpy.reciprocal": lambda it, v: binop(it, "Div", 1.0, v),
    "numpy.arcsinh": u("asinh"), "numpy.arccosh": u("acosh"), "numpy.arctanh": u("atanh"),
    "numpy.add": b("Add"), "numpy.subtract": b("Sub"), "numpy.multiply": b("Mult"), "numpy.divide": b("Div"), "numpy.true_divide": b("Div"), "numpy.power": b("Pow"),
    "numpy.mod": b("Mod"), "numpy.float_power": b("Pow"),
    "numpy.less": cmpf("Lt"), "numpy.less_equal": cmpf("LtE"), "numpy.greater": cmpf("Gt"), "numpy.greater_equal": cmpf("GtE"), "numpy.equal": cmpf("Eq"), "numpy.not_equal": cmpf("NotEq"),
    "copy.deepcopy": deep, "copy.copy": shallow, "warnings.warn": lambda it, *a, **k: it.event("warn", "warning", a[0] if a else None),
    "numpy.hypot": lambda it, x, y: unary(it, "sqrt", binop(it, "Add", binop(it, "Mult", x, x), binop(it, "Mult", y, y))),
    "numpy.ravel": lambda it, v, **k: _viewed(asarr(it, v), asarr(it, v).a.ravel()),
    "numpy.isclose": lambda it, a, b_, rtol=1e-5, atol=1e-8: compare(it, "LtE", unary(it, "abs", binop(it, "Sub", a, b_)), binop(it, "Add", atol, binop(it, "Mult", rtol, unary(it, "abs", b_)))),
    "numpy.dtype": lambda it, d: DTypeV(kind_of_dtype(it, d)),
    "numpy.nan_to_num": lambda it, v, **k: where(it, np_isnan(it, v), 0.0, v),
    "numpy.count_nonzero": lambda it, v: SUM(it, where(it, _tb(it, v), 1.0, 0.0)),
    "numpy.ndindex": lambda it, *s: list(np.ndindex(*[concrete(x) for x in s])),
    "numpy.ndenumerate": lambda it, v: [(i, norm_elem(x)) for i, x in np.ndenumerate(asarr(it, v).a)],
    "numpy.einsum": lambda it, sub, *ops: einsum(it, sub, *ops),
}


def einsum(it, sub, *ops):
    arrs = [obj(asarr(it, o)) for o in ops]
    ins, outp = sub.replace(" ", "").split("->") if "->" in sub else (sub.replace(" ", ""), None)
    ins = ins.split(",")
    if outp is None:
        allc = "".join(ins)
        outp = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outp]
    res = np.empty(tuple(dims[c] for c in outp), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(outp, oi))
        acc = 0.0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            t = 1.0
            for s, a in zip(ins, arrs):
                t = X.mul(t, a[tuple(env[c] for c in s)])
            acc = X.add(acc, t)
        res[oi] = acc
    return out(it, res) if res.ndim else norm_elem(res[()])


for _n in ("reshape", "concatenate", "hstack", "vstack", "stack", "dstack", "column_stack", "squeeze", "transpose", "flip", "roll", "broadcast_to",
           "expand_dims", "atleast_2d", "split", "array_split", "append", "insert", "delete", "take", "swapaxes", "moveaxis", "fliplr", "flipud",
           "rot90", "diagonal", "tril", "triu", "pad", "resize", "rollaxis", "take_along_axis"):
    TABLE["numpy." + _n] = shape_fn(_n)
for _n in ("sqrt", "sin", "cos", "tan", "exp", "log", "atan", "asin", "acos", "tanh", "sinh", "cosh", "log10", "floor", "ceil", "fabs", "pow", "radians",
           "degrees", "atan2", "isnan", "log1p", "expm1", "erf", "factorial", "gcd", "comb"):
    TABLE["math." + _n] = math_fn(_n)

NONDET = ("numpy.random.", "random.", "time.", "datetime.", "os.getenv", "os.environ", "os.getpid", "os.urandom", "uuid.")


def call_ext(it, n, args, kw):
    if n.startswith("scipy.sparse"):
        return sparse_call(it, n, args, kw)
    if n.startswith(NONDET):
        if n.startswith("numpy.random."):
            if n.endswith((".seed", ".default_rng", ".RandomState")):
                return Opaque(n)
            return nprandom(it, n, args, kw)
        if n in ("time.time", "time.perf_counter"):
            it.event("nondeterminism", f"calls {n}", n)
            return X.top(n)
        it.event("nondeterminism", f"calls {n}", n)
        return Opaque(n)
    if n.startswith("numpy.") and n.count(".") == 1 and isinstance(getattr(np, n[6:], None), np.ufunc):
        uf = getattr(np, n[6:])
        if len(args) > uf.nin or "out" in kw or "where" in kw:
            kw = dict(kw)
            args = list(args)
            dst = kw.pop("out", None)
            if len(args) > uf.nin:
                dst = args[uf.nin]
                args = args[:uf.nin]
            sel = kw.pop("where", True)
            if isinstance(dst, tuple):
                dst = dst[0] if len(dst) == 1 else dst
            if isinstance(dst, tuple) or dst is not None and not isinstance(dst, SArr):
                raise Undecided("out argument")
            r = call_ext(it, n, args, kw)
            if sel is not True:
                other = dst
                if other is None:
                    s = asarr(it, r)
                    other = np.empty(s.shape, dtype=object)
                    for k in range(other.size):
                        other.reshape(-1)[k] = X.top("unselected entry of a ufunc without out")
                    other = SArr(other, s.kind)
                r = where(it, _tb(it, sel), r, other)
            if dst is None:
                return r
            if dst.kind == "f" and it.is_complex(r):
                r = it.mark_map("inplace-real-buffer", r)
            store(it, dst, Ellipsis, r)
            return dst
    elif n.startswith("numpy.") and "out" in kw:
        kw = dict(kw)
        dst = kw.pop("out")
        if dst is not None and not isinstance(dst, SArr):
            raise Undecided("out argument")
        r = call_ext(it, n, args, kw)
        if dst is None:
            return r
        if dst.kind == "f" and it.is_complex(r):
            r = it.mark_map("inplace-real-buffer", r)
        store(it, dst, Ellipsis, r)
        return dst
    f = TABLE.get(n)
    if f is None and (n.startswith(("numpy.", "operator.", "itertools.", "functools.", "collections.", "math.", "scipy.", "contextlib."))):
        if n.rsplit(".", 1)[1] in ("reduce", "accumulate", "outer", "at", "reduceat") and n.count(".") == 2:
            from .values import ExtRef as _R
            base, meth = n.rsplit(".", 1)
            return it.call(it.prelude("ufunc_" + meth), [_R(base)] + list(args), kw)
        g = NATIVE.get(n)
        if g is not None:
            return g(it, *args, **kw)
        g = it.prelude(n.replace(".", "__"))
        if g is not None:
            return it.call(g, args, kw)
    if f is not None:
        for a in args:
            if isinstance(a, Opaque) and not n.startswith("warnings"):
                return Opaque(f"{n}({a.name})")
        try:
            return f(it, *args, **kw)
        except (Undecided, InterpRaise):
            raise
        except (TypeError, IndexError, AttributeError, ValueError) as ex:
            raise Undecided(f"{n}: {type(ex).__name__} {ex}")
    # constant folding with the real numpy
    if n.startswith(("numpy.", "math.")):
        try:
            ca = [concrete(a) for a in args]
            ck = {k: concrete(v) for k, v in kw.items()}
        except TypeError:
            raise Undecided(f"symbolic {n}")
        mod = np if n.startswith("numpy.") else math
        obj_ = mod
        for p in n.split(".")[1:]:
            obj_ = getattr(obj_, p, None)
        if obj_ is None or not callable(obj_):
            raise Undecided(n)
        try:
            return norm_or_wrap(obj_(*ca, **ck))
        except Exception as ex:
            _raise(it, "ValueError", f"{n}: {ex}")
    if n.startswith("os.path.") or n in ("os.getcwd",):
        import os
        if n.startswith("os.path.") and all(isinstance(a, str) for a in args):
            return getattr(os.path, n[8:])(*args)
    if n == "collections.OrderedDict":
        from .interp import BUILTIN_TYPES
        return BUILTIN_TYPES[dict](it, *args, **kw)
    if n == "itertools.product":
        import itertools
        rep = kw.get("repeat", 1)
        return _iterv([tuple(t) for t in itertools.product(*[it.iterate(a) for a in args], repeat=rep)])
    return Opaque(n + "()")


def _iterv(xs):
    from .interp import IterV
    return IterV(xs)


def _combin(fn):
    def f(it, xs, *a, **k):
        import itertools
        return _iterv(list(getattr(itertools, fn)(it.iterate(xs), *a, **k)))
    return f


def _namedtuple(it, name, fields, *, defaults=None, rename=False, module=None):
    import collections
    if not isinstance(fields, str):
        fields = it.iterate(fields)
    return collections.namedtuple(name, fields, defaults=it.iterate(defaults) if defaults is not None else None)


def _defaultdict(it, factory=None, *a, **k):
    from .interp import BUILTIN_TYPES
    r = DefDict(BUILTIN_TYPES[dict](it, *a, **k))
    r.factory = factory
    return r


def _counter(it, xs=(), **k):
    r = DefDict()
    if isinstance(xs, dict):
        r.update(xs)
    else:
        for x in it.iterate(xs):
            x = it.key(x)
            r[x] = r.get(x, 0) + 1
    for x, n in k.items():
        r[x] = r.get(x, 0) + n
    return r


def _partial(it, f, *a, **k):
    return NativeFn("partial", lambda it, *b, **q: it.call(f, list(a) + list(b), {**k, **q}))


def _itemgetter(it, *ks):
    return NativeFn("itemgetter", lambda it, o: it.getitem(o, ks[0]) if len(ks) == 1 else tuple(it.getitem(o, k) for k in ks))


def _attrgetter(it, *ks):
    def one(it, o, k):
        for p in k.split("."):
            o = it.getattr(o, p)
        return o
    return NativeFn("attrgetter", lambda it, o: one(it, o, ks[0]) if len(ks) == 1 else tuple(one(it, o, k) for k in ks))


def _methodcaller(it, name, *a, **k):
    return NativeFn("methodcaller", lambda it, o: it.call(it.getattr(o, name), list(a), k))


def _bin(op):
    return lambda it, a, b_: it.binop(op, a, b_)


def _cmp(op):
    return lambda it, a, b_: it.compare(op, a, b_)


def _ident(it, f=None, *a, **k):
    """functools.wraps(f)(g) and the like: the function itself"""
    return NativeFn("decorate", lambda it, g: g)


def _lru(it, f=None, *a, **k):
    return f if isinstance(f, (FuncObj, Bound)) else NativeFn("decorate", lambda it, g: g)


def _vectorize(it, f, *a, **k):
    def call(it, *xs, **kw):
        ss = [asarr(it, x) for x in xs]
        try:
            bs = np.broadcast_arrays(*[obj(s) for s in ss])
        except ValueError as ex:
            _raise(it, "ValueError", str(ex))
        r = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            v = it.call(f, [norm_elem(x[i]) for x in bs], kw)
            if isinstance(v, SArr) and v.size == 1:
                v = v.items()[0]
            r[i] = v
        return wrap(r)
    return NativeFn("vectorize", call)


def _sort(it, v, axis=-1, **k):
    s = asarr(it, v)
    if not has_sym(s):
        return norm_or_wrap(np.sort(concrete(s), axis=axis if axis is not None else None))
    if axis is None:
        xs = list(obj(s).reshape(-1))
    elif s.a.ndim == 1:
        xs = list(obj(s))
    else:
        raise Undecided("sort of a symbolic matrix")
    if len(xs) > 48:
        raise Undecided("sort symbolic")
    for i in range(len(xs)):            # exchange network
        for j in range(len(xs) - 1 - i):
            lo, hi = X.lower(X.min_(xs[j], xs[j + 1])), X.lower(X.max_(xs[j], xs[j + 1]))
            xs[j], xs[j + 1] = lo, hi
    return out(it, _objarr(xs), s.kind)


NATIVE = {
    "functools.partial": _partial, "functools.wraps": _ident, "functools.lru_cache": _lru, "functools.cache": _lru,
    "operator.itemgetter": _itemgetter, "operator.attrgetter": _attrgetter, "operator.methodcaller": _methodcaller,
    "operator.add": _bin("Add"), "operator.sub": _bin("Sub"), "operator.mul": _bin("Mult"), "operator.truediv": _bin("Div"),
    "operator.floordiv": _bin("FloorDiv"), "operator.mod": _bin("Mod"), "operator.pow": _bin("Pow"), "operator.matmul": _bin("MatMult"),
    "operator.and_": _bin("BitAnd"), "operator.or_": _bin("BitOr"), "operator.xor": _bin("BitXor"),
    "operator.lt": _cmp("Lt"), "operator.le": _cmp("LtE"), "operator.gt": _cmp("Gt"), "operator.ge": _cmp("GtE"),
    "operator.eq": _cmp("Eq"), "operator.ne": _cmp("NotEq"), "operator.is_": _cmp("Is"), "operator.is_not": _cmp("IsNot"),
    "operator.contains": lambda it, a, b_: it.compare("In", b_, a), "operator.getitem": lambda it, a, b_: it.getitem(a, b_),
    "operator.setitem": lambda it, a, b_, c: it.setitem(a, b_, c),
    "operator.neg": lambda it, a: unary(it, "neg", a), "operator.pos": lambda it, a: a, "operator.abs": lambda it, a: unary(it, "abs", a),
    "itertools.combinations": _combin("combinations"), "itertools.permutations": _combin("permutations"),
    "itertools.combinations_with_replacement": _combin("combinations_with_replacement"),
    "collections.namedtuple": _namedtuple, "collections.defaultdict": _defaultdict, "collections.Counter": _counter,
    "collections.deque": lambda it, xs=(), maxlen=None: Deque(it.iterate(xs)),
    "numpy.vectorize": _vectorize, "numpy.sort": _sort, "numpy.size": lambda it, v, axis=None: int(asarr(it, v).size) if axis is None else int(asarr(it, v).shape[axis]),
}


# ---------------------------------------------------------------- scipy.sparse
def sp_from_dense(it, a, fmt):
    s = asarr(it, a)
    o = obj(s)
    if o.ndim == 1:
        o = o.reshape(1, -1)
    pat = np.array([[isinstance(x, E) or x != 0 for x in r] for r in o], dtype=bool).reshape(o.shape)
    if any(isinstance(x, E) for x in o.reshape(-1)):
        it.sparse_values = True         # the stored pattern depends on values being exactly zero
    r = o.copy()
    return Sparse(_floatify(r), pat, fmt)


def sparse_call(it, n, args, kw):
    name = n.rsplit(".", 1)[1]
    if name in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array"):
        fmt = name[:3]
        a = args[0]
        shape = kw.get("shape", args[1] if len(args) > 1 else None)
        if isinstance(a, Sparse):
            return Sparse(a.a.copy(), a.pat.copy(), fmt)
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], (tuple, list)):
            data, (ri, ci) = a
            d = asarr(it, data)
            r, c = concrete(asarr(it, ri)).astype(int), concrete(asarr(it, ci)).astype(int)
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            shape = tuple(int(x) for x in shape)
            m = np.empty(shape, dtype=object)
            m[...] = 0.0
            pat = np.zeros(shape, dtype=bool)
            for x, i, j in zip(obj(d).reshape(-1), r.reshape(-1), c.reshape(-1)):
                m[i, j] = X.add(m[i, j], x if isinstance(x, E) else float(x))
                pat[i, j] = True
            return Sparse(m, pat, fmt)
        if isinstance(a, tuple) and all(isinstance(x, int) for x in a):
            m = np.empty(a, dtype=object)
            m[...] = 0.0
            return Sparse(m, np.zeros(a, dtype=bool), fmt)
        return sp_from_dense(it, a, fmt)
    if name == "diags":
        diags, offs = args[0], (args[1] if len(args) > 1 else kw.get("offsets", 0))
        shape = kw.get("shape", args[2] if len(args) > 2 else None)
        if isinstance(offs, int):
            offs, diags = [offs], [diags]
            if isinstance(diags[0], (list, tuple)) and len(diags[0]) == 1 and isinstance(diags[0][0], (list, tuple, SArr)):
                diags = diags[0]
        offs = list(concrete(asarr(it, offs))) if not isinstance(offs, (list, tuple)) else list(offs)
        ds = [asarr(it, d) for d in it.iterate(diags)]
        if shape is None:
            m_ = ds[0].size + abs(offs[0])
            shape = (m_, m_)
        m = np.empty(shape, dtype=object)
        m[...] = 0.0
        pat = np.zeros(shape, dtype=bool)
        for d, k in zip(ds, offs):
            k = int(k)
            v = obj(d).reshape(-1)
            L = min(shape[0] + min(k, 0), shape[1] - max(k, 0))
            if L < 0:
                _raise(it, "ValueError", f"Offset {k} (index 0) out of bounds")
            if v.size != 1 and v.size < L:
                _raise(it, "ValueError", "diags length")
            for i in range(L):
                m[i + max(0, -k), i + max(0, k)] = v[0] if v.size == 1 else v[i]
                pat[i + max(0, -k), i + max(0, k)] = True
        return Sparse(_floatify(m), pat, kw.get("format") or "dia")
    if name in ("eye", "identity"):
        a = np.eye(*[int(x) for x in args[:2]], k=kw.get("k", 0))
        return Sparse(_floatify(a.astype(object)), a != 0, "dia")
    if name in ("bmat", "hstack", "vstack", "block_diag"):
        if name == "bmat":
            rows = [it.iterate(r) for r in it.iterate(args[0])]
        elif name == "hstack":
            rows = [it.iterate(args[0])]
        elif name == "vstack":
            rows = [[x] for x in it.iterate(args[0])]
        else:
            blocks = [_tosp(it, x) for x in it.iterate(args[0])]
            R = sum(b.shape[0] for b in blocks)
            C = sum(b.shape[1] for b in blocks)
            m = np.empty((R, C), dtype=object)
            m[...] = 0.0
            pat = np.zeros((R, C), dtype=bool)
            r = c = 0
            for b_ in blocks:
                m[r:r + b_.shape[0], c:c + b_.shape[1]] = b_.a
                pat[r:r + b_.shape[0], c:c + b_.shape[1]] = b_.pat
                r += b_.shape[0]
                c += b_.shape[1]
            return Sparse(m, pat, "coo")
        nr, nc = len(rows), len(rows[0])
        hs, ws = [None] * nr, [None] * nc
        B = [[None if x is None else _tosp(it, x) for x in r] for r in rows]
        for i in range(nr):
            for j in range(nc):
                x = B[i][j]
                if x is not None:
                    for arr, k, s in ((hs, i, x.shape[0]), (ws, j, x.shape[1])):
                        if arr[k] is None:
                            arr[k] = s
                        elif arr[k] != s:
                            _raise(it, "ValueError", "bmat blocks incompatible")
        if None in hs or None in ws:
            _raise(it, "ValueError", "bmat empty row/column")
        m = np.empty((sum(hs), sum(ws)), dtype=object)
        m[...] = 0.0
        pat = np.zeros(m.shape, dtype=bool)
        r = 0
        for i in range(nr):
            c = 0
            for j in range(nc):
                x = B[i][j]
                if x is not None:
                    m[r:r + hs[i], c:c + ws[j]] = x.a
                    pat[r:r + hs[i], c:c + ws[j]] = x.pat
                c += ws[j]
            r += hs[i]
        return Sparse(m, pat, "coo")
    if name == "inv":
        a = _tosp(it, args[0])
        try:
            c = np.array(a.a.tolist(), dtype=float)
        except TypeError:
            raise Undecided("symbolic sparse inverse")
        r = np.linalg.inv(c)
        r[np.abs(r) < 1e-14] = 0.0
        return Sparse(_floatify(r.astype(object)), r != 0, "csc")
    if name == "issparse":
        return isinstance(args[0], Sparse)
    raise Undecided(f"scipy.sparse.{name}")


def _tosp(it, x):
    if isinstance(x, Sparse):
        return x
    return sp_from_dense(it, x, "coo")


def _spdot(A, B):
    """dense object product with exact pattern"""
    m, n = A.shape[0], B.shape[1]
    r = np.empty((m, n), dtype=object)
    r[...] = 0.0
    pat = np.zeros((m, n), dtype=bool)
    for i in range(m):
        ks = np.nonzero(A.pat[i])[0]
        for k in ks:
            x = A.a[i, k]
            for j in np.nonzero(B.pat[k])[0]:
                r[i, j] = X.add(r[i, j], X.mul(x, B.a[k, j]))
                pat[i, j] = True
    return r, pat


def sparse_binop(it, op, a, b):
    if op == "MatMult" or op == "Mult":
        if isinstance(a, Sparse) and isinstance(b, Sparse):
            if a.shape[1] != b.shape[0]:
                _raise(it, "ValueError", "dimension mismatch")
            r, pat = _spdot(a, b)
            return Sparse(r, pat, "csr")
        if isinstance(a, Sparse) and (is_scalar(b) or isinstance(b, SArr) and b.size == 1 and b.a.ndim == 0) and op == "Mult":
            return Sparse(np.frompyfunc(lambda x: X.mul(x, norm_elem(b)), 1, 1)(a.a), a.pat, a.fmt)
        if isinstance(b, Sparse) and is_scalar(a) and op == "Mult":
            return sparse_binop(it, op, b, a)
        if isinstance(a, Sparse):
            s = asarr(it, b)
            if s.size == 1 and op == "Mult" and a.shape[1] != s.shape[0]:
                _raise(it, "ValueError", "dimension mismatch")
            o = obj(s)
            vec = o.ndim == 1
            if (o.shape[0] if o.ndim else 0) != a.shape[1]:
                _raise(it, "ValueError", "dimension mismatch")
            o2 = o.reshape(-1, 1) if vec else o
            r, pat = _spdot(a, Sparse(o2, np.ones(o2.shape, dtype=bool), "d"))
            return SArr(_floatify(r.reshape(-1) if vec else r), "c" if s.kind == "c" else "f")
        if isinstance(b, Sparse):
            s = asarr(it, a)
            bt = Sparse(b.a.T, b.pat.T, b.fmt)
            o = obj(s)
            r = sparse_binop(it, op, bt, SArr(o.T if o.ndim > 1 else o, s.kind))
            return SArr(r.a.T, r.kind)
    if op in ("Add", "Sub") and isinstance(a, Sparse) and isinstance(b, Sparse):
        if a.shape != b.shape:
            _raise(it, "ValueError", "inconsistent shapes")
        f = X.add if op == "Add" else X.sub
        return Sparse(np.frompyfunc(f, 2, 1)(a.a, b.a), a.pat | b.pat, "csr")
    if op in ("Add", "Sub") and (isinstance(a, SArr) or isinstance(b, SArr)):
        da = SArr(a.a, "f") if isinstance(a, Sparse) else a
        db = SArr(b.a, "f") if isinstance(b, Sparse) else b
        return binop(it, op, da, db)
    if op == "Div" and isinstance(a, Sparse) and is_scalar(b):
        return Sparse(np.frompyfunc(lambda x: X.div(x, norm_elem(b)), 1, 1)(a.a), a.pat, a.fmt)
    if op == "Div" and isinstance(a, Sparse) and isinstance(b, SArr) and b.size == 1:
        return sparse_binop(it, op, a, norm_elem(b.a.reshape(-1)[0]))
    raise Undecided(f"sparse {op}")


def sparse_sum(it, v, ax):
    return SUM(it, SArr(v.a, "f"), axis=ax) if ax is not None else SUM(it, SArr(v.a, "f"))


def sparse_attr(it, o, name):
    if name == "shape":
        return tuple(int(x) for x in o.a.shape)
    if name == "T":
        return Sparse(o.a.T, o.pat.T, o.fmt)
    if name in ("transpose",):
        return NativeFn(name, lambda it, *a: Sparse(o.a.T, o.pat.T, o.fmt))
    if name in ("toarray", "todense"):
        return NativeFn(name, lambda it, *a: SArr(o.a.copy(), "f"))
    if name in ("tocsr", "tocsc", "tocoo", "tolil"):
        return NativeFn(name, lambda it, *a: Sparse(o.a.copy(), o.pat.copy(), name[2:]))
    if name == "asformat":
        return NativeFn(name, lambda it, f, *a: Sparse(o.a.copy(), o.pat.copy(), f))
    if name == "copy":
        return NativeFn(name, lambda it: Sparse(o.a.copy(), o.pat.copy(), o.fmt))
    if name == "dot":
        return NativeFn(name, lambda it, x: sparse_binop(it, "MatMult" if not is_scalar(x) else "Mult", o, x))
    if name == "multiply":
        def mult(it, x):
            if isinstance(x, Sparse):
                return Sparse(np.frompyfunc(X.mul, 2, 1)(o.a, x.a), o.pat & x.pat, "csr")
            s = asarr(it, x)
            return Sparse(np.frompyfunc(X.mul, 2, 1)(o.a, obj(s)), o.pat.copy(), "csr")
        return NativeFn(name, mult)
    if name == "getrow":
        def getrow(it, i):
            r = range(o.a.shape[0])[i]
            return Sparse(o.a[r:r + 1].copy(), o.pat[r:r + 1].copy(), "csr")
        return NativeFn(name, getrow)
    if name == "getcol":
        def getcol(it, i):
            r = range(o.a.shape[1])[i]
            return Sparse(o.a[:, r:r + 1].copy(), o.pat[:, r:r + 1].copy(), "csr")
        return NativeFn(name, getcol)
    if name == "nonzero":
        def nonzero(it):
            # scipy drops explicitly stored zeros
            nz = np.array([[bool(p) and (isinstance(x, E) or x != 0) for x, p in zip(r, pr)] for r, pr in zip(o.a, o.pat)], dtype=bool).reshape(o.a.shape)
            r, c = np.nonzero(nz)
            return (wrap(r.astype(np.int64)), wrap(c.astype(np.int64)))
        return NativeFn(name, nonzero)
    if name == "data":
        idx = np.argwhere(o.pat if o.fmt != "csc" else o.pat.T)
        vals = np.empty(len(idx), dtype=object)
        for k, (i, j) in enumerate(idx):
            vals[k] = o.a[i, j] if o.fmt != "csc" else o.a[j, i]
        s = SArr(vals, "f")
        return s
    if name == "indices":
        idx = np.argwhere(o.pat if o.fmt != "csc" else o.pat.T)
        return wrap(idx[:, 1].astype(np.int64))
    if name in ("row", "col"):
        idx = np.argwhere(o.pat)
        return wrap(idx[:, 0 if name == "row" else 1].astype(np.int64))
    if name == "nnz":
        return int(o.pat.sum())
    if name in ("sum",):
        return NativeFn(name, lambda it, axis=None: sparse_sum(it, o, axis))
    if name == "diagonal":
        return NativeFn(name, lambda it, k=0: SArr(np.diagonal(o.a, k).copy(), "f"))
    if name == "eliminate_zeros":
        return NativeFn(name, lambda it: None)
    if name == "power":
        return NativeFn(name, lambda it, n: Sparse(np.frompyfunc(lambda x: X.pow_(x, n), 1, 1)(o.a), o.pat.copy(), o.fmt))
    raise Undecided(f"sparse.{name}")


def sparse_getitem(it, o, i):
    j = idx_conv(it, i)
    if isinstance(j, tuple) and len(j) == 2:
        if all(isinstance(x, (int, np.integer)) for x in j):
            return norm_elem(o.a[j])
        r = o.a[j]
        p = o.pat[j]
        if r.ndim == 1 and not (isinstance(j[0], np.ndarray) and isinstance(j[1], np.ndarray)):
            if isinstance(j[0], (int, np.integer)):
                r, p = r.reshape(1, -1), p.reshape(1, -1)
            else:
                r, p = r.reshape(-1, 1), p.reshape(-1, 1)
        elif r.ndim == 1:
            return SArr(r.reshape(1, -1).copy(), "f")
        return Sparse(r.copy(), p.copy(), o.fmt)
    if isinstance(j, (int, np.integer)):
        j = slice(j, j + 1 if j != -1 else None)
    return Sparse(o.a[j].copy(), o.pat[j].copy(), o.fmt)


def sparse_store(it, o, i, v):
    j = idx_conv(it, i)
    it.touch(o.a)
    it.touch(o.pat)
    if isinstance(v, Sparse):
        o.a[j] = v.a
        o.pat[j] = v.pat
        return
    s = asarr(it, v)
    if isinstance(j, (int, np.integer)):
        j = (slice(j, j + 1 if j != -1 else None), slice(None))
    if s.a.ndim == 0:
        o.a[j] = norm_elem(s.a[()])
    else:
        o.a[j] = obj(s)
    o.pat[j] = True
