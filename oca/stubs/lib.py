"""Definitions of library functions in the interpreted subset (numpy, itertools, functools, operator, math).

The abstract interpreter looks a library function up here by its dotted name (dots written __) when it has no
built-in model of it.
"""
import math
import numpy as np


# ---------------------------------------------------------------- ufunc methods
def _fold(f, xs, init):
    k = 0
    if init is None:
        if len(xs) == 0:
            raise ValueError("reduction of an empty sequence")
        init = xs[0]
        k = 1
    for x in xs[k:]:
        init = f(init, x)
    return init


def ufunc_reduce(f, a, axis=0, initial=None, **kw):
    a = np.asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if isinstance(axis, tuple):
        for ax in sorted(axis, reverse=True):
            a = ufunc_reduce(f, a, axis=ax, initial=initial)
            initial = None
        return a
    a = np.moveaxis(a, axis, 0)
    if len(a) == 0 and initial is None:
        if f is np.add:
            initial = np.zeros(a.shape[1:])
        elif f is np.multiply:
            initial = np.ones(a.shape[1:])
    return _fold(f, [a[i] for i in range(a.shape[0])], initial)


def ufunc_accumulate(f, a, axis=0):
    a = np.asarray(a)
    if axis != 0:
        return np.moveaxis(ufunc_accumulate(f, np.moveaxis(a, axis, 0)), 0, axis)
    out = []
    for i in range(a.shape[0]):
        out.append(a[i] if i == 0 else f(out[-1], a[i]))
    return np.array(out)


def ufunc_outer(f, a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return f(a.reshape(a.shape + (1,) * b.ndim), b)


def ufunc_at(f, a, idx, b=None):
    idx = np.asarray(idx).ravel()
    if b is None:
        for i in idx:
            a[i] = f(a[i])
        return None
    b = np.broadcast_to(b, idx.shape)
    for k in range(len(idx)):
        a[idx[k]] = f(a[idx[k]], b[k])


# ---------------------------------------------------------------- numpy
def numpy__rint(x):
    return np.round(x)


def numpy__array_equal(a, b, equal_nan=False):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    return np.all(a == b)


def numpy__array_equiv(a, b):
    return np.all(np.asarray(a) == np.asarray(b))


def numpy__allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np.all(np.isclose(a, b, rtol, atol))


def numpy__heaviside(x, h):
    return np.where(x < 0, 0.0, np.where(x > 0, 1.0, h))


def numpy__isinf(x):
    return np.logical_or(np.asarray(x) == np.inf, np.asarray(x) == -np.inf)


def numpy__isfinite(x):
    return np.logical_not(np.logical_or(np.isnan(x), np.isinf(x)))


def numpy__logical_xor(a, b):
    return np.logical_or(np.logical_and(a, np.logical_not(b)), np.logical_and(np.logical_not(a), b))


def numpy__piecewise(x, condlist, funclist, *args, **kw):
    x = np.asarray(x)
    if not isinstance(condlist, (list, tuple)) or len(np.shape(condlist)) <= np.ndim(x):
        condlist = [condlist]
    conds = [np.asarray(c) for c in condlist]
    funcs = list(funclist)
    if len(funcs) == len(conds) + 1:
        default = funcs.pop()
    elif len(funcs) == len(conds):
        default = 0.0
    else:
        raise ValueError("with n condition(s), either n or n+1 functions are expected")
    out = default(x, *args, **kw) if callable(default) else default
    for c, f in zip(conds, funcs):
        out = np.where(c, f(x, *args, **kw) if callable(f) else f, out)
    return out * np.ones(x.shape) if np.shape(out) != x.shape else out


def numpy__polyval(p, x):
    r = np.zeros(np.shape(x))
    for c in p:
        r = r * x + c
    return r if np.ndim(x) else r[()]


def numpy__polynomial__polynomial__polyval(x, c, tensor=True):
    return numpy__polyval(list(c)[::-1], x)


def numpy__polynomial__polyval(x, c, tensor=True):
    return numpy__polyval(list(c)[::-1], x)


def numpy__polyder(p, m=1):
    p = list(p)
    for _ in range(m):
        n = len(p) - 1
        p = [c * (n - i) for i, c in enumerate(p[:-1])]
    return np.array(p)


def numpy__select(condlist, choicelist, default=0.0):
    if len(condlist) != len(choicelist):
        raise ValueError("list of cases must be same length as list of conditions")
    out = default
    for c, v in zip(reversed(list(condlist)), reversed(list(choicelist))):
        out = np.where(c, v, out)
    return out


def numpy__choose(a, choices, **kw):
    out = choices[-1]
    for k in range(len(choices) - 2, -1, -1):
        out = np.where(np.asarray(a) == k, choices[k], out)
    return out


def numpy__average(a, axis=None, weights=None, keepdims=False, returned=False):
    a = np.asarray(a)
    if weights is None:
        r = np.mean(a, axis=axis)
        w = 1.0 * (a.size if axis is None else a.shape[axis])
    else:
        weights = np.asarray(weights)
        if weights.shape != a.shape and axis is not None:
            weights = np.moveaxis(np.broadcast_to(weights, a.shape[:axis] + a.shape[axis + 1:] + (a.shape[axis],)), -1, axis)
        w = np.sum(weights, axis=axis)
        r = np.sum(a * weights, axis=axis) / w
    return (r, w) if returned else r


def numpy__trunc(x):
    return np.where(np.asarray(x) < 0, np.ceil(x), np.floor(x))


def numpy__fix(x):
    return numpy__trunc(x)


def numpy__exp2(x):
    return 2.0 ** x


def numpy__positive(x):
    return np.array(x)


def numpy__nansum(a, axis=None, **kw):
    return np.sum(np.where(np.isnan(a), 0.0, a), axis=axis, **kw)


def numpy__cumprod(a, axis=None):
    a = np.asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.multiply.accumulate(a, axis=axis)


def numpy__kron(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np.outer(a, b).ravel()
    if a.ndim == 2 and b.ndim == 2:
        r = a[:, None, :, None] * b[None, :, None, :]
        return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
    raise NotImplementedError("kron")


def numpy__cross(a, b, axis=-1):
    a = np.moveaxis(np.asarray(a), axis, -1)
    b = np.moveaxis(np.asarray(b), axis, -1)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = np.stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], axis=-1)
    return np.moveaxis(r, -1, axis)


def numpy__vdot(a, b):
    return np.dot(np.ravel(a), np.ravel(b))


def numpy__tensordot(a, b, axes=2):
    a = np.asarray(a)
    b = np.asarray(b)
    if not isinstance(axes, int):
        raise NotImplementedError("tensordot axes")
    if axes == 0:
        return np.multiply.outer(a, b)
    n = 1
    for s in a.shape[a.ndim - axes:]:
        n = n * s
    r = np.dot(a.reshape(-1, n), b.reshape(n, -1))
    return r.reshape(a.shape[:a.ndim - axes] + b.shape[axes:])


def numpy__trace(a, offset=0):
    return np.sum(np.diag(a, offset))


def numpy__diagonal(a, offset=0):
    return np.diag(a, offset)


def numpy__argmax(a, axis=None):
    a = np.asarray(a)
    if axis is not None and a.ndim != 1:
        a = np.moveaxis(a, axis, 0)
        return np.array([numpy__argmax(a.reshape(a.shape[0], -1)[:, k]) for k in range(a[0].size)]).reshape(a.shape[1:])
    a = a.ravel()
    best, k = a[0], 0
    for i in range(1, len(a)):
        k = np.where(a[i] > best, i, k)[()]
        best = np.maximum(best, a[i])
    return k


def numpy__argmin(a, axis=None):
    return numpy__argmax(-np.asarray(a), axis)


def numpy__var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = np.asarray(a)
    m = np.mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return np.sum((a - m) ** 2, axis=axis, keepdims=keepdims) / (n - ddof)


def numpy__std(a, axis=None, ddof=0, keepdims=False, **kw):
    return np.sqrt(numpy__var(a, axis, ddof, keepdims))


def numpy__ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def numpy__median(a):
    s = np.sort(np.ravel(a))
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def numpy__fromiter(it, dtype=None, count=-1):
    return np.array(list(it), dtype=dtype)


def numpy__fill_diagonal(a, v):
    n = min(a.shape)
    v = np.broadcast_to(np.ravel(v), (n,)) if np.size(v) in (1, n) else np.resize(v, n)
    for i in range(n):
        a[i, i] = v[i]


def numpy__put(a, idx, v):
    idx = np.ravel(idx)
    v = np.ravel(v)
    f = a.reshape(-1)
    for k in range(len(idx)):
        f[idx[k]] = v[k % len(v)]


def numpy__putmask(a, mask, v):
    a[...] = np.where(mask, v, a)


def numpy__place(a, mask, v):
    if np.size(v) != 1:
        raise NotImplementedError("place")
    a[...] = np.where(mask, np.ravel(v)[0], a)


def numpy__take(a, idx, axis=None, **kw):
    a = np.asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if isinstance(idx, int):
        return np.moveaxis(a, axis, 0)[idx]
    return np.moveaxis(np.moveaxis(a, axis, 0)[np.asarray(idx)], 0, axis)


def numpy__broadcast_arrays(*xs):
    sh = (sum([np.zeros(np.shape(x)) for x in xs], 0.0) + 0.0)
    return [np.broadcast_to(x, np.shape(sh)) for x in xs]


def numpy__block(xs):
    if not isinstance(xs, list):
        return np.asarray(xs)
    if all(not isinstance(x, list) for x in xs):
        nd = max([np.ndim(x) for x in xs])
        return np.concatenate([np.atleast_1d(x) if nd < 2 else np.atleast_2d(x) for x in xs], axis=-1)
    return np.concatenate([np.atleast_2d(numpy__block(x)) for x in xs], axis=0)


def numpy__ediff1d(a, to_end=None, to_begin=None):
    d = np.diff(np.ravel(a))
    if to_begin is not None:
        d = np.concatenate([np.ravel(to_begin), d])
    if to_end is not None:
        d = np.concatenate([d, np.ravel(to_end)])
    return d


def numpy__gradient(f, *h, axis=None, edge_order=1):
    f = np.asarray(f)
    if f.ndim != 1 or edge_order != 1 or len(h) > 1:
        raise NotImplementedError("gradient")
    n = len(f)
    x = np.arange(n) * (h[0] if h else 1.0) if not h or np.ndim(h[0]) == 0 else np.asarray(h[0])
    out = [(f[1] - f[0]) / (x[1] - x[0])]
    for i in range(1, n - 1):
        hd, hs = x[i + 1] - x[i], x[i] - x[i - 1]
        out.append((hs**2 * f[i + 1] + (hd**2 - hs**2) * f[i] - hd**2 * f[i - 1]) / (hs * hd * (hd + hs)))
    out.append((f[-1] - f[-2]) / (x[-1] - x[-2]))
    return np.array(out)


def numpy__searchsorted(a, v, side="left", sorter=None):
    if side == "left":
        return sum([np.where(np.asarray(x) < v, 1, 0) for x in a])
    return sum([np.where(np.asarray(x) <= v, 1, 0) for x in a])


def numpy__digitize(x, bins, right=False):
    inc = bins[len(bins) - 1] >= bins[0]
    if inc:
        return sum([np.where(np.asarray(x) > b if right else np.asarray(x) >= b, 1, 0) for b in bins])
    return sum([np.where(np.asarray(x) <= b if right else np.asarray(x) < b, 1, 0) for b in bins])


def numpy__linalg__inv(a):
    return np.linalg.solve(a, np.eye(np.shape(a)[0]))


def numpy__linalg__det(a):
    a = np.asarray(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n > 5:
        raise NotImplementedError("det")
    r = 0.0
    for j in range(n):
        minor = np.array([[a[i, k] for k in range(n) if k != j] for i in range(1, n)])
        r = r + (-1.0) ** j * a[0, j] * numpy__linalg__det(minor)
    return r


def numpy__linalg__multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = np.dot(r, x)
    return r


def numpy__floor_divide(a, b):
    return a // b


def numpy__remainder(a, b):
    return a % b


def numpy__fmod(a, b):
    q = np.asarray(a) / b
    return a - b * numpy__trunc(q)


def numpy__divmod(a, b):
    return a // b, a % b


def numpy__vander(x, N=None, increasing=False):
    N = len(x) if N is None else N
    cols = [x ** k for k in range(N)]
    if not increasing:
        cols = cols[::-1]
    return np.stack([c * np.ones(len(x)) for c in cols], axis=-1)


def numpy__copysign(a, b):
    return np.where(np.asarray(b) < 0, -np.abs(a), np.abs(a))


def numpy__signbit(a):
    return np.asarray(a) < 0


def numpy__extract(c, a):
    return np.ravel(a)[np.ravel(c)]


def numpy__logaddexp(a, b):
    return np.log(np.exp(a) + np.exp(b))


def numpy__trapezoid(y, x=None, dx=1.0, axis=-1):
    return np.trapz(y, x=x, dx=dx, axis=axis)


def numpy__convolve(a, v, mode="full"):
    a = np.ravel(a)
    v = np.ravel(v)
    n, m = len(a), len(v)
    full = [sum([a[j] * v[k - j] for j in range(n) if 0 <= k - j < m]) for k in range(n + m - 1)]
    if mode == "full":
        return np.array(full)
    if mode == "valid":
        lo = min(n, m) - 1
        return np.array(full[lo:lo + max(n, m) - min(n, m) + 1])
    lo = (min(n, m) - 1) // 2
    return np.array(full[lo:lo + max(n, m)])


def numpy__apply_along_axis(f, axis, a, *args, **kw):
    a = np.moveaxis(np.asarray(a), axis, -1)
    rows = a.reshape(-1, a.shape[-1])
    out = [np.asarray(f(rows[i], *args, **kw)) for i in range(rows.shape[0])]
    r = np.array(out).reshape(a.shape[:-1] + out[0].shape)
    return r if out[0].ndim == 0 else np.moveaxis(r, -1, axis)


def numpy__cov(*a, **k):
    raise NotImplementedError("cov")


def numpy__sinc(x):
    x = np.asarray(x)
    y = np.pi * np.where(x == 0, 1.0e-20, x)
    return np.sin(y) / y


def numpy__iterable(x):
    return hasattr(x, "__iter__") or isinstance(x, (list, tuple, dict, str, np.ndarray))


class _Index:
    def __init__(self, kind):
        self.kind = kind

    def __getitem__(self, key):
        if self.kind == "s":
            return key
        parts = []
        for p in key if isinstance(key, tuple) else (key,):
            if isinstance(p, slice):
                raise NotImplementedError("slice in r_")
            parts.append(p)
        if self.kind == "c":
            return np.column_stack([np.atleast_1d(p) for p in parts])
        return np.concatenate([np.atleast_1d(p) for p in parts])


numpy__r_ = _Index("r")
numpy__c_ = _Index("c")
numpy__s_ = _Index("s")
numpy__index_exp = _Index("s")


# ---------------------------------------------------------------- math
def math__hypot(*xs):
    return math.sqrt(sum([x * x for x in xs]))


def math__dist(a, b):
    return math.sqrt(sum([(x - y) ** 2 for x, y in zip(a, b)]))


def math__fsum(xs):
    return sum(list(xs), 0.0)


def math__prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def math__exp2(x):
    return 2.0 ** x


def math__cbrt(x):
    return np.cbrt(x)


def math__log2(x):
    return math.log(x) / math.log(2.0)


def math__copysign(a, b):
    return -abs(a) if b < 0 else abs(a)


def math__isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def math__fmod(a, b):
    return np.fmod(a, b)


def math__isfinite(x):
    return np.isfinite(x)


def math__isinf(x):
    return np.isinf(x)


def math__trunc(x):
    return numpy__trunc(x)[()]


# ---------------------------------------------------------------- functools, itertools, operator
def functools__reduce(f, xs, *init):
    xs = list(xs)
    if init:
        r = init[0]
    else:
        if not xs:
            raise TypeError("reduce() of empty iterable with no initial value")
        r = xs.pop(0)
    for x in xs:
        r = f(r, x)
    return r


def itertools__chain(*xs):
    for x in xs:
        yield from x


def itertools__chain__from_iterable(xs):
    for x in xs:
        yield from x


def itertools__zip_longest(*xs, fillvalue=None):
    xs = [list(x) for x in xs]
    n = max([len(x) for x in xs], default=0)
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in xs])


def itertools__accumulate(xs, func=None, initial=None):
    xs = list(xs)
    if initial is not None:
        xs.insert(0, initial)
    r = None
    for i, x in enumerate(xs):
        if i == 0:
            r = x
        else:
            r = r + x if func is None else func(r, x)
        yield r


def itertools__count(start=0, step=1):
    for i in range(400):
        yield start + i * step


def itertools__islice(xs, *a):
    xs = list(xs)
    return iter(xs[slice(*a)])


def itertools__repeat(x, times=400):
    return iter([x] * times)


def itertools__cycle(xs):
    xs = list(xs)
    return iter(xs * (400 // max(len(xs), 1)))


def itertools__starmap(f, xs):
    for x in xs:
        yield f(*x)


def itertools__takewhile(f, xs):
    for x in xs:
        if not f(x):
            break
        yield x


def itertools__dropwhile(f, xs):
    on = False
    for x in xs:
        if not on and f(x):
            continue
        on = True
        yield x


def itertools__pairwise(xs):
    xs = list(xs)
    for i in range(len(xs) - 1):
        yield (xs[i], xs[i + 1])


def itertools__compress(xs, sel):
    for x, s in zip(xs, sel):
        if s:
            yield x


def itertools__groupby(xs, key=None):
    cur, ks = [], []
    for x in xs:
        k = x if key is None else key(x)
        if ks and ks[-1] == k:
            cur[-1].append(x)
        else:
            ks.append(k)
            cur.append([x])
    for k, g in zip(ks, cur):
        yield k, iter(g)


def itertools__tee(xs, n=2):
    xs = list(xs)
    return tuple([iter(xs) for _ in range(n)])


def operator__iadd(a, b):
    a += b
    return a


def operator__not_(a):
    return not a


def operator__truth(a):
    return bool(a)


def operator__inv(a):
    return ~a


# ---------------------------------------------------------------- contextlib
class contextlib__suppress:
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return v is not None and isinstance(v, self.excs)


class contextlib__nullcontext:
    def __init__(self, v=None):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, t, v, tb):
        return False


class contextlib__ExitStack:
    def __init__(self):
        raise NotImplementedError("ExitStack")
