import numpy as np, math, itertools, functools, operator, collections, contextlib
from functools import partial, reduce
from dataclasses import dataclass, field
from typing import NamedTuple
from enum import Enum, IntEnum

def t_mutdef(x):
    def f(v, acc=[]):
        acc.append(v); return len(acc)
    f(1); f(2); return f(3) * x
def t_view_T(x):
    a = np.zeros((3, 2)); b = a.T; b[0] = x; return a[:, 0]
def t_view_ravel(x):
    a = np.zeros((3, 2)); a.ravel()[0] = 5.0; return a[0, 0] * x
def t_view_reshape(x):
    a = np.zeros(6); a.reshape(2, 3)[1] = x; return a
def t_flatten_copy(x):
    a = np.zeros((3, 1)); a.flatten()[:] = x; return a.ravel()
def t_array_copy(x):
    y = np.array(x); y[0] = 9; return x + y
def t_asarray_alias(x):
    b = x.copy(); y = np.asarray(b); y[0] = 9; return b
def t_overlap(x):
    a = x.copy(); a[:] = a[::-1]; return a
def t_overlap2(x):
    a = x.copy(); a[1:] += a[:-1]; return a
def t_inttrunc(x):
    a = np.array([1, 2, 3]); a[0] = 2.7; return a * x
def t_intdtype(x):
    a = np.zeros(3, dtype=int); a[:] = [1.9, 2.2, 3.5]; return a * x
def t_intpow(x): return np.array([2, 3]) ** 2 * x[:2] + (-7) // 2 + (-7) % 3
def t_boolarith(x): return (x > 1) * 2 + (x > 0.5) * x + np.sum(x > 1) + True
def t_bcast(x): return (x + x.reshape(3, 1)).ravel()
def t_neg_step(x): return x[::-2] + x[2:0:-1]
def t_late(x):
    fs = [lambda: k for k in range(3)]; return sum(f() for f in fs) * x
def t_chainassign(x):
    a = b = np.zeros(3); a += x; return b
def t_chainlist(x):
    a = b = [1]; a += [2]; return len(b) * x
def t_swap(x):
    a = x.copy(); a[0], a[2] = a[2], a[0]; return a
def t_swaprow(x):
    a = np.outer(x, [1.0, 2.0]); a[[0, 1]] = a[[1, 0]]; return a.ravel()
def t_defeval(x):
    k = 2
    def f(a=k): return a
    k = 5
    return f() * x
class A:
    shared = []
    n = 0
    def add(self, v): self.shared.append(v); self.n += 1; return self
def t_shared(x):
    A.shared = []
    A().add(1); a = A().add(2); return len(A.shared) * x + a.n + A.n
def t_tryret(x):
    def f():
        try: return 1
        finally: pass
    return f() * x
def t_tryfin(x):
    r = []
    def f():
        try: r.append(1); return 5
        finally: r.append(2)
    return (f() + sum(r)) * x
def t_tryelse(x):
    s = 0
    for k in range(3):
        try:
            if k == 1: raise ValueError("a")
        except ValueError as e: s += 10
        else: s += 1
    return s * x
def t_exccls(x):
    class My(ValueError):
        def __init__(self, v): super().__init__(v); self.v = v
    try: raise My(3)
    except ValueError as e: return e.v * x
def t_excargs(x):
    try: raise KeyError("k", 2)
    except Exception as e: return len(e.args) * x
def t_forelse(x):
    for k in range(3):
        if k == 1: break
    else: return x * 0
    return x * k
def t_whileelse(x):
    k = 3
    while k: k -= 1
    else: k = 7
    return k * x
def t_nestbreak(x):
    s = 0
    for i in range(3):
        for j in range(3):
            if j > i: break
            s += x[j]
        else: s += 100
    return s
def t_symnest(x):
    s = 0.0
    for i in range(3):
        for j in range(3):
            if x[j] > 2 * x[i]: break
            s += x[j]
        if s > 5: return s * 2
    return s
def t_symif_assign(x):
    if x[0] > 1: a, b = x[1], 2.0
    else: a, b = 3.0, x[2]
    return a * b
def t_symif_arr(x):
    y = x.copy()
    if x[0] > 1: y[1:] = 0
    elif x[1] > 1: y[0] = 5; y *= 2
    else: y = -y
    return y
def t_symif_list(x):
    r = []
    for v in x:
        r.append(v if v > 1 else -v)
    return np.array(r)
def t_symif_dict(x):
    d = {}
    if x[0] > 1: d["a"] = 1.0
    else: d["a"] = x[1]
    return d["a"] * x
def t_symand(x): return 1.0 if x[0] > 1 and x[1] > 1 else (2.0 if x[0] > 1 or x[2] > 1 else 3.0)
def t_symnot(x): return x if not (x[0] > 1) else -x
def t_symcmpchain(x): return 1.0 if 0.5 < x[0] < 2.0 else 0.0
def t_anyall(x): return (1.0 if np.any(x > 2) else 2.0) + (3.0 if (x > 0.3).all() else 5.0)
def t_while_newton(x):
    v = 1.0
    for _ in range(6): v = 0.5 * (v + x[0] / v)
    return v
def t_bisect(x):
    lo, hi = 0.0, 4.0
    for _ in range(8):
        mid = 0.5 * (lo + hi)
        if mid * mid > x[0]: hi = mid
        else: lo = mid
    return lo
class V(NamedTuple):
    a: float
    b: float = 2.0
def t_nt(x): return V(x).a * V(x).b + V(b=x, a=1)[1] + len(V(1))
@dataclass
class D2:
    xs: list = field(default_factory=list)
    k: int = 3
    def __post_init__(self): self.z = self.k * 2
def t_dc(x):
    d = D2(); d.xs.append(x); e = D2(k=4); return d.xs[0] * d.z + len(e.xs) + e.z + (D2() == D2())
class E1(IntEnum):
    A = 1
    B = 2
class E2(str, Enum):
    P = "p"
def t_enum(x): return len(list(E1)) * x + (E1(2) is E1.B) + E1.A.value
class Prop:
    def __init__(self): self._v = 1.0
    @property
    def v(self): return self._v
    @v.setter
    def v(self, k): self._v = 2 * k
def t_setter(x):
    p = Prop(); p.v = x; return p.v
class M:
    def __init__(self, v): self.v = v
    def __mul__(self, o): return M(self.v * (o.v if isinstance(o, M) else o))
    def __rmul__(self, o): return self * o
    def __neg__(self): return M(-self.v)
    def __lt__(self, o): return False
    def __bool__(self): return False
    def __getattr__(self, n):
        if n == "dyn": return 4.0
        raise AttributeError(n)
def t_ops(x): return (2 * M(x) * 3).v + (M(x) * M(x)).v + (-M(x)).v + (0 if M(1) else 1)
def t_getattr_dyn(x): return M(1).dyn * x
class It:
    def __init__(self): self.k = 0
    def __iter__(self): return self
    def __next__(self):
        self.k += 1
        if self.k > 3: raise StopIteration
        return self.k
def t_iterproto(x): return sum(k for k in It()) * x
class Mixin:
    def f(self): return "m" + super().f()
class Bs:
    def f(self): return "b"
class Ch(Mixin, Bs):
    def f(self): return "c" + super().f()
def t_mro(x): return len(Ch().f()) * x + ("cmb" == Ch().f())
def t_kwargs(x):
    def f(a, *r, k=1, **kw): return a + sum(r) * k + kw.get("z", 0)
    return f(*[x, 1, 2], **{"k": 3, "z": 4})
def t_unpack(x):
    (a, b), *c = [(1, 2), 3, 4]; return (a + b + sum(c)) * x
def t_gen_state(x):
    g = (k for k in range(4)); a = next(g); b = sum(g); c = sum(g); return (a * 100 + b * 10 + c) * x
def t_zip_state(x):
    z = zip([1, 2], [3, 4]); a = list(z); b = list(z); return (len(a) - len(b)) * x
def t_closure_counter(x):
    def mk():
        n = [0]
        def inc(): n[0] += 1; return n[0]
        return inc
    i = mk(); j = mk(); i(); i(); j(); return (i() * 10 + j()) * x
def t_dictview(x):
    d = {"a": 1}; d2 = dict(d, b=2); d2.update({"a": 5}); return sum(d.values()) * x + sum(v for _, v in sorted(d2.items()))
def t_slices_obj(x):
    s = slice(1, None); return x[s] * x[:-1][s.start - 1:]
def t_np_axis(x):
    a = np.outer(x, x); return a.sum(axis=-1) + a.mean(0) + np.prod(a, axis=1) + a.max(axis=0) - np.min(a, 1)
def t_np_any_axis(x): return np.any(np.outer(x, [1.0, -1.0]) > 1, axis=1) * x
def t_stacks(x): return np.vstack([x, x * 2]).T.ravel() + np.dstack([x, x]).ravel() + np.concatenate([x[None], x[None] * 3], axis=0).flatten(order="F")
def t_pad(x): return np.pad(x, (1, 2))
def t_padedge(x): return np.pad(x, 1, mode="edge")
def t_squeeze(x): return np.squeeze(x.reshape(1, 3, 1)) + np.expand_dims(x, 0)[0] + np.atleast_2d(x)[0]
def t_swap_ax(x): return np.swapaxes(np.outer(x, [1., 2.]), 0, 1)[1] + np.moveaxis(np.outer(x, [1., 3.]), 0, 1)[1] + np.rollaxis(np.outer(x, [1., 3.]), 1)[0]
def t_bcast_to(x): return np.broadcast_to(2.0, 3) * x + np.broadcast_to(x, (2, 3))[1]
def t_resize(x): return np.resize(x, 5)
def t_unravel(x): return x[np.unravel_index(1, (3, 1))[0]] + np.ravel_multi_index((1, 0), (2, 2))
def t_tri(x): return np.tri(3) @ x + np.triu_indices(2)[0].sum()
def t_cumtrap(x): return np.concatenate([[0], np.cumsum(0.5 * (x[1:] + x[:-1]))])
def t_power0(x): return x ** 0 + x ** 1 + x ** -1 + x ** 0.5 + np.power(x, 3) + 2 ** x
def t_minmax(x): return np.minimum(x, 1.0) + np.maximum(x, [0.5, 1, 2]) + np.fmax(x, 1) + np.minimum.reduce(x)
def t_sums(x): return sum([x, x], np.zeros(3)) + sum(x) + np.sum([x, x], axis=0) + np.add.reduce([x, x])
def t_matvec(x): return np.eye(3) @ x + np.dot(x, x) + x @ x + np.matmul(np.diag(x), x) + np.inner(x, x)
def t_ein(x): return np.einsum("ij,j->i", np.outer(x, x), x) + np.einsum("ii", np.outer(x, x)) + np.einsum("ij->ji", np.outer(x, x))[0]
def t_solve2(x): return np.linalg.solve(np.diag(x) + np.ones((3, 3)), np.array([1.0, 2, 3]))
def t_lstsq(x): return np.linalg.lstsq(np.array([[1.0, 0], [1, 1], [1, 2]]), np.array([1.0, 2, 4]), rcond=None)[0][0] * x
def t_where1(x): return x[np.where(x > 1)] .sum() + x[np.nonzero(x > 1)].size if False else x
def t_masksum(x): return np.sum(x[x > 1])
def t_masklen(x): return np.count_nonzero(x > 1) * 1.0
def t_maskassign2(x):
    r = np.zeros(3); m = (x > 1) & (x < 2); r[m] = x[m] * 2; r[~m & (x > 2)] = -1; return r
def t_whereidx(x):
    r = np.zeros(3); i = np.where(x > 1); r[i] = x[i] ** 2; return r
def t_strfmt(x): return len("%5.2f|%s" % (1.234, "a")) * x + len(f"{'x'!r:>6}") + len("{:>{w}}".format("a", w=4)) + len(f"{1e-3:.1e}")
def t_strsplit(x): return int("a_b_c".rsplit("_", 1)[1] == "c") * x + len("a.b".replace(".", "")) + "abc".endswith(("c", "d")) + "a" .join(["x", "y"]).count("a") + "Ab".lower().index("b") + "x".isdigit()
def t_setops(x): return len({1, 2} & {2, 3}) * x + len({1}.union([2])) + ({1} <= {1, 2}) + len({1, 2} - {1}) + len({1} ^ {2})
def t_setadd(x):
    s = set(); s.add(1); s.update([2, 3]); s.discard(9); s.remove(1); return len(s) * x
def t_sortkey(x): return sorted([("b", 1), ("a", 2)], key=lambda t: t[0])[0][1] * x
def t_lcnested(x): return [[i * j for j in range(2)] for i in range(3)][2][1] * x
def t_dictofarr(x):
    d = {"u": x.copy()}; d["u"] *= 2; d["u"][0] = 1; return d["u"]
def t_listofarr(x):
    l = [x.copy(), x.copy()]; l[0] += 1; l[1][0] = 7; return l[0] + l[1]
def t_del_attr(x):
    a = A(); a.q = x; r = a.q; del a.q; return r + hasattr(a, "q")
def t_isinst2(x): return isinstance(x[0], float) * x + isinstance(3, float) + isinstance(True, int) + isinstance([1], (list, tuple)) + isinstance("a", str)
def t_numpyscalar(x): return np.float64(2.5) * x + np.int32(3) // 2 + np.pi.__float__() * 0
def t_floordiv(x): return x // 0.5 + (x[0] // 1) + 7 // 2.0 + divmod(-7, 2)[0]
def t_abs_sign(x): return np.abs(-x) + np.sign(-x) + abs(x - 1) + np.fabs(x - 2)
def t_trig(x): return np.sin(x) ** 2 + np.cos(x) * np.tan(x) + np.arcsin(x / 3) + np.arctan(x) + np.tanh(x) + np.sinh(x) - np.cosh(x)
def t_exps(x): return np.exp(-x) + np.log(x) + np.log10(x) + np.log2(x) + np.log1p(x) + np.expm1(x) + np.sqrt(x) + np.cbrt(x) + np.square(x)
def t_mathfn(x): return math.exp(x[0]) + math.log(x[1], 2) + math.pow(x[0], 2) + math.floor(2.7) + math.ceil(x[0]) + math.degrees(x[0]) + math.atan2(x[0], 1) + math.fabs(-x[0])
def t_linsp(x): return np.linspace(0, x[0], 5, endpoint=False) + np.linspace(0, 1, 5)
def t_linspret(x): return np.linspace(0, 1, 3, retstep=True)[1] * x
def t_arange2(x): return np.arange(3) * x + np.arange(1, 4)[::-1] + np.arange(0.0, 1.0, 0.4)
def t_full(x): return np.full(3, x[0]) + np.full((3,), 2) + np.full_like(x, 3.0) + np.ones_like(x) * x[1]
def t_zlike_int(x):
    a = np.zeros_like(np.array([1, 2, 3])); a[0] = 1.7; return a * x
def t_dtypecast(x): return np.array([1.7, 2.2]).astype(int).sum() * x + np.array([1, 2], dtype=float)[0] / 2
def t_repeat_axis(x): return np.repeat(x[None, :], 2, axis=0).ravel() + np.tile(x, (2, 1)).flatten()
def t_interp_sym(x): return np.interp(x[0], [0.0, 1.0, 3.0], x) + np.interp(9.0, [0, 1], [2, 3]) + np.interp([-1.0, 0.5], [0, 1], [2, 3])[0]
def t_nparr_nested(x): return np.array([[x[0], 1], [2, x[1]]]).sum(axis=0)[0] + np.array([x, x])[1]
def t_obj_fn(x):
    ops = {"add": lambda a, b: a + b, "mul": operator.mul}; return ops["add"](x, 1) + ops["mul"](x, 2)
def t_getattr_str(x): return getattr(x, "su" + "m")() + getattr(np, "sqrt")(x)
def t_ifexpr_nested(x): return (1 if False else 2 if True else 3) * x
def t_walrus2(x): return sum(y for v in [1, 2, 3] if (y := v * 2) > 2) * x
def t_assertmsg(x):
    try: assert False, "m"
    except AssertionError: return x
def t_raise_from(x):
    try:
        try: {}["a"]
        except KeyError as e: raise ValueError("b") from e
    except ValueError: return 2 * x
def t_reraise(x):
    try:
        try: int("q")
        except ValueError: raise
    except ValueError: return 3 * x
def t_floaterr(x):
    try: return float("abc") * x
    except (TypeError, ValueError): return -x
def t_zerodiv(x):
    try: return 1 / 0
    except ZeroDivisionError: return x
def t_idxerr(x):
    try: return [1][3]
    except IndexError: return x
def t_attrerr(x):
    try: return x.foo
    except AttributeError: return x * 2
def t_suppress(x):
    with contextlib.suppress(KeyError): {}["a"]
    return x
@contextlib.contextmanager
def cm(log):
    log.append(1)
    try: yield 5
    finally: log.append(2)
def t_cm(x):
    l = []
    with cm(l) as v: l.append(v)
    return l[-1] * x + len(l)
def t_cmexc(x):
    l = []
    try:
        with cm(l): raise ValueError
    except ValueError: l.append(7)
    return sum(l) * x
def t_copyshallow(x):
    import copy
    d = {"a": [1]}; e = copy.copy(d); e["a"].append(2); e["b"] = 1; return (len(d["a"]) * 10 + len(d)) * x
def t_enumerate_zip(x): return sum(i * a * b for i, (a, b) in enumerate(zip(x, x[::-1]), 1))
def t_matchseq(x):
    match (1, 2):
        case (a, 3): return x
        case (1, b) if b > 5: return x * 2
        case (1, b): return x * b
def t_matchsym(x):
    match x[0] > 1:
        case True: return x
        case False: return -x
def t_cond_import(x):
    try: import nonexistent_mod_q
    except ImportError: return x
    return -x
def t_typeof(x): return (type(3) is int) * x + (type("a") == str) + (type(x) is np.ndarray)
def t_lencond(x): return x if len(x) > 2 and x.shape == (3,) and x.ndim == 1 else -x
def t_npshape(x): return np.shape(x)[0] * x + np.size(x) + np.ndim(x) + np.shape(2.0).__len__()
def t_mean_kw(x): return x.mean(axis=0, keepdims=True) + np.mean(np.outer(x, x), axis=(0, 1))
def t_round2(x): return np.round(2.345, 2) * x + np.around(np.array([1.26]), 1)[0]
def t_argsort(x): return x[np.argsort([3, 1, 2])]
def t_uniq(x): return np.unique(np.array([3, 1, 1])).sum() * x
def t_isin(x): return np.isin([1, 2, 3], [2]) * x
def t_setdiff(x): return np.setdiff1d([1, 2, 3], [2]).sum() * x
def t_trapz2(x): return np.trapz(x, [0.0, 1.0, 3.0]) + np.trapz(np.outer(x, x), axis=0)[0]
def t_polyfit1(x): return np.poly1d([1.0, 2.0])(3.0) * x
def t_hyp(x): return np.hypot(x, 1.0)
def t_inplace_where(x):
    y = x.copy(); np.maximum(y, 1.0, out=y); np.clip(y, None, 2.0, out=y); return y
def t_copyto(x):
    y = np.zeros(3); np.copyto(y, x, where=x > 1); return y
def t_place(x):
    y = x.copy(); np.place(y, y > 1, 0.5); return y
def t_take_along(x): return np.take_along_axis(x, np.array([2, 0, 1]), axis=0)
def t_flat_idx(x):
    a = np.zeros((2, 2)); a.flat[1] = x[0]; a.flat[[2, 3]] = 4.0; return a.ravel()
def t_itemset(x):
    a = np.zeros(3); a[-1:] = x[:1]; a[...] += 1; return a
def t_boolmask_concrete(x):
    m = np.array([True, False, True]); y = x.copy(); y[m] *= 3; y[~m] = 0; return y
def t_multi_dim_store(x):
    a = np.zeros((2, 3)); a[1, :] = x; a[:, 0] += 1; a[0, 1:] = x[1:]; return a.ravel()
def t_fancystore(x):
    a = np.zeros(5); a[[4, 0, 2]] = x; return a
def t_ixstore(x):
    a = np.zeros((3, 3)); a[np.ix_([0, 2], [0, 2])] = 1.5; a[np.arange(2), np.arange(1, 3)] = x[:2]; return a.ravel()
def t_cplx(x): return (x + 0j).real + np.real(1j * x) + np.iscomplexobj(x)
