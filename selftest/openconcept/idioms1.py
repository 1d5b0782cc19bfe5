import numpy as np, math, itertools, functools, operator, collections
from functools import partial, reduce
from itertools import chain, zip_longest, accumulate, combinations
from collections import namedtuple, defaultdict, OrderedDict
from dataclasses import dataclass
from enum import Enum
from operator import mul, itemgetter
from contextlib import contextmanager
from typing import Optional

def t_rint(x): return np.rint(x * 3)
def t_array_equal(x): return x * (2.0 if np.array_equal(np.arange(3), [0, 1, 2]) else 3.0)
def t_array_equal2(x): return 1.0 * np.array_equal(x, x)
def t_heaviside(x): return np.heaviside(x - 1, 0.5) * x
def t_isfinite(x): return np.where(np.isfinite(x), x, 0.0)
def t_isinf(x): return np.where(np.isinf(x), 0, x)
def t_xor(x): return np.where(np.logical_xor(x > 1, x > 2), x, 0.0)
def t_piecewise(x): return np.piecewise(x, [x < 1, x >= 1], [lambda v: v**2, lambda v: 2 * v - 1])
def t_piecewise3(x): return np.piecewise(x, [x < 1, x > 2], [0.5, lambda v: v * 7, lambda v: v])
def t_polyval(x): return np.polyval([1.0, 2.0, 3.0], x)
def t_polyval2(x): return np.polynomial.polynomial.polyval(x, [1.0, 2.0, 3.0])
def t_select(x): return np.select([x < 1, x < 2], [x, x**2], default=-1.0)
def t_select2(x): return np.select([x < 1, x < 2, x < 4], [x, x**2, x * 3])
def t_average(x): return np.average(x, weights=[1, 2, 3])
def t_average2(x): return np.average(x)
def t_trunc(x): return np.trunc(x * 2)
def t_exp2(x): return np.exp2(x)
def t_nansum(x): return np.nansum(x)
def t_cumprod(x): return np.cumprod(x)
def t_kron(x): return np.kron(np.ones(2), x)
def t_cross(x): return np.cross(x, np.array([1.0, 0.5, 2.0]))
def t_vdot(x): return np.vdot(x, x)
def t_tensordot(x): return np.tensordot(x, np.ones((3, 2)), axes=1)
def t_trace(x): return np.trace(np.outer(x, x))
def t_argmax(x): return x[np.argmax(x)]
def t_argmin(x): return x[int(np.argmin(x))]
def t_sort(x): return np.sort(x)[-1]
def t_divide_where(x): return np.divide(1.0, x - 1, out=np.zeros(3), where=x > 1.0)
def t_sqrt_where(x): return np.sqrt(x, where=x > 1, out=np.full(3, 5.0))
def t_multiply_out(x):
    r = np.empty(3); np.multiply(x, 2.0, out=r); return r
def t_exp_out(x):
    r = np.zeros(3); np.exp(x, out=r); return r
def t_add_reduce(x): return np.add.reduce(x)
def t_mul_reduce(x): return np.multiply.reduce(x)
def t_max_reduce(x): return np.maximum.reduce([x, x[::-1], np.ones(3)])
def t_add_accumulate(x): return np.add.accumulate(x)
def t_mul_outer(x): return np.multiply.outer(x, [1.0, 2.0])
def t_sub_outer(x): return np.subtract.outer(x, x)
def t_add_at(x):
    r = np.zeros(2); np.add.at(r, [0, 1, 1], x); return r
def t_vectorize(x): return np.vectorize(lambda v: v**2 if v > 1 else v)(x)
def t_fromiter(x): return np.fromiter((v * 2 for v in x), dtype=float)
def t_frompyfunc(x): return np.array([float(v) for v in x])
def t_r_(x): return np.r_[0.0, x, 4.0]
def t_c_(x): return np.c_[x, 2 * x]
def t_s_(x): return x[np.s_[1:]]
def t_newaxis(x): return x[:, np.newaxis] * x[np.newaxis, :]
def t_none(x): return (x[:, None] + x[None, :]).sum(axis=1)
def t_fill_diagonal(x):
    a = np.outer(x, x); np.fill_diagonal(a, 0.0); return a
def t_put(x):
    a = x.copy(); a.put([0, 2], 7.0); return a
def t_putmask(x):
    a = x.copy(); np.putmask(a, a > 1.5, 9.0); return a
def t_place(x):
    a = x.copy(); a[a > 1.5] = 9.0; return a
def t_mask_aug(x):
    a = x.copy(); a[a > 1.5] *= 2; return a
def t_mask_not(x):
    a = np.zeros(3); m = x > 1; a[m] = x[m] ** 2; a[~m] = -x[~m]; return a
def t_broadcast_arrays(x):
    a, b = np.broadcast_arrays(x, 2.0); return a + b
def t_partial(x): return partial(np.multiply, 3.0)(x)
def t_partial2(x):
    def f(a, b=1, c=2): return a * b + c
    return partial(f, c=5, b=x)(2)
def t_reduce(x): return reduce(lambda a, b: a * b, x)
def t_reduce2(x): return reduce(mul, [x, x, x], 2.0)
def t_reduce3(x): return functools.reduce(operator.add, list(x), 0.0)
def t_itemgetter(x): return itemgetter(1)(x) + operator.itemgetter(0)(x)
def t_attr(x): return operator.truediv(x, 2) + operator.neg(x) + operator.pow(x, 2)
def t_chain(x): return sum(chain([1, 2], [3])) * x
def t_chain2(x): return sum(chain.from_iterable([[1, 2], [3]])) * x
def t_ziplong(x): return [a * b for a, b in zip_longest([1, 2, 3], [1], fillvalue=2)][2] * x
def t_accumulate(x): return np.array(list(accumulate(x)))
def t_comb(x): return np.array([a * b for a, b in combinations(list(x), 2)])
def t_islice(x): return sum(itertools.islice(itertools.count(1), 3)) * x
def t_repeat(x): return np.array(list(itertools.repeat(2.0, 3))) * x
def t_product(x): return sum(i * j for i, j in itertools.product(range(3), range(2))) * x
def t_starmap(x): return sum(itertools.starmap(lambda a, b: a * b, [(1, 2), (3, 4)])) * x
P = namedtuple("P", ["a", "b"])
def t_namedtuple(x):
    p = P(a=x, b=2); a, b = p; return p.a * p.b + a + p._replace(b=5).b
def t_defaultdict(x):
    d = defaultdict(list); d["a"].append(x); d["a"].append(2 * x); return sum(d["a"])
def t_defaultdict2(x):
    d = defaultdict(float); d["a"] += x[0]; d["b"] += x[1]; return d["a"] * d["b"]
def t_ordered(x):
    d = OrderedDict(); d["b"] = x; d["a"] = 2.0; return list(d.values())[0] * d["a"]
def t_counter(x): return collections.Counter("aab")["a"] * x
def t_deque(x):
    d = collections.deque([1, 2, 3]); d.append(4); d.popleft(); return sum(d) * x
@dataclass
class DC:
    a: float
    b: float = 2.0
    def area(self): return self.a * self.b
def t_dataclass(x): return DC(x).area() + DC(a=x, b=3.0).b
class Color(Enum):
    RED = 1
    BLUE = 2
def t_enum(x): return x * Color.BLUE.value if Color["RED"] is Color.RED else x
@contextmanager
def ctx(v):
    yield v * 2
def t_ctx(x):
    with ctx(x) as y: return y + 1
def t_errstate(x):
    with np.errstate(divide="ignore", invalid="ignore"):
        return 1.0 / x
def gen(x):
    for i in range(3):
        yield x[i] * i
def t_gen(x): return sum(gen(x))
def t_gen2(x): return np.array([v for v in gen(x)])
def t_gen3(x):
    def g():
        yield from gen(x)
        yield 5.0
    return sum(g())
def t_walrus(x): return (y := x * 2) + y
def t_match(x):
    match "b":
        case "a": return x
        case "b" | "c": return 2 * x
        case _: return 3 * x
def t_ternary(x): return np.array([v if v > 1 else 0.0 for v in x])
def t_while(x):
    i, s = 0, 0.0
    while i < 3:
        s += x[i]; i += 1
        if i == 2: continue
        s *= 2
    return s
def t_forelse(x):
    for i in range(3):
        if i == 5: break
    else:
        return x * 2
    return x
def t_break(x):
    s = 0
    for v in x:
        if s == 3: break
        s = s + 1
    return s * x
def t_symbreak(x):
    r = 0.0
    for v in x:
        if v > 1.5:
            r = v
            break
    return r
def t_symcont(x):
    r = 0.0
    for v in x:
        if v > 1.5: continue
        r += v
    return r
def t_symwhile(x):
    k = 0
    while k < 3 and x[k] < 2.0:
        k += 1
    return k * 1.0
def t_symreturn(x):
    for i, v in enumerate(x):
        if v > 1.5:
            return v * i
    return -1.0
def t_try(x):
    try: r = x / 2
    except ZeroDivisionError: r = 0
    finally: z = 1
    return r + z
def t_try2(x):
    d = {"a": x}
    try: return d["b"]
    except KeyError: return d["a"] * 2
def t_try3(x):
    try:
        v = {}["q"]
    except (KeyError, ValueError) as e:
        v = 3.0
    else:
        v = 4.0
    return v * x
def t_getattr(x): return getattr(np, "exp")(x) + getattr(x, "nope", 1.0)
def t_map(x): return np.array(list(map(lambda v: v + 1, x)))
def t_filter(x): return sum(filter(lambda k: k > 1, [1, 2, 3])) * x
def t_sorted(x): return sorted([3, 1, 2], reverse=True)[0] * x + sorted("bca", key=lambda c: -ord(c)).index("c")
def t_any(x): return any(k > 2 for k in [1, 2, 3]) * x
def t_zipstar(x):
    a, b = zip(*[(1, 2), (3, 4)]); return (sum(a) - sum(b)) * x
def t_dictcomp(x):
    d = {k: v * x for k, v in zip("abc", range(3))}; return d["c"] - d.get("z", 1)
def t_dictmerge(x):
    d = {**{"a": 1}, **dict(b=2)} | {"c": x}; return d["a"] + d["b"] * d["c"]
def t_setdef(x):
    d = {}; d.setdefault("a", []).append(x); return d["a"][0]
def t_pop(x):
    d = {"a": x, "b": 1}; v = d.pop("a"); d.update(b=5); return v + d.popitem()[1]
def t_set(x): return len({1, 2, 2} | {5}) * x
def t_strings(x): return len("a|b|c".split("|")) * x + "abc".find("c") + "x_{}".format(3).count("3") + int("12".zfill(4)) + "ab".upper().startswith("AB")
def t_strings2(x): return float("1e3".replace("e", "E")) * x + len("a,b".partition(",")) + ("k" in "key") + "  a ".strip().isalpha()
def t_slice(x): return x[slice(0, 2)] + x[-2:]
def t_neg(x): return x[::-1] - x[-1]
def t_fancy(x): return x[[2, 0]] * x[np.array([1, 1])]
def t_take(x): return np.take(x, [0, 2]) + x.take([1, 1])
def t_ix(x): return np.outer(x, x)[np.ix_([0, 2], [1])]
def t_dot(x): return (np.outer(x, x) @ x).dot(x)
def t_methods(x): return x.sum() + x.mean() + x.prod() + x.max() + x.min() + x.std() + x.var()
def t_methods2(x): return x.cumsum()[-1] + x.ravel()[0] + x.flatten()[1] + x.reshape(-1, 1)[2, 0] + x.T[0] + x.size + x.shape[0] + x.ndim + x.item(1) + x.tolist()[0]
def t_clip(x): return x.clip(0.5, 1.5) + np.clip(x, None, 1.0) + np.clip(x, 1.0, None)
def t_round(x): return round(2.567, 1) * x + abs(-2) + divmod(7, 2)[1] + pow(2, 3) + max(1, 2) + min([3, 4])
def t_maxkey(x): return max([1, -5, 3], key=abs) * x
def t_symmax(x): return max(x[0], x[1]) + min(x[0], 1.0) + max(x)
def t_math(x): return math.sqrt(x[0]) + math.pi + math.hypot(x[0], x[1]) + math.isclose(1.0, 1.0) + math.copysign(1.0, -2.0)
def t_mathfsum(x): return math.fsum([x[0], x[1]])
def t_isinst(x): return (isinstance(x, np.ndarray) + isinstance(2, (int, float)) + callable(t_math) + hasattr(x, "shape")) * x
def t_lambda(x): return (lambda *a, k=2, **q: a[0] * k + q["z"])(x, z=1)
def t_closure(x):
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n * x
def t_recursion(x):
    def f(k): return 1 if k == 0 else k * f(k - 1)
    return f(4) * x
class Base:
    scale = 2.0
    def __init__(self, v): self.v = v
    def get(self): return self.v * self.scale
    @property
    def twice(self): return 2 * self.v
    @staticmethod
    def st(a): return a + 1
    @classmethod
    def make(cls, v): return cls(v)
    def __call__(self, k): return self.v * k
    def __getitem__(self, k): return self.v[k]
    def __add__(self, o): return Base(self.v + o.v)
    def __len__(self): return 3
    def __eq__(self, o): return True
    def __iter__(self): return iter([1, 2])
    def __contains__(self, k): return k == 1
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Sub(Base):
    scale = 3.0
    def get(self): return super().get() + super(Sub, self).get()
def t_class(x): return Sub(x).get() + Base.make(x).twice + Base.st(1) + Base(x)(2)
def t_dunder(x): return (Base(x) + Base(x)).v[0] + Base(x)[1] + len(Base(x)) + sum(k for k in Base(x)) + (1 in Base(x))
def t_with(x):
    with Base(x) as b: return b.get()
def t_lru(x):
    @functools.lru_cache(maxsize=None)
    def f(k): return k * 2
    return f(3) * x
def t_deco(x):
    def twice(f):
        @functools.wraps(f)
        def g(*a, **k): return 2 * f(*a, **k)
        return g
    @twice
    def h(v): return v + 1
    return h(x)
def t_typehint(x: np.ndarray, k: Optional[float] = None) -> np.ndarray:
    y: float = 2.0
    return x * y if k is None else x
def t_star(x):
    a, *b, c = [1, 2, 3, 4]; return sum(b) * c * x
def t_aug(x):
    y = x.copy(); y += 1; y *= 2; y -= x; y /= 3; y **= 2; return y
def t_augint(x):
    k = 7; k //= 2; k %= 2; k <<= 2; k |= 1; return k * x
def t_chaincmp(x): return np.array([1.0 if 0.5 < v < 1.5 else 0.0 for v in x])
def t_and(x): return np.where((x > 0.5) & (x < 1.5) | (x > 2.2), x, 0)
def t_andor(x): return np.array([v if (v > 0.5 and v < 1.5) or v > 2.2 else 0.0 for v in x])
def t_notsym(x): return np.array([0.0 if not v > 1.5 else v for v in x])
def t_nested(x): return np.array([[i * v for i in range(2)] for v in x]).sum(axis=0)
def t_enumerate(x): return sum(i * v for i, v in enumerate(x, start=1))
def t_reversed(x): return sum(i * v for i, v in zip(reversed(range(3)), x))
def t_hstack(x): return np.hstack([x, 1.0]) if False else np.hstack([x, [1.0]])
def t_stack(x): return np.stack([x, 2 * x], axis=-1).reshape(-1)
def t_column(x): return np.column_stack((x, x**2)).dot([1.0, 2.0])
def t_split(x): return np.split(x, [1])[1] * 2
def t_insert(x): return np.insert(x, 0, 5.0) + np.append(x, 1.0)
def t_delete(x): return np.delete(x, 1)
def t_roll(x): return np.roll(x, 1) - np.flip(x)
def t_diff(x): return np.diff(x, prepend=0.0)
def t_ediff(x): return np.ediff1d(x)
def t_gradient(x): return np.gradient(x, 2.0)
def t_trapz(x): return np.trapz(x, dx=0.5)
def t_interp(x): return np.interp(x, [0.0, 1.0, 2.0], [0.0, 3.0, 4.0])
def t_searchsorted(x): return np.array([[10.0, 20.0, 30.0][np.searchsorted([1.0, 2.0], v)] for v in x])
def t_digitize(x): return np.digitize(x, [1.0, 2.0]) * 1.0
def t_unique(x): return len(np.unique([1, 1, 2])) * x
def t_lin(x): return np.linalg.solve(np.array([[2.0, 1.0], [1.0, 3.0]]), x[:2])
def t_inv(x): return np.linalg.inv(np.array([[2.0, 1.0], [1.0, 3.0]])) @ x[:2]
def t_invsym(x): return np.linalg.inv(np.array([[x[0], 1.0], [1.0, x[1] + 3]])) @ x[:2]
def t_det(x): return np.linalg.det(np.array([[x[0], 1.0], [1.0, x[1]]]))
def t_norm(x): return np.linalg.norm(x) + np.linalg.norm([3.0, 4.0])
def t_einsum(x): return np.einsum("i,j->ij", x, x).sum() + np.einsum("i,i", x, x)
def t_meshgrid(x):
    a, b = np.meshgrid(x, [1.0, 2.0], indexing="ij"); return (a * b).sum(axis=0)
def t_empty(x):
    r = np.empty_like(x); r[0], r[1:] = x[0], 2 * x[1:]; return r
def t_zeroslike(x):
    r = np.zeros_like(x); r.fill(3.0); r[:-1] += x[1:]; return r
def t_astype(x): return (x > 1).astype(int) * x + x.astype(complex).real
def t_view(x):
    y = x.reshape(3, 1); z = y[:, 0]; z = z * 1; return z
def t_alias(x):
    y = x.copy(); v = y[:2]; v[:] = 0.0; return y
def t_tile(x): return np.tile(x, 2) + np.repeat(x, 2)
def t_sumaxis(x): return np.sum(np.outer(x, x), axis=1, keepdims=True).ravel()
def t_mean0(x): return np.mean([x, x**2], axis=0)
def t_maxaxis(x): return np.max(np.outer(x, [1.0, -1.0]), axis=1)
def t_isclose(x): return np.where(np.isclose(x, 1.0), 5.0, x)
def t_allclose(x): return 1.0 if np.allclose(x, x) else 0.0
def t_logspace(x): return np.logspace(0, 1, 3) * x + np.geomspace(1, 4, 3)
def t_sinc(x): return np.sinc(2.0) * x
def t_arctan2(x): return np.arctan2(x, 2.0) + np.degrees(x) + np.deg2rad(x)
def t_sign(x): return np.sign(x - 1) * np.abs(x - 1) ** 0.5
def t_mod(x): return np.mod(x, 1.0) + x % 2 + x // 1 + np.floor_divide(x, 0.7) + np.fmod(x, 0.9) + np.remainder(x, .4)
def t_assert(x):
    assert len(x) == 3, "three"
    return x
def t_global(x):
    global CNT
    CNT = 3
    return CNT * x
def t_locals(x): return "{a} {b:.2f} {c!r}".format(a=1, b=2.0, c="q").count(" ") * x
def t_percent(x): return len("%s-%d" % ("ab", 3)) * x
def t_fstr(x): return len(f"{3:03d}{'a':>5}{2.5:.1f}") * x
def t_bytes(x): return int("0x10", 16) * x + int(2.7) + float(3) + bool(1) + complex(1, 2).imag
def t_complex(x): return np.real((x + 1j * 2) * 1j) + np.abs(3 + 4j)
def t_iter(x):
    it = iter([1, 2, 3]); a = next(it); b = next(it, 0); return (a + b) * x + next(iter([]), 4)
def t_del(x):
    d = {"a": 1, "b": x}; del d["a"]; l = [1, 2, 3]; del l[0]; return len(d) * x + len(l)
def t_listops(x):
    l = [3, 1]; l.extend([2]); l.insert(0, 5); l.remove(1); l.sort(); l.reverse(); l += [9]; return sum(l) * l.index(3) * x + l.pop() + (l * 2).count(5) + [1] .__len__()
def t_copy(x):
    import copy
    d = {"a": [1, 2]}; e = copy.deepcopy(d); e["a"].append(3); return len(d["a"]) * x
def t_nan(x): return np.where(np.isnan(x), np.inf, x) + (np.nan_to_num(x))
def t_ufuncattr(x): return np.isnan(np.nan) * x + np.pi + np.e
def t_vander(x): return np.vander(x, 3).sum(axis=0)
def t_polyfit(x): return np.polyfit([0.0, 1.0, 2.0], [1.0, 2.0, 5.0], 2)[0] * x
def t_linspace(x): return np.linspace(x[0], x[1], 3)
def t_arange(x): return np.arange(0, 3, 1.0) * x
def t_concat(x): return np.concatenate([x[:1], np.zeros(2)]) + np.concatenate((x, x), axis=0)[3:]
def t_block(x): return np.block([x, x])[2:5]
def t_array2(x): return np.array([x[0], 2.0, x[2]]) + np.asarray([1, 2, 3]) + np.ones(3, dtype=float)
def t_diag(x): return np.diag(x) @ np.ones(3) + np.diag(np.outer(x, x))
def t_triu(x): return np.triu(np.outer(x, x)).sum() + np.tril(np.ones((3, 3)), -1).sum()
def t_transpose(x): return np.outer(x, [1.0, 2.0]).T[1] + np.transpose(np.outer(x, x))[0]
def t_ravelorder(x): return np.outer(x, [1.0, 2.0]).ravel(order="F") + np.outer(x, [1., 2.]).flatten("C")
def t_intidx(x):
    r = np.zeros((3, 3)); i = np.arange(3); r[i, i] = x; r[0, 1:] = 5.0; return r
def t_boolidx(x): return x[np.array([True, False, True])]
def t_ellipsis(x): return np.outer(x, x)[..., 0] + x[...]
def t_bools(x): return (True and 0 or 5) * x
def t_in(x): return (2 in [1, 2]) * x + ("a" not in {"b": 1})
def t_isnone(x):
    y = None
    y = x if y is None else y
    return y
def t_pass(x):
    if False: pass
    elif True: x = x + 1
    else: x = 0
    return x
def t_walk(x): return sum(v for r in [[1, 2], [3]] for v in r if v != 2) * x
def t_lamdef(x): return [f(x) for f in [lambda v, k=k: v * k for k in range(3)]][2]
def t_kwonly(x):
    def f(a, /, b, *, c=1): return a + b * c
    return f(x, 2, c=3)
def t_ndim0(x): return np.array(3.0) * x + np.float64(2.0) + np.float32(1.0) + np.int64(2)
def t_print(x):
    s = str(3) + repr("a"); return len(s) * x
