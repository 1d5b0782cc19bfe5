"""dictionaries whose keys depend on the inputs; caches"""
import numpy as np


def t_dict_tuple(x):
    d = {}
    out = []
    for i in (0, 1, 2, 0):
        k = (round(x[i]), 1)
        if k not in d:
            d[k] = x[i] * 10
        out.append(d[k])
    return np.array(out)


def t_dict_get(x):
    d = {}
    out = []
    for i in (0, 1, 2, 1):
        k = np.round(x[i])
        v = d.get(k)
        if v is None:
            v = x[i] + 100
            d[k] = v
        out.append(v)
    return np.array(out)


def t_dict_get_default(x):
    d = {1.0: 7.0, 2.0: 9.0}
    return np.array([d.get(np.round(v), -1.0) for v in x])


def t_dict_try(x):
    d = {}
    out = []
    for i in (0, 1, 2, 1):
        k = np.round(x[i])
        try:
            v = d[k]
        except KeyError:
            v = d[k] = x[i] - 5
        out.append(v)
    return np.array(out)


def _cached(d, v):
    k = np.round(v)
    if k in d:
        return d[k]
    d[k] = v * v
    return d[k]


def t_dict_return(x):
    d = {}
    return np.array([_cached(d, x[0]), _cached(d, x[1]), _cached(d, x[2]), _cached(d, x[1] + 0.01)])


def t_dict_bytes(x):
    d = {}
    out = []
    for a in (x[:2], x[1:], np.round(x[:2]), np.round(x[1:])):
        k = a.tobytes()
        if k not in d:
            d[k] = np.sum(a) + len(d) * 0
        out.append(d[k])
    return np.array(out)


def t_dict_setdefault(x):
    d = {}
    return np.array([d.setdefault(np.round(v), v) for v in (x[0], x[1], x[2], x[0] + 0.05)])


def t_dict_overwrite(x):
    d = {}
    for v in x:
        d[np.round(v)] = v
    return np.array([d[np.round(x[0])], d[np.round(x[1])]])


def t_tuple_eq(x):
    return np.array([1.0 if (round(x[0]), 2) == (round(x[1]), 2) else 0.0, 1.0 if tuple(np.round(x)) != (0.0, 1.0, 3.0) else 2.0])


class K:
    def __init__(self):
        self.key = None

    def f(self, v):
        k = (np.round(v), "a")
        if self.key != k:
            self.key = k
            self.val = v * 3
        return self.val


def t_key_attr(x):
    o = K()
    return np.array([o.f(x[0]), o.f(x[1]), o.f(x[2]), o.f(x[2] + 0.001)])
