import numpy as np


class Box:
    def __init__(self, v):
        self.v = v
        self.hist = []

    def add(self, w):
        self.hist.append(w)
        self.v = self.v + w
        return self


def t_br_array(x):
    if x[0] > 1:
        y = np.zeros(3); y[0] = x[1]; y[1:] += x[2]
    else:
        y = np.ones(3); y[2] *= x[0]
    return y
def t_br_list(x):
    if x[0] > 1:
        l = []; l.append(x[1]); l.append(2.0)
    else:
        l = [x[2]]; l.append(x[0])
    return np.array(l).sum() * x
def t_br_dict(x):
    if x[0] > 1:
        d = {}; d["a"] = x[1]; d["b"] = x[2] * 2
    else:
        d = dict(a=3.0); d["b"] = x[0]
    return d["a"] * d["b"] * x
def t_br_obj(x):
    b = Box(x[0])
    if x[1] > 1:
        b.add(x[2])
    else:
        b.v = 7.0
    return b.v * x
def t_br_obj_local(x):
    if x[1] > 1:
        b = Box(x[0]); b.add(x[2]); b.add(x[1]); r = b.v + len(b.hist)
    else:
        r = x[0]
    return r * x
def t_br_local_list(x):
    if x[1] > 1:
        l = []
        for k in range(3):
            l.append(x[k] * k)
        r = sum(l)
    else:
        r = 0.0
    return r * x
def t_br_iter(x):
    if x[1] > 1:
        r = 0
        for k, v in enumerate(x):
            r = r + k * v
    else:
        r = sum(v for v in x)
    return r * x
def t_br_nested(x):
    if x[0] > 1:
        y = np.zeros((2, 3))
        if x[1] > 0.5:
            y[0] = x
        else:
            y[1] = x * 2
        y[:, 1] += 1
    else:
        y = np.ones((2, 3)) * x[2]
        if x[2] > 1:
            y[1, 1] = 9
    return y.ravel()
def t_br_view(x):
    y = np.zeros(4)
    v = y[1:3]
    if x[0] > 1:
        v[:] = x[:2]
    else:
        v[0] = 5.0
    return y
def t_br_func(x):
    def f(z):
        out = np.zeros(3)
        if z[0] > 1:
            out[:] = z
        else:
            out[1] = z[1]
        return out
    return f(x) + f(x * 2)
def t_br_tuple(x):
    a, b = (x[0], x[1]) if x[2] > 1 else (x[1] * 2, 3.0)
    return a * x + b
def t_br_swap(x):
    a, b = x[0], x[1]
    if a > b:
        a, b = b, a
    return np.array([a, b])
def t_br_early(x):
    for k in range(3):
        if x[k] > 1.2:
            return x * (k + 1)
    return x * 10
def t_br_continue(x):
    s = 0.0
    for v in x:
        if v < 1:
            continue
        s += v
    return s * x
def t_br_break(x):
    s = 0.0
    for v in x:
        if v > 1.5:
            break
        s += v
    else:
        s = -1.0
    return s * x
def t_br_extend(x):
    l = [1.0, 2.0]
    if x[0] > 1:
        l[0] = x[1]
    else:
        l[1] = x[2]
    return l[0] * x + l[1]
def t_br_dictmod(x):
    d = {"a": 1.0, "b": x[0]}
    if x[0] > 1:
        d["a"] = x[1]
    else:
        d["b"] = 2.0
    return sum(d.values()) * x
def t_br_mixedcomp(x):
    return np.array([v if v > 1 else 1 / v for v in x])
def t_br_lastlen(x):
    l = []
    if x[0] > 1:
        l.append(x[0]); l.append(x[1])
        y = l[-1]
    else:
        l.append(x[2])
        y = l[-1]
    return y * x
def t_br_maskloop(x):
    y = x.copy()
    for k in range(len(x)):
        if y[k] > 1:
            y[k] = y[k] ** 2
        elif y[k] > 0.5:
            y[k] = 0.7
    return y
def t_br_try(x):
    try:
        if x[0] > 1:
            y = x * 2
        else:
            y = x * 3
    except ValueError:
        y = x
    return y
def t_br_generator(x):
    def g(z):
        for v in z:
            yield v * 2 if v > 1 else v
    return np.array(list(g(x)))
def t_br_aug(x):
    y = np.zeros(3)
    for k in range(3):
        y[k] += x[k] if x[k] > 1 else -x[k]
    if x.sum() > 3:
        y += 1
    return y
def t_br_while(x):
    n, v = 0, x[0]
    while v < 3 and n < 8:
        v = v * 1.5
        n += 1
    return v * x + n
