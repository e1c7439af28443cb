"""reference for nested data: lengths by level"""
import numpy as np
import torch


def is_arr(x):
    return isinstance(x, torch.Tensor) or (isinstance(x, np.ndarray) and x.dtype.kind in "biufc")


def is_leaf(x):
    return not is_arr(x) and not (isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim > 0))


def levels(x, strict):
    """list (one entry per level) of all lengths found at that level"""
    if is_arr(x):
        return [[n] for n in x.shape]
    if is_leaf(x):
        return []
    if not len(x):
        return [[0]]
    kids = [levels(c, strict) for c in x]
    d = {len(k) for k in kids}
    if len(d) > 1:
        m = 0 if strict else max(d)
        kids = [[] if strict else [[1]] * (m - len(k)) + k for k in kids]
    return [[len(x)]] + [sum((k[i] for k in kids), []) for i in range(len(kids[0]))]


def shape(x, strict):
    return tuple(l[0] if len(set(l)) == 1 else -1 for l in levels(x, strict))


def depth(x, strict):
    return len(levels(x, strict))


def lifted(x):
    """whether anything has to be lifted below x"""
    if is_arr(x) or is_leaf(x) or not len(x):
        return False
    return len({depth(c, False) for c in x}) > 1 or any(lifted(c) for c in x)


def same_lift(x, y):
    """y is x with shallower siblings wrapped in 1-tuples"""
    if not lifted(x):
        return y is x or (isinstance(x, (np.generic,)) and x == y)
    if not isinstance(y, tuple) or len(y) != len(x):
        return False
    m = max(depth(c, False) for c in x)
    for a, b in zip(x, y):
        for _ in range(m - depth(a, False)):
            if not (isinstance(b, tuple) and len(b) == 1):
                return False
            b = b[0]
        if not same_lift(a, b):
            return False
    return True


def leafeq(a, b):
    if a is b:
        return True
    if is_arr(a) or is_arr(b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(leafeq(x, y) for x, y in zip(a, b))
    return bool(a == b)


class Bad(Exception):
    pass


def expand(x, t):
    """nested lists of leaves: x (rank len(t)) expanded to t; Bad if impossible"""
    if not t:
        return x
    n = len(x)
    if n == 0 and is_arr(x) is False and t[0] <= 0:
        return []
    kids = [expand(x[i], t[1:]) for i in range(n)]
    if t[0] in (-1, n):
        return kids
    if n != 1:
        raise Bad(f"length {n} to {t[0]}")
    return kids * t[0]


def nested_eq(y, w, d):
    """y agrees with the nested lists w down to depth d"""
    if d == 0:
        return leafeq(y, w)
    try:
        if len(y) != len(w):
            return False
    except TypeError:
        return False
    return all(nested_eq(y[i], w[i], d - 1) for i in range(len(w)))


def rand_data(r, d=3, uniform=None):
    """random nested data; uniform: all leaves at the same depth"""
    if uniform is not None and uniform == 0:
        return leaf(r)
    if uniform is None and (d == 0 or r.random() < .3):
        return leaf(r)
    if r.random() < .25 and (uniform is None or uniform >= 1):
        k = r.randint(1, min(d, 3)) if uniform is None else uniform
        sh = [r.choice([1, 1, 2, 3]) for _ in range(k)]
        a = np.arange(int(np.prod(sh))).reshape(sh) + 10
        return r.choice([lambda: torch.from_numpy(a.copy()), lambda: a.copy(), lambda: a > 11, lambda: a.tolist(), lambda: torch.from_numpy(a * .5)])()
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4]) if d < 3 or uniform is not None else r.choice([1, 2, 3, 4])
    if uniform is not None and uniform > 1 and n == 0:
        n = 1
    kids = [rand_data(r, d - 1, None if uniform is None else uniform - 1) for _ in range(n)]
    return kids if r.random() < .5 else tuple(kids)


def leaf(r):
    return r.choice([0, 1, 7, -2, 2.5, "a", "text", "", None, True, np.float64(1.5), torch.tensor(3.0), np.array(2)])


def freeze(x):
    if isinstance(x, (list, tuple)):
        return (type(x), [freeze(c) for c in x])
    if is_arr(x):
        return ("arr", np.array(x).copy())
    return x


def frozen_eq(f, x):
    if isinstance(x, (list, tuple)):
        return f[0] is type(x) and len(f[1]) == len(x) and all(frozen_eq(a, b) for a, b in zip(f[1], x))
    if is_arr(x):
        return bool((f[1] == np.asarray(x)).all())
    return f is x or f == x
