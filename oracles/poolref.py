"""independent reference of separable pooling (numpy loops over windows)"""
import numpy as np
import padref


def spw(k, s, n):
    s = max(k, 1) if s is None else s
    t = max((-(-n // s) - 1) * s + k - n, 0)
    return t - t // 2, t // 2


def pad_same(x, axes, ks, ss, mode, **kw):
    ws = [spw(k, s, x.shape[a]) for a, k, s in zip(axes, ks, ss)]
    for a, w in zip(axes, ws):
        x = padref.pad_axis(x, a, mode, *w, **kw)
    return x


def conv_axis(x, ax, w, s):
    k = len(w)
    if k == 0:
        return x
    n = x.shape[ax]
    cnt = (n - k) // s + 1
    y = np.moveaxis(x, ax, -1)
    out = np.stack([sum(y[..., t * s + j] * w[j] for j in range(k)) for t in range(cnt)], axis=-1)
    return np.moveaxis(out, -1, ax)


def separable(x, axes, kernels, strides, mode=None, **kw):
    """kernels: list of weight lists, strides: list of int"""
    if mode is not None:
        x = pad_same(x, axes, [len(k) for k in kernels], strides, mode, **kw)
    for a, w, s in zip(axes, kernels, strides):
        x = conv_axis(x, a, w, max(len(w), 1) if s is None else s)
    return x
