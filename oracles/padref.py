"""independent reference of the padding modes (index formulas, numpy)"""
import numpy as np


def ext1(u, mode, j, N, h, end=(0, 0), const=(0, 0), stat=(None, None)):
    """value of the extension at padded position j; u occupies [h, h+L) of N positions"""
    L = len(u)
    i = j - h
    if 0 <= i < L:
        return u[i]
    if mode == "replicate":
        return u[0] if i < 0 else u[-1]
    if mode == "circular":
        return u[i % L]
    if mode == "periodize":
        P = L + L % 2
        k = i % P
        return u[min(k, L - 1)]
    if mode in ("symmetric", "antisymmetric"):
        k = i % (2 * L)
        v = u[k] if k < L else u[2 * L - 1 - k]
        return -v if (mode == "antisymmetric" and k >= L) else v
    if mode == "reflect":
        if L == 1:
            return u[0]
        k = i % (2 * L - 2)
        return u[k] if k < L else u[2 * L - 2 - k]
    if mode == "odd_symmetric":
        q, k = divmod(i, 2 * L)
        w = 2 * (u[-1] - u[0])
        return (u[k] if k < L else 2 * u[-1] - u[2 * L - 1 - k]) + q * w
    if mode == "odd_reflect":
        if L == 1:
            return u[0]
        q, k = divmod(i, 2 * L - 2)
        w = 2 * (u[-1] - u[0])
        return (u[k] if k < L else 2 * u[-1] - u[2 * L - 2 - k]) + q * w
    if mode == "smooth":
        if L == 1:
            return u[0]
        return u[0] + i * (u[1] - u[0]) if i < 0 else u[-1] + (i - L + 1) * (u[-1] - u[-2])
    if mode == "linear_ramp":
        if i < 0:
            return end[0] + (u[0] - end[0]) * j / h
        return u[-1] + (end[1] - u[-1]) * (i - L + 1) / (N - h - L)
    if mode == "zeros":
        return 0.0
    if mode == "constant":
        return const[0] if i < 0 else const[1]
    s = stat[0] if i < 0 else stat[1]
    k = L if s is None else min(L, max(1, s))
    w = sorted(u[:k] if i < 0 else u[L - k:])
    return {"maximum": lambda: w[-1], "minimum": lambda: w[0], "mean": lambda: float(np.mean(w)), "median": lambda: w[(k - 1) // 2]}[mode]()


def pad_axis(x, ax, mode, before, after, **kw):
    """numpy array padded along one axis"""
    if before == 0 and after == 0:
        return x
    L = x.shape[ax]
    N = before + L + after + (L % 2 if mode == "periodize" else 0)
    y = np.moveaxis(x, ax, -1)
    out = np.empty(y.shape[:-1] + (N,), dtype=x.dtype)
    for i in np.ndindex(*y.shape[:-1]):
        out[i] = [ext1(y[i], mode, j, N, before, **kw) for j in range(N)]
    return np.moveaxis(out, -1, ax)
