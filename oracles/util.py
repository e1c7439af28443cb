"""helpers of the concrete checks"""
import itertools, random
import numpy as np
import torch


def split(gen, k, n):
    """every n-th case, starting at k"""
    for i, c in enumerate(gen):
        if i % n == k:
            yield c


def rng(seed, *key):
    return random.Random(f"{seed}-{key}")


def tensor(seed, shape, dtype=torch.float64, lo=-2.0, hi=2.0):
    g = torch.Generator().manual_seed(seed)
    return layout((torch.rand(tuple(shape), generator=g, dtype=torch.float64) * (hi - lo) + lo).to(dtype), seed)


def layout(t, seed):
    """the same values in another memory layout (a third of the seeds): axes stored in reverse order, or every second element of a wider buffer"""
    h = seed * 7919 % 6
    if h == 1 and t.ndim:
        return t.permute(*reversed(range(t.ndim))).contiguous().permute(*reversed(range(t.ndim)))
    if h == 4 and t.ndim and t.numel():
        b = torch.full(t.shape[:-1] + (2 * t.shape[-1] + 1,), 77, dtype=t.dtype)
        b[..., 1::2] = t
        return b[..., 1::2]
    return t


def close(a, b, tol=1e-9):
    a = a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)
    b = b.detach().numpy() if isinstance(b, torch.Tensor) else np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def diff(a, b):
    a = a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)
    b = b.detach().numpy() if isinstance(b, torch.Tensor) else np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    i = np.unravel_index(np.nanargmax(np.where(np.isnan(a - b), np.inf, np.abs(a - b))), a.shape) if a.size else ()
    return f"at {tuple(int(x) for x in i)}: {a[i] if a.size else None} instead of {b[i] if b.size else None}"


def endless(seed, k, f):
    """an endless stream of random cases for shard k"""
    r = rng(seed, k)
    while True:
        yield f(r)
