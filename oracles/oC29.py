"""random widths, 0-7 axes, some leading axes not listed, lists / tuples / arrays; against explicit indexing; consistency with torch.nn.functional.pad and numpy.pad"""
from util import *
import torch.nn.functional as F
from torchimage.padding.utils import pad_width_format


def rand(r):
    n = r.randint(0, 7)
    return {"n": n, "w": [[r.randint(0, 9), r.randint(0, 9)] for _ in range(r.randint(0, n))], "pad": r.random() < .1}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    n, w = c["n"], c["w"]
    k = len(w)
    flat = []
    for i in range(k):
        flat += w[k - 1 - i]
    full = [(0, 0)] * (n - k) + [tuple(p) for p in w]
    for arg in (w, tuple(map(tuple, w))) + ((np.array(w),) if w else ()):
        got = pad_width_format(arg)
        if list(got) != flat:
            return f"numpy to torch of {w}: {got}"
    for arg in (flat, tuple(flat)):
        got = pad_width_format(arg, "torch", "numpy", ndim=n)
        if [tuple(p) for p in got] != full:
            return f"torch to numpy of {flat} for {n} axes: {got}"
    if pad_width_format(flat, "torch", "torch") is not flat or pad_width_format(w, "numpy", "numpy") is not w:
        return "identical formats do not return the argument"
    if list(pad_width_format(full, "numpy", "torch")) != flat + [0, 0] * (n - k):
        return "not inverse"
    for s, t in (("numpy", "x"), ("x", "torch"), ("torch", "x"), ("x", "numpy"), ("x", "y")):
        try:
            pad_width_format(w, s, t, ndim=n)
            return f"formats {s}, {t} accepted"
        except ValueError:
            pass
    if c["pad"] and 1 <= n <= 3:
        x = np.arange(2 ** n).reshape([2] * n)
        a = np.pad(x, full)
        b = F.pad(torch.from_numpy(x), list(pad_width_format(full)))
        if a.shape != tuple(b.shape) or not (a == b.numpy()).all():
            return f"torch and numpy pad differently for {full}"
    return None
