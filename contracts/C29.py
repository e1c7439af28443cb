import itertools
import z3
from common import *

P = "torchimage.padding.utils."
FUNCS = [P + "pad_width_format"]
TRUSTED = []
ASSUMPTIONS = ["the number of axes (0 to 6) is enumerated, widths are symbolic integers"]


def h(n, k, kind):
    """n axes, the last k of them listed"""
    def fn(e, L):
        f = L.load("torchimage.padding.utils").pad_width_format
        w = [(e.input_int(f"b{i}"), e.input_int(f"a{i}")) for i in range(k)]
        np_ = kind([kind(p) for p in w])
        same = lambda a, b: z3.BoolVal(False) if len(a) != len(b) else z3.And([z3.BoolVal(True)] + [tint(p) == tint(q) for p, q in zip(a, b)])
        t = f(np_, "numpy", "torch")
        flat = [v for p in reversed(w) for v in p]
        e.prove(isinstance(t, tuple) and len(t) == 2 * k, "torch format: two entries per axis")
        e.prove(same(t, flat), "torch format: pairs from the last axis to the first")
        t2 = f(np_)
        e.prove(same(t2, flat), "numpy to torch is the default")
        u = f(kind(flat), source="torch", target="numpy", ndim=n)
        e.prove(isinstance(u, tuple) and len(u) == n and all(len(p) == 2 for p in u), "numpy format: one pair per axis")
        e.prove(same([v for p in u for v in p], [0, 0] * (n - k) + [v for p in w for v in p]), "numpy format: (0, 0) for the axes not mentioned, then the pairs from first to last")
        if n == k:
            b = f(t, source="torch", target="numpy", ndim=n)
            e.prove(len(b) == n and all(len(p) == 2 for p in b), "round trip numpy-torch-numpy: pairs")
            e.prove(same([v for p in b for v in p], [v for p in w for v in p]), "round trip numpy-torch-numpy")
        e.prove(same(f(u, "numpy", "torch")[:2 * k], flat), "round trip torch-numpy-torch")
        e.prove(same(f(u, "numpy", "torch"), flat + [0, 0] * (n - k)), "round trip torch-numpy-torch: zero widths for the further axes")
        for x, s in ((np_, "numpy"), (flat, "torch"), (tuple(flat), "torch")):
            e.prove(f(x, source=s, target=s) is x, "identical formats: returned unchanged")
        e.prove(all(p is q for a, b in zip(np_, w) for p, q in zip(a, b)), "the argument is not modified")
        for s, tg in (("numpy", "tf"), ("tf", "torch"), ("torch", "tf"), ("tf", "numpy"), ("a", "b"), ("Torch", "numpy"), ("numpy", None), (None, "torch")):
            expect_raises(e, ValueError, lambda: f(np_, source=s, target=tg, ndim=n), "other format pairs are rejected")
    return fn


def harnesses(tier):
    return [H(f"widths[{n} axes, {k} listed, {kind.__name__}]", h(n, k, kind), to_case=lambda m, nm, n=n, k=k: {"n": n, "w": [[int(m.get(f"b{i}", 0)), int(m.get(f"a{i}", 0))] for i in range(k)]})
            for n in range(7) for k in range(n + 1) for kind in (list, tuple)]
