from common import *
import poolspec
from poolspec import getter

FUNCS = ["torchimage.metrics.base.BaseMetric.__init__", "torchimage.metrics.base.BaseMetric.forward", "torchimage.metrics.base.BaseMetric._reduce", "torchimage.metrics.base.BaseMetric._mean",
         "torchimage.metrics.base.BaseMetric._sum", "torchimage.metrics.mse.MSE.forward_full", "torchimage.metrics.psnr.PSNR.__init__", "torchimage.metrics.psnr.PSNR.forward", "torchimage.utils.validation.check_axes"]
TRUSTED = ["log10 is an uninterpreted function"]
ASSUMPTIONS = ["rank (1-4) and axes lists are enumerated; sizes, contents, max_value and eps are symbolic"]


def reduced(e, f, n, axes, reduction):
    """-> (get, shape) of the reduction of f over axes"""
    if reduction == "none":
        return (lambda i: f(i)), list(n)
    axes = list(range(len(n))) if not axes else axes
    keep = [d for d in range(len(n)) if d not in axes]

    def g(i):
        def body(*b):
            j = [None] * len(n)
            for d, v in zip(keep, i):
                j[d] = v
            for d, v in zip(sorted(axes), b):
                j[d] = v
            return f(j)
        s = e.sum_([tint(n[d]) for d in sorted(axes)], body)
        if reduction == "mean":
            c = 1
            for d in sorted(axes):
                c = c * n[d]
            s = treal(core.elem_div(core.SymReal(s), c))
        return s
    return g, [n[d] for d in keep]


def l10(v):
    return treal(core.unary("log10", core.SymReal(v)))


def h(cls, rank, axes, reduction, eps="sym"):
    def fn(e, L):
        m = L.load(f"torchimage.metrics.{cls.lower()}")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        a, b = inp("a", n), inp("b", n)
        mx = ep = None
        if cls == "MSE":
            obj = m.MSE(reduction=reduction) if reduction != "default" else m.MSE()
        elif eps == "default":
            obj = m.PSNR()
            mx, ep = 1, 0
        else:
            mx, ep = e.input_real("max_value"), e.input_real("eps")
            e.assume(treal(mx) > 0)
            obj = m.PSNR(mx, ep, reduction=reduction) if reduction != "default" else m.PSNR(mx, ep)
        red = "mean" if reduction == "default" else reduction
        full = None if axes is None else poolspec.norm_axes(a, axes)
        sq = lambda i: (getter(a)(i) - getter(b)(i)) * (getter(a)(i) - getter(b)(i))
        g, sh = reduced(e, sq, n, full, red)
        for nm, u, v in (("", a, b), ("swapped arguments: ", b, a)):
            y = obj.forward(u, v) if axes is None and reduction == "default" else obj.forward(u, v, axes) if nm else obj.forward(u, v, reduce_axes=axes)
            same_shape(e, y, sh, nm + "output")
            i = idx_fresh(e, sh)
            want = g([tint(v) for v in i])
            if cls == "PSNR":
                x = treal(ep)
                want = 20 * l10(treal(mx)) - 10 * l10(z3.If(x > 0, want + x, want))
            e.prove(treal(y.at(*i)) == want, nm + "value")
        unchanged(e, a, "first input unchanged")
        unchanged(e, b, "second input unchanged")
    return fn


def h_raise(cls):
    def fn(e, L):
        m = L.load(f"torchimage.metrics.{cls.lower()}")
        n = [e.input_int(f"n{d}", 1) for d in range(3)]
        k = e.input_int("k", 1)
        a, obj = inp("a", n), getattr(m, cls)()
        e.assume(tint(k) != tint(n[1]))
        for nm, sh in (("one size differs", [n[0], k, n[2]]), ("rank differs", [n[1], n[2]]), ("rank differs (1s in front)", [1] + list(n))):
            b = inp("b" + nm, sh)
            for u, v in ((a, b), (b, a)):
                expect_raises(e, Exception, lambda: obj.forward(u, v), f"{nm}: rejected")
        c = inp("c", n)
        for r in ("Mean", "avg", "", None):
            o = getattr(m, cls)(reduction=r)
            expect_raises(e, ValueError, lambda: o.forward(a, c), f"reduction {r!r} raises ValueError")
            expect_raises(e, ValueError, lambda: o.forward(a, c, reduce_axes=[0]), f"reduction {r!r} raises ValueError")
        expect_raises(e, ValueError, lambda: obj.forward(a, c, reduce_axes=[3]), "axis out of range raises ValueError")
    return fn


def case(cls, rank, axes, reduction, eps):
    def f(mdl, name):
        return {"cls": cls, "shape": [min(mdl.get(f"n{d}", 3), 8) for d in range(rank)], "axes": axes, "reduction": reduction, "dflt": eps == "default",
                "max": min(max(float(mdl.get("max_value", 1)), 1e-3), 1e3), "eps": float(mdl.get("eps", 0)), "seed": 1}
    return f


def harnesses(tier):
    hs = []
    ax = [(1, None), (1, [0]), (2, None), (2, [1]), (2, [-2]), (3, None), (3, [2, 0]), (3, 1), (4, [3, 1, 2]), (4, [-1]), (4, None), (3, [0, 1, 2]), (4, [0, 2])]
    for rank, axes in ax:
        for red in ("mean", "sum", "none", "default"):
            for cls in ("MSE", "PSNR"):
                hs.append(H(f"{cls}[rank {rank}, axes {axes}, {red}]", h(cls, rank, axes, red), to_case=case(cls, rank, axes, red, "sym")))
    hs.append(H("PSNR()", h("PSNR", 3, None, "default", "default"), to_case=case("PSNR", 3, None, "default", "default")))
    for cls in ("MSE", "PSNR"):
        hs.append(H(f"{cls}: rejected arguments", h_raise(cls), to_case=lambda m, n, cls=cls: {"cls": cls, "raise": 1}))
    return hs
