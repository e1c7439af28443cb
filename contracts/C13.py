from common import *
import poolspec
from poolspec import getter
from edgespec import ker, padkey

FUNCS = ["torchimage.filtering.sharpen.UnsharpMask.__init__", "torchimage.filtering.sharpen.UnsharpMask.forward", "torchimage.pooling.base.BasePoolNd.to_filter",
         "torchimage.pooling.base.SeparablePoolNd.forward"]
TRUSTED = ["Padder.forward, same_padding_width and gaussian_kernel_1d are used through their contracts (proved in C01-C05, C09)"]
ASSUMPTIONS = ["rank, axes lists and the kind of blur are enumerated; kernels, sizes, contents, amount and threshold are symbolic"]


def gk_stub(e, L):
    from dv.seq import SymList
    g = L.load("torchimage.pooling.gaussian")
    gk = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())

    def stub(kernel_size, sigma, order):
        w = lambda i: gk(tint(i) if not isinstance(i, z3.ExprRef) else i, tint(kernel_size), treal(sigma), tint(order))
        return SymList.make(kernel_size, lambda i: core.SymReal(w(i)))
    L.patch(g.gaussian_kernel_1d, stub)
    return lambda k, s, o=0: (lambda i: gk(tint(i) if not isinstance(i, z3.ExprRef) else i, tint(k), treal(s), tint(o)))


def make_blur(e, L, kind, m, own_pad):
    """-> (module, weights per axis [(w, k)], mean: divisor per axis or None)"""
    kw = {} if own_pad is None else {"same_padder": own_pad}
    if kind == "separable":
        arg, (w, k) = ker(e, "sym", "w")
        return L.load("torchimage.pooling.base").SeparablePoolNd(arg, **kw), [(w, k)] * m
    if kind == "separable, stride 2":
        arg, (w, k) = ker(e, "sym", "w")
        return L.load("torchimage.pooling.base").SeparablePoolNd(arg, 2, **kw), [(w, k)] * m
    if kind == "gauss":
        k, s = e.input_int("k", 1), e.input_real("sigma")
        u = gk_stub(e, L)
        return L.load("torchimage.pooling.gaussian").GaussianPoolNd(k, s, **kw), [(u(k, s), k)] * m
    if kind == "avg":
        ks = [e.input_int(f"k{j}", 1) for j in range(m)]
        return L.load("torchimage.pooling.uniform").AvgPoolNd(ks, **kw), [((lambda b, k=k: z3.RealVal(1) / z3.ToReal(tint(k))), k) for k in ks]
    raise KeyError(kind)


def h(rank, axes, kind, pad, own_pad, thr):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        m = L.load("torchimage.filtering.sharpen")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        ax_arg = slice(2, None) if axes == "default" else axes
        full = poolspec.norm_axes(x, ax_arg)
        blur, ws = make_blur(e, L, kind, len(full), own_pad)
        kw, amount, t = {}, 0.5, 0
        if thr != "default":
            amount, t = e.input_real("amount"), e.input_real("threshold")
            kw = {"amount": amount, "threshold": t}
        u = m.UnsharpMask(blur, **kw) if pad is None else m.UnsharpMask(blur, padder=pad, **kw)
        eff = pad if pad is not None else own_pad
        y = u.forward(x) if axes == "default" else u.forward(x, axes=axes)
        g, sh = poolspec.separable(e, getter(x), n, full, ws, [1] * len(full), padkey(eff))
        same_shape(e, y, n, "output")
        i = idx_fresh(e, n)
        xi = treal(x.at(*i))
        d = xi - g([tint(v) for v in i])
        tt = treal(t)
        dd = z3.If(z3.And(tt > 0, z3.If(d >= 0, d, -d) < tt), z3.RealVal(0), d)
        e.prove(treal(y.at(*i)) == xi + treal(amount) * dd, "x + amount * hard-thresholded (x - blur(x))")
        e.prove(y is not x, "the result is not the input")
        unchanged(e, x, "input unchanged")
        y2 = u.forward(x) if axes == "default" else u.forward(x, axes=axes)
        e.prove(treal(y2.at(*i)) == xi + treal(amount) * dd, "second call")
    return fn


def case(rank, axes, kind, pad, own, thr):
    def f(mdl, name):
        g = lambda k, d: mdl.get(k, d)
        return {"shape": [min(g(f"n{d}", 4), 9) for d in range(rank)], "axes": None if axes == "default" else axes, "default_axes": axes == "default", "kind": kind.split(",")[0], "stride": 2 if "stride" in kind else None,
                "ks": [min(g("w_len", g("k", g(f"k{j}", 3))), 7) for j in range(rank)], "sigma": 1.0, "pad": pad, "own_pad": own,
                "amount": float(g("amount", 0.5)) if thr != "default" else None, "thr": float(g("threshold", 0)) if thr != "default" else None, "seed": 1, "inplace": True}
    return f


def harnesses(tier):
    hs = []

    def add(*a):
        rank, axes, kind, pad, own, thr = a
        hs.append(H(f"UnsharpMask[rank {rank}, axes {axes}, {kind}, padder {pad}, own padder {own}, threshold {thr}]", h(*a), to_case=case(*a)))
    for kind in ("separable", "gauss", "avg", "separable, stride 2"):
        add(4, "default", kind, "reflect", None, "sym")
        add(3, [2, 0], kind, "zeros", "reflect", "sym")
        add(2, None, kind, None, "symmetric", "sym")
        add(3, "default", kind, "reflect", None, "default")
    add(2, [-1], "separable", "circular", None, "sym")
    add(2, 0, "avg", "replicate", None, "sym")
    add(1, [0], "gauss", "antisymmetric", None, "sym")
    if tier == "thorough":
        for pad in ("reflect", "zeros", "symmetric", "smooth", "odd_reflect"):
            for axes in ([0, 1, 2], [-1, -3], [1]):
                add(3, axes, "separable", pad, None, "sym")
                add(4, axes, "avg", None, pad, "sym")
    return hs
