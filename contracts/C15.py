from common import *
import poolspec
from poolspec import getter
from edgespec import ker
from ssimspec import Maps, reduced
from C13 import make_blur, gk_stub

FUNCS = ["torchimage.metrics.ssim.SSIM." + f for f in ("__init__", "_scale_factor", "_mu_sigma", "_ssim_full", "_crop_border", "_reduce", "forward")] + ["torchimage.pooling.base.BasePoolNd.to_filter"]
LEMMAS = ["lemmas/Extensions.lean"]
TRUSTED = ["Padder.forward, same_padding_width and gaussian_kernel_1d are used through their contracts (proved in C01-C05, C09)",
           "identical images: the local variance of a window with non-negative weights of sum 1 is non-negative (proved in lemmas/Extensions.lean: variance_nonneg, checked by Lean on every run; applied to the window sum by inspection)"]
ASSUMPTIONS = ["rank, axes lists, option combinations and the kind of blur are enumerated; kernels, sizes, contents, K1 and K2 are symbolic",
               "images larger than the blur window on the content axes; blur windows of more than one pixel when use_sample_covariance is set; denominators are non-zero (real division)"]


def eleven(e, L):
    """gaussian_kernel_1d must be asked for (11, 1.5, 0); its weights are then a list of any length K (the rest of the proof does not use K = 11)"""
    from dv.seq import SymList
    g = L.load("torchimage.pooling.gaussian")
    K = e.input_int("K", 2)
    f = e.uf("gk11", z3.IntSort(), z3.RealSort())

    def stub(kernel_size, sigma, order=0):
        e.prove(eq(kernel_size, 11) & eq(sigma, 1.5) & eq(order, 0), "the default blur is a Gaussian of 11 weights, sigma 1.5")
        return SymList.make(K, lambda i: core.SymReal(f(tint(i))))
    L.patch(g.gaussian_kernel_1d, stub)
    return (lambda b: f(b if isinstance(b, z3.ExprRef) else tint(b))), K


def eleven_mean(e, L):
    """AvgPoolNd must be asked for kernel size 11; the rest of the proof holds for any size K"""
    u = L.load("torchimage.pooling.uniform")
    K = e.input_int("K", 2)
    old = u.AvgPoolNd.__init__

    def init(self, kernel_size, *a, **k):
        if core.is_num(kernel_size) and int(kernel_size) == 2:
            return old(self, kernel_size, *a, **k)
        e.prove(eq(kernel_size, 11), "the mean blur has kernel size 11")
        old(self, K, *a, **k)
    u.AvgPoolNd.__init__ = init
    return K


def build(e, L, blur, m, pad, own, opts, cls="SSIM"):
    M = L.load("torchimage.metrics.ssim")
    kw = dict(opts)
    if pad is not None:
        kw["padder"] = pad
    C = getattr(M, cls)
    if blur in ("default", "gaussian"):
        w, k = eleven(e, L)
        ws = [(w, k)] * m
        obj = C(**kw) if blur == "default" else C(blur="gaussian", **kw)
    elif blur == "mean":
        k = eleven_mean(e, L)
        ws = [((lambda b: z3.RealVal(1) / z3.ToReal(tint(k))), k)] * m
        obj = C(blur="mean", **kw)
    else:
        p, ws = make_blur(e, L, blur, m, own)
        obj = C(blur=p, **kw)
    return obj, ws


def h(rank, axes, reduce_axes, blur, pad, own, opts, full=True, same=False):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        a = inp("a", n)
        b = a if same else inp("b", n)
        ca = slice(2, None) if axes == "default" else axes
        ra = slice(1, None) if reduce_axes == "default" else reduce_axes
        fullax, redax = poolspec.norm_axes(a, ca), poolspec.norm_axes(a, ra)
        kw = {}
        K1, K2 = 0.01, 0.03
        if opts.get("K"):
            K1, K2 = e.input_real("K1"), e.input_real("K2")
            kw.update(K1=K1, K2=K2)
        for o in ("use_sample_covariance", "crop_border"):
            if o in opts:
                kw[o] = opts[o]
        sample, crop = opts.get("use_sample_covariance", True), opts.get("crop_border", True)
        obj, ws = build(e, L, blur, len(fullax), pad, own, kw)
        eff = pad if pad is not None else own
        p = 1
        for ax, (_, k) in zip(fullax, ws):
            e.assume(cmp(n[ax], k, ">="))
            p = p * k
        if sample:
            if len(ws) and not core.is_num(ws[0][1]):
                e.assume(cmp(ws[0][1], 2, ">="))
            e.assume(cmp(p, 2, ">="))
        args = {}
        if axes != "default":
            args["content_axes"] = axes
        if reduce_axes != "default":
            args["reduce_axes"] = reduce_axes
        mp = Maps(e, getter(a), getter(b), n, fullax, ws, eff, K1, K2, sample)
        score, smap = obj.forward(a, b, full=True, **args)
        same_shape(e, smap, mp.sh, "map")
        i = idx_fresh(e, mp.sh)
        e.prove(treal(smap.at(*i)) == mp.full([tint(v) for v in i]), "full SSIM map")
        f, sh = mp.cropped(mp.full, crop)
        g, sh = reduced(e, f, sh, redax, "mean")
        same_shape(e, score, sh, "score")
        q = idx_fresh(e, sh)
        want = g([tint(v) for v in q])
        e.prove(treal(score.at(*q)) == want, "score")
        only = obj.forward(a, b, **args)
        e.prove(isinstance(only, SymTensor), "without full only the score is returned")
        e.prove(treal(only.at(*q)) == want, "score without full")
        s2, m2 = obj.forward(b, a, full=True, **args)
        e.prove(treal(m2.at(*i)) == treal(smap.at(*i)), "symmetric map")
        e.prove(treal(s2.at(*q)) == treal(score.at(*q)), "symmetric score")
        unchanged(e, a, "first input unchanged")
        unchanged(e, b, "second input unchanged")
    return fn


def h_same(rank, axes, blur, pad, opts):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        a = inp("a", n)
        obj, ws = build(e, L, blur, len(axes), pad, None, opts)
        sample = opts.get("use_sample_covariance", True)
        for ax, (_, k) in zip(axes, ws):
            e.assume(cmp(n[ax], k, ">="))
            if not core.is_num(k) and sample:
                e.assume(cmp(k, 2, ">="))
        mp = Maps(e, getter(a), getter(a), n, axes, ws, pad, 0.01, 0.03, sample)
        smap = obj.forward(a, a, content_axes=axes, reduce_axes=None, full=True)[1]
        i = idx_fresh(e, mp.sh)
        ii = [tint(v) for v in i]
        m1, m2, s1, s2, s12 = mp.parts(ii)
        e.assume(s1 >= 0)  # Jensen
        d1, d2 = mp.den(ii)
        e.prove(z3.And(m1 * m1 + m2 * m2 + mp.C1 > 0, d2 > 0), "denominators are positive")
        v = treal(smap.at(*i))
        e.prove(v * (d1 * d2) == (d1 * d2), "identical images: every entry of the map is 1")
    return fn


def h_raise(e, L):
    m = L.load("torchimage.metrics.ssim")
    poolspec.use_contracts(e, L)
    n = [e.input_int(f"n{d}", 12) for d in range(4)]
    k = e.input_int("k", 12)
    e.assume(tint(k) != tint(n[1]))
    gk_stub(e, L)
    a = inp("a", n)
    for nm, sh in (("one size differs", [n[0], k, n[2], n[3]]), ("rank differs", n[1:])):
        b = inp("b" + nm, sh)
        for u, v in ((a, b), (b, a)):
            expect_raises(e, Exception, lambda: m.SSIM().forward(u, v), f"{nm}: rejected")


def case(rank, axes, red, blur, pad, own, opts):
    def f(mdl, name):
        g = mdl.get
        ks = [min(g("w_len", g("k", g(f"k{j}", 3))), 5) for j in range(rank)]
        if blur in ("default", "gaussian", "mean"):
            ks = [11] * rank
        return {"shape": [max(min(g(f"n{d}", 4), 13), max(ks) if blur in ("default", "gaussian", "mean") or d >= 0 else 1) for d in range(rank)], "axes": axes, "reduce": red, "blur": blur.split(",")[0], "ks": ks, "sigma": 1.0,
                "pad": pad, "own_pad": own, "K1": float(g("K1", 0.01)), "K2": float(g("K2", 0.03)), "opts": {k: v for k, v in opts.items() if k != "K"}, "dfltK": not opts.get("K"), "seed": 1}
    return f


def harnesses(tier):
    hs = []

    def add(rank, axes, red, blur, pad, own, opts):
        hs.append(H(f"SSIM[rank {rank}, content {axes}, reduce {red}, {blur}, padder {pad}, own {own}, {opts}]", h(rank, axes, red, blur, pad, own, opts), budget=90, to_case=case(rank, axes, red, blur, pad, own, opts)))
    K = {"K": True}
    add(4, "default", "default", "default", None, None, {})
    add(4, "default", "default", "gaussian", "reflect", None, K)
    add(3, [1, 2], None, "mean", "symmetric", None, K)
    for s in (True, False):
        for c in (True, False):
            o = {"K": True, "use_sample_covariance": s, "crop_border": c}
            add(3, [2, 0], [0, 2], "separable", "reflect", None, o)
            add(3, [-2, -1], "default", "separable", None, None, o)
            add(4, "default", [2, 3], "avg", None, "zeros", o)
            add(2, [1], None, "gauss", "circular", None, o)
            add(2, None, None, "avg", "reflect", "zeros", o)
            add(3, [1, 2], [2], "separable, stride 2", "symmetric", None, o)
    for s in (True, False):
        for blur, pad in (("separable", "reflect"), ("avg", None), ("gauss", "zeros"), ("default", "reflect")):
            o = {"use_sample_covariance": s}
            hs.append(H(f"identical images[{blur}, {pad}, {o}]", h_same(3, [1, 2], blur, pad, o), to_case=case(3, [1, 2], None, blur, pad, None, dict(o, same=True))))
    hs.append(H("different shapes", h_raise, to_case=lambda m, n: {"raise": 1}))
    return hs
