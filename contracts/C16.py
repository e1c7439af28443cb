from common import *
import poolspec
from poolspec import getter
from ssimspec import Maps, reduced
from C15 import build

FUNCS = ["torchimage.metrics.ssim.MS_SSIM." + f for f in ("__init__", "_downsample", "n_levels", "_cs_full", "_check_shape_large_enough", "forward")] + ["torchimage.metrics.ssim.SSIM." + f for f in ("_mu_sigma", "_ssim_full", "_crop_border", "_scale_factor")]
TRUSTED = ["AvgPoolNd.forward (kernel 2, stride 2, no padder), Padder.forward, same_padding_width and gaussian_kernel_1d are used through their contracts (C01-C07, C09)",
           "x ** w for symbolic weights is an uninterpreted function"]
ASSUMPTIONS = ["rank, axes lists, number of weights (1-5), option combinations and the kind of blur are enumerated; weights, kernels, sizes, contents, K1, K2 and eps are symbolic",
               "blur windows of more than one pixel when use_sample_covariance is set; denominators are non-zero (real division)"]


def pool2(e, get, shape, axes):
    """contract of AvgPoolNd(2, 2).forward over axes: halved sizes, contents a function of the input's contents"""
    out = list(shape)
    for a in axes:
        out[a] = core.floordiv(shape[a] - 2, 2) + 1
    sh = [tint(s) for s in shape]
    return (lambda i: e.node("avg2:" + "/".join(map(str, sorted(axes))), [tint(v) if not isinstance(v, z3.ExprRef) else v for v in i], [(sh, lambda *b: get(list(b)))])), out


def pool_stub(e, L):
    """the down-sampling pool; other AvgPoolNd objects (the blur) keep their own code"""
    u = L.load("torchimage.pooling.uniform")
    old = u.AvgPoolNd.forward

    def forward(self, x, axes=slice(2, None)):
        def is2(v):
            return all(core.is_num(q) and int(q) == 2 for q in v)
        if self.same_padder is None and is2(self.kernel_size) and is2(self.stride):
            ax = poolspec.norm_axes(x, axes)
            e.prove(len(set(ax)) == len(ax), "pre AvgPoolNd.forward: axes are distinct")
            g, sh = pool2(e, getter(x.clone()), list(x.shape), ax)
            return x.new(tuple(sh), x.dtype, lambda i: core.SymReal(g(list(i))))
        return old(self, x, axes=axes)
    u.AvgPoolNd.forward = forward


def h(rank, axes, red, blur, pad, own, opts, nw, prod):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        pool_stub(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        a, b = inp("a", n), inp("b", n)
        fullax = poolspec.norm_axes(a, slice(2, None) if axes == "default" else axes)
        redax = poolspec.norm_axes(a, slice(1, None) if red == "default" else red)
        kw = {}
        W, K1, K2, ep = [core.Fraction(v) for v in ("0.0448", "0.2856", "0.3001", "0.2363", "0.1333")], 0.01, 0.03, 1e-8
        if opts.get("K"):
            K1, K2, ep = e.input_real("K1"), e.input_real("K2"), e.input_real("eps")
            kw.update(K1=K1, K2=K2, eps=ep)
        if nw != "default":
            W = [e.input_real(f"w{j}") for j in range(nw)]
            kw["weights"] = tuple(W) if opts.get("tuple") else list(W)
        if prod is not None:
            kw["use_prod"] = prod
        for o in ("use_sample_covariance", "crop_border"):
            if o in opts:
                kw[o] = opts[o]
        sample, crop = opts.get("use_sample_covariance", True), opts.get("crop_border", True)
        obj, ws = build(e, L, blur, len(fullax), pad, own, kw, cls="MS_SSIM")
        eff = pad if pad is not None else own
        fac = 2 ** (len(W) - 1)
        p = 1
        for ax, (_, k) in zip(fullax, ws):
            e.assume(cmp(n[ax], k * fac, ">"))
            p = p * k
        if sample:
            e.assume(cmp(p, 2, ">="))
        args = {}
        if axes != "default":
            args["content_axes"] = axes
        if red != "default":
            args["reduce_axes"] = red
        # specification
        g1, g2, sh = getter(a), getter(b), list(n)
        parts = []
        for j in range(len(W)):
            mp = Maps(e, g1, g2, sh, fullax, ws, eff, K1, K2, sample)
            f, shc = mp.cropped(mp.full if j == len(W) - 1 else mp.cs, crop)
            parts.append(reduced(e, f, shc, fullax, "mean"))
            if j < len(W) - 1:
                g1, sh1 = pool2(e, g1, sh, fullax)
                g2, _ = pool2(e, g2, sh, fullax)
                sh = sh1
        keep = [d for d in range(rank) if d not in fullax]

        def sample_score(i):
            j = [i[d] for d in keep]
            tot = None
            for w, (g, _) in zip(W, parts):
                s = g(j)
                if prod is not False:
                    lo = treal(ep)
                    s = treal(core.power(core.SymReal(z3.If(s < lo, lo, s)), w))
                    tot = s if tot is None else tot * s
                else:
                    tot = s * treal(w) if tot is None else tot + s * treal(w)
            return tot
        psh = [1 if d in fullax else n[d] for d in range(rank)]
        g, osh = reduced(e, sample_score, psh, redax, "mean")
        y = obj.forward(a, b, **args)
        same_shape(e, y, osh, "output")
        q = idx_fresh(e, osh)
        e.prove(treal(y.at(*q)) == g([tint(v) for v in q]), "score")
        y2 = obj.forward(b, a, **args)
        e.prove(treal(y2.at(*q)) == treal(y.at(*q)), "symmetric")
        unchanged(e, a, "first input unchanged")
        unchanged(e, b, "second input unchanged")
    return fn


def h_small(nw, blur):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        pool_stub(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(4)]
        a, b = inp("a", n), inp("b", n)
        obj, ws = build(e, L, blur, 2, None, "reflect", {"weights": [0.5] * nw}, cls="MS_SSIM")
        fac = 2 ** (nw - 1)
        e.assume(core.swrap(z3.Or([tint(n[ax]) <= tint(k) * fac for ax, (_, k) in zip((2, 3), ws)])))
        expect_raises(e, Exception, lambda: obj.forward(a, b), "too small an image is rejected")
    return fn


def h_shapes(e, L):
    poolspec.use_contracts(e, L)
    pool_stub(e, L)
    n = [e.input_int(f"n{d}", 12) for d in range(4)]
    k = e.input_int("k", 12)
    e.assume(tint(k) != tint(n[1]))
    a = inp("a", n)
    obj, ws = build(e, L, "separable", 2, None, None, {"weights": [0.5]}, cls="MS_SSIM")
    for nm, sh in (("one size differs", [n[0], k, n[2], n[3]]), ("rank differs", n[1:])):
        b = inp("b" + nm, sh)
        for u, v in ((a, b), (b, a)):
            expect_raises(e, Exception, lambda: obj.forward(u, v), f"{nm}: rejected")


def case(rank, axes, red, blur, pad, own, opts, nw, prod, small=False):
    def f(mdl, name):
        g = mdl.get
        big = blur in ("default", "gaussian", "mean")
        ks = [11] * rank if big else [min(g("w_len", g("k", g(f"k{j}", 3))), 4) for j in range(rank)]
        w = None if nw == "default" else [float(g(f"w{j}", .5)) for j in range(nw)]
        fac = 2 ** ((5 if w is None else nw) - 1)
        return {"shape": [min(g(f"n{d}", 4), 12 * fac) for d in range(rank)], "axes": axes, "reduce": red, "blur": blur.split(",")[0], "ks": ks, "sigma": 1.0, "pad": pad, "own_pad": own, "weights": w, "prod": prod,
                "K1": float(g("K1", .01)), "K2": float(g("K2", .03)), "eps": float(g("eps", 1e-8)), "dfltK": not opts.get("K"), "opts": {k: v for k, v in opts.items() if k not in ("K", "tuple")}, "seed": 1}
    return f


def harnesses(tier):
    hs = []

    def add(*a):
        rank, axes, red, blur, pad, own, opts, nw, prod = a
        hs.append(H(f"MS_SSIM[rank {rank}, content {axes}, reduce {red}, {blur}, padder {pad}, own {own}, {opts}, {nw} weights, use_prod {prod}]", h(*a), budget=120, to_case=case(*a), hooks={"no_pow_facts": True}))
    for nw in (1, 2, 3):
        for prod in (True, False):
            add(4, "default", "default", "separable", "reflect", None, {"K": True}, nw, prod)
            add(3, [2, 0], None, "separable", None, None, {"K": True, "tuple": True}, nw, prod)
            add(3, [1, 2], [0], "gauss", None, "zeros", {"crop_border": False, "K": True}, nw, prod)
            add(2, [1], None, "avg", "symmetric", None, {"use_sample_covariance": False}, nw, prod)
            add(3, [-1, -2], [1, 2], "avg", None, "circular", {}, nw, prod)
    add(4, "default", "default", "gaussian", "reflect", None, {}, 2, None)
    add(4, "default", "default", "mean", "reflect", None, {}, 2, None)
    add(2, [0], None, "default", None, None, {}, "default", None)
    add(3, "default", "default", "separable", "reflect", None, {"K": True}, 4, True)
    if tier == "thorough":
        add(3, "default", "default", "separable", "reflect", None, {"K": True}, 5, False)
        add(4, "default", "default", "gauss", "zeros", None, {"K": True}, 4, True)
    for nw in (1, 2, 3, 5):
        hs.append(H(f"too small[{nw} weights]", h_small(nw, "separable"), to_case=case(4, "default", "default", "separable", None, "reflect", {}, nw, None, True)))
    hs.append(H("different shapes", h_shapes, to_case=lambda m, n: {"raise": 1}))
    return hs
