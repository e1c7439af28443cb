from common import *
import poolspec
import edgespec
from poolspec import getter
from edgespec import ker, padkey

FUNCS = ["torchimage.filtering.edges.EdgeFilter.__init__", "torchimage.filtering.edges.EdgeFilter._conv_edge", "torchimage.filtering.edges.EdgeFilter._conv_smooth",
         "torchimage.filtering.edges.EdgeFilter.component", "torchimage.filtering.edges.EdgeFilter.all_components", "torchimage.filtering.edges.EdgeFilter.horizontal",
         "torchimage.filtering.edges.EdgeFilter.vertical", "torchimage.filtering.edges.Sobel", "torchimage.filtering.edges.Prewitt", "torchimage.filtering.edges.Scharr",
         "torchimage.filtering.edges.Farid", "torchimage.filtering.edges.GaussianGrad.__init__", "torchimage.pooling.base.SeparablePoolNd", "torchimage.padding.utils.make_idx"]
TRUSTED = ["Padder.forward and same_padding_width are used through their contracts (proved in C01-C05), gaussian_kernel_1d through C09"]
ASSUMPTIONS = ["rank and axes lists are enumerated; kernel lengths and weights, sizes and contents are symbolic", "mode periodize on odd sizes grows the tensor and is excluded"]


def h_comp(rank, edge_axis, smooth_axes, ek, sk, pad="reflect", normalize=False, method="component", dtype=FLOAT64, cls=None):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        m = L.load("torchimage.filtering.edges")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n, dtype)
        ea, ed = ker(e, ek, "edge")
        sa, sm = ker(e, sk, "smooth")
        if pad is None:
            full = poolspec.norm_axes(x, edge_axis if method == "component" else smooth_axes)
            for a in full:
                e.assume(cmp(ed[1], n[a], "<="))
            for a in poolspec.norm_axes(x, smooth_axes):
                e.assume(cmp(sm[1], n[a], "<="))
        if normalize:
            S = e.sum_([tint(sm[1])], lambda b: sm[0](b))
            e.assume(S != 0)
            w0 = sm[0]
            sm = ((lambda b: w0(b) / S), sm[1])
        f = m.EdgeFilter(ea, sa, normalize=normalize, same_padder=pad) if cls is None else getattr(m, cls)(normalize=normalize, same_padder=pad)
        if normalize:
            got = f.smooth_kernel.data
            ln = got.length() if hasattr(got, "length") else len(got)
            e.prove(eq(ln, sm[1]), "normalize keeps the kernel's length")
            e.prove(e.sum_([tint(sm[1])], lambda b: treal(got.at(core.wrap(b)) if hasattr(got, 'at') else got[int(str(b))])) == 1, "normalize: the smoothing kernel sums to 1")
        calls = {"component": lambda: [f.component(x, edge_axis, smooth_axes)], "horizontal": lambda: [f.horizontal(x)], "vertical": lambda: [f.vertical(x)],
                 "all": lambda: f.all_components(x, smooth_axes)}
        if method == "horizontal":
            es, ss = [rank - 2], [rank - 1]
        elif method == "vertical":
            es, ss = [rank - 1], [rank - 2]
        else:
            ss = poolspec.norm_axes(x, smooth_axes)
            es = poolspec.norm_axes(x, edge_axis) if method == "component" else ss
        ys = calls[method]()
        e.prove(len(ys) == len(es), "one component per listed axis")
        for y, a in zip(ys, es):
            want, shape = edgespec.component(e, getter(x), n, a, ss, ed, sm, padkey(pad))
            same_shape(e, y, shape, "component")
            if pad is not None:
                same_shape(e, y, n, "the input's shape")
            e.prove(y.dtype is dtype, "dtype")
            i = [tint(v) for v in idx_fresh(e, y.shape)]
            e.prove(treal(y.at(*[core.wrap(v) for v in i])) == want(i), "edge kernel along the edge axis, smoothing kernel along the others")
        unchanged(e, x, "input unchanged")
    return fn


def h_raise(e, L):
    poolspec.use_contracts(e, L)
    m = L.load("torchimage.filtering.edges")
    x = inp("x", [e.input_int(f"n{d}", 1) for d in range(3)])
    f = m.Sobel()
    expect_raises(e, ValueError, lambda: f.component(x, (0, 1), 2), "two edge axes raise ValueError")
    expect_raises(e, ValueError, lambda: f.all_components(x, (1,)), "fewer than two axes raise ValueError")
    expect_raises(e, ValueError, lambda: m.EdgeFilter([[1.0, 2.0], [1.0, 3.0]], [1.0]), "two edge kernels raise ValueError")


def h_ggrad(form):
    def fn(e, L):
        g = L.load("torchimage.pooling.gaussian")
        m = L.load("torchimage.filtering.edges")
        poolspec.use_contracts(e, L)
        from dv.seq import SymList
        gk = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
        u = lambda k, s, o: (lambda i: gk(tint(i) if not isinstance(i, z3.ExprRef) else i, tint(k), treal(s), tint(o)))

        def stub(kernel_size, sigma, order):
            w = u(kernel_size, sigma, order)
            if core.is_num(order) and int(order) == 0:
                e.assume(e.sum_([tint(kernel_size)], w) == 1)  # contract (C09)
            return SymList.make(kernel_size, lambda i: core.SymReal(w(i)))
        L.patch(g.gaussian_kernel_1d, stub)
        k, s = e.input_int("k", 1), e.input_real("s")
        k2, s2, o = e.input_int("k2", 1), e.input_real("s2"), e.input_int("o", 1)
        f = m.GaussianGrad(k, s) if form == "default" else m.GaussianGrad(k, s, k2, s2, edge_order=o)
        ed, sm = f.edge_kernel.data, f.smooth_kernel.data
        kk, ss, oo = (k, s, 1) if form == "default" else (k2, s2, o)
        e.prove(eq(ed.length(), kk), "edge kernel size")
        e.prove(eq(sm.length(), k), "smoothing kernel size")
        i, j = idx_fresh(e, [kk, k])
        e.prove(treal(ed.at(i)) == u(kk, ss, oo)(i), "edge kernel is the Gaussian derivative")
        e.prove(treal(sm.at(j)) == u(k, s, 0)(j), "smoothing kernel is the Gaussian")
        e.prove(f.same_padder == "reflect", "default padding")
    return fn


def case(rank, edge_axis, smooth_axes, ek, sk, pad, normalize, method, cls):
    def f(m, name):
        def kv(kind, base):
            if kind == "sym":
                return None, min(m.get(base + "_len", 3), 7)
            if isinstance(kind, int):
                return [float(m.get(f"{base}{j}", 1)) for j in range(kind)], kind
            return list(kind), len(kind)
        e0, el = kv(ek, "edge")
        s0, sl = kv(sk, "smooth")
        return {"shape": [max(3 if pad is None else 1, min(m[f"n{d}"], 9)) for d in range(rank)], "edge": e0, "elen": el, "smooth": s0, "slen": sl, "edge_axis": edge_axis,
                "axes": smooth_axes, "pad": pad, "normalize": normalize, "method": method, "cls": cls, "seed": 1}
    return f


FARID_S = [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]
FARID_E = [-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254]
PRESETS = {"Sobel": ((-1, 0, 1), (1, 2, 1)), "Prewitt": ((-1, 0, 1), (1, 1, 1)), "Scharr": ((-1, 0, 1), (3, 10, 3)), "Farid": (tuple(FARID_E), tuple(FARID_S))}


def harnesses(tier):
    hs = []

    def add(rank, ea, sa, ek, sk, pad="reflect", normalize=False, method="component", cls=None, **kw):
        nm = f"{cls or 'EdgeFilter'}.{method}[rank {rank}, edge {ea}, smooth {sa}, kernels {ek if cls is None else ''}/{sk if cls is None else ''}, pad {pad}{', normalize' if normalize else ''}{''.join(' ' + str(v) for v in kw.values())}]"
        hs.append(H(nm, h_comp(rank, ea, sa, ek, sk, pad, normalize, method, cls=cls, **kw), to_case=case(rank, ea, sa, ek, sk, pad, normalize, method, cls)))
    for pad in ("reflect", "zeros", None):
        add(2, 0, 1, "sym", "sym", pad)
        add(2, -1, 0, 3, "sym", pad)
        add(3, 1, None, 3, 3, pad)
        add(3, 2, [1, 2], "sym", "sym", pad)
        add(3, 0, [2, 1], 3, "sym", pad)
    for k in (1, 2, 3, 4, 5):
        add(2, 1, [0, 1], k, "sym")
    add(2, 0, [1], (-1, 0, 1), "sym")
    add(2, 1, [0, 1], (1, -2, 1), "sym", "symmetric")
    add(3, 1, [0, 2], (1, -2, 1), (), "symmetric")
    add(2, 1, [1], "sym", "sym")
    add(2, 0, [1], (-1.5, 0.5, 1.0), "sym")
    add(2, 0, [0, 1], "sym", "sym", normalize=True)
    add(2, 1, [0, 1], 3, 3, normalize=True)
    add(3, 0, [0, 1], "sym", "sym", method="horizontal")
    add(3, 0, [0, 1], "sym", "sym", method="vertical")
    add(2, 0, [0, 1], 3, 3, method="horizontal")
    add(2, 0, None, "sym", "sym", method="all")
    add(3, 0, [2, 0], "sym", "sym", method="all")
    add(3, 0, [1, 2], 3, "sym", None, method="all")
    add(4, 0, [2, 3], "sym", "sym", dtype=FLOAT32)
    for c, (a, b) in PRESETS.items():
        for meth in ("component", "all"):
            add(2, 1, [0, 1], a, b, method=meth, cls=c)
        add(3, -1, [1, 2], a, b, "symmetric", True, cls=c)
        add(4, 0, None, a, b, "circular", method="vertical", cls=c)
    hs.append(H("rejections", h_raise))
    hs += [H(f"GaussianGrad[{f}]", h_ggrad(f)) for f in ("default", "explicit")]
    return hs
