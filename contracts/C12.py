from common import *
import poolspec
import edgespec
from poolspec import getter
from edgespec import ker, padkey

FUNCS = ["torchimage.filtering.edges.EdgeFilter.magnitude", "torchimage.filtering.edges.Laplace.__init__", "torchimage.filtering.edges.Laplace.forward",
         "torchimage.filtering.edges.LaplacianOfGaussian.__init__", "torchimage.filtering.edges.LaplacianOfGaussian.forward"]
TRUSTED = ["EdgeFilter.component through its contract (C11) for magnitude; Padder.forward and gaussian_kernel_1d through C01-C05, C09",
           "x ** p for non-integer exponents is an uninterpreted function"]
ASSUMPTIONS = ["rank and axes lists are enumerated; epsilon, sizes and contents are symbolic; p is 1, 2, 3, 4 or any other real"]


def powr(v, p):
    return treal(core.power(core.SymReal(v), p))


def h_mag(rank, axes, p, eps, pad="reflect", alias=False):
    def fn(e, L):
        m = L.load("torchimage.filtering.edges")
        poolspec.use_contracts(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        full = poolspec.norm_axes(x, axes)
        comp = {}

        def stub(self, x_, edge_axis, smooth_axes):
            """contract of component: a tensor of the input's shape, a function of the filter, input, edge axis and smoothing axes; possibly the input itself"""
            cut = takes_gradient(e, x_)
            e.prove(x_ is x or cut is not None, "component is asked about the input")
            a, = poolspec.norm_axes(x, edge_axis)
            s = tuple(q for q in poolspec.norm_axes(x, smooth_axes) if q != a)
            if alias:
                return x_
            f = e.uf(f"component:{a}:{s}", *([z3.IntSort()] * rank + [z3.RealSort()]))
            comp[a] = s
            return SymTensor.from_fn(tuple(n), FLOAT64, lambda i: (cut or (lambda v: v))(core.SymReal(f(*[tint(v) for v in i]))))
        m.EdgeFilter.component = stub
        pp = e.input_real("p") if p == "sym" else p
        if p == "sym":
            e.assume(z3.And(treal(pp) != 0, treal(pp) != 1))
        ep = e.input_real("eps") if eps == "sym" else eps
        f = m.EdgeFilter([1.0, 2.0, 3.0], [1.0], same_padder=pad)
        y = f.magnitude(x, axes, epsilon=ep, p=pp) if eps is not None else f.magnitude(x, axes, p=pp) if p != 2 else f.magnitude(x, axes)
        same_shape(e, y, n, "output")
        i = [tint(v) for v in idx_fresh(e, n)]
        tot = z3.RealVal(0)
        for a in full:
            if alias:
                c = getter(x)(i) if False else treal(x.at(*[core.wrap(v) for v in i]))
            else:
                s = tuple(q for q in full if q != a)
                c = e.uf(f"component:{a}:{s}", *([z3.IntSort()] * rank + [z3.RealSort()]))(*i)
            tot = tot + (c if p == 1 else powr(c, pp))
        tot = tot + treal(ep if eps is not None else 0)
        want = tot if p == 1 else powr(tot, 1 / pp)
        if alias:
            unchanged(e, x, "input unchanged when a component is the input itself")
        e.prove(treal(y.at(*[core.wrap(v) for v in i])) == want, "(sum of component^p + epsilon)^(1/p)")
        unchanged(e, x, "input unchanged")
        e.prove(y is not x, "the result is not the input")
    return fn


def h_raise(e, L):
    poolspec.use_contracts(e, L)
    m = L.load("torchimage.filtering.edges")
    x = inp("x", [e.input_int(f"n{d}", 1) for d in range(3)])
    for ax in ((1,), (), 2):
        expect_raises(e, ValueError, lambda: m.Sobel().magnitude(x, ax), f"magnitude over axes {ax} raises ValueError")
        expect_raises(e, ValueError, lambda: m.Laplace().forward(x, ax), f"Laplace over axes {ax} raises ValueError")
        expect_raises(e, ValueError, lambda: m.LaplacianOfGaussian(3, 1.0).forward(x, ax), f"LaplacianOfGaussian over axes {ax} raises ValueError")
    v = inp("v", [e.input_int("m", 1)])
    expect_raises(e, ValueError, lambda: m.Sobel().magnitude(v), "magnitude of a 1-d tensor raises ValueError")


def h_laplace(rank, axes, pad):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        m = L.load("torchimage.filtering.edges")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        full = poolspec.norm_axes(x, axes)
        f = m.Laplace(same_padder=pad) if pad != "default" else m.Laplace()
        y = f.forward(x, axes)
        same_shape(e, y, n, "output")
        i = [tint(v) for v in idx_fresh(e, n)]
        tot = z3.RealVal(0)
        key = "reflect" if pad == "default" else pad
        for a in full:
            get, _ = poolspec.padded(e, getter(x), n, [(a, 1, 1, key, [])])
            sh = lambda d: [v + (d if q == a else 0) for q, v in enumerate(i)]
            tot = tot + get(sh(2)) - 2 * get(sh(1)) + get(sh(0))
        e.prove(treal(y.at(*[core.wrap(v) for v in i])) == tot, "sum of padded second differences")
        unchanged(e, x, "input unchanged")
    return fn


def h_log(rank, axes, pad):
    def fn(e, L):
        from dv.seq import SymList
        poolspec.use_contracts(e, L)
        g = L.load("torchimage.pooling.gaussian")
        m = L.load("torchimage.filtering.edges")
        gk = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
        u = lambda k, s, o: (lambda i: gk(tint(i) if not isinstance(i, z3.ExprRef) else i, tint(k), treal(s), tint(o)))

        def stub(kernel_size, sigma, order):
            w = u(kernel_size, sigma, order)
            if core.is_num(order) and int(order) == 0:
                e.assume(e.sum_([tint(kernel_size)], w) == 1)  # contract (C09)
            return SymList.make(kernel_size, lambda i: core.SymReal(w(i)))
        L.patch(g.gaussian_kernel_1d, stub)
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        k, s = e.input_int("k", 1), e.input_real("s")
        e.assume(tint(k) != 3)  # (the three-tap shortcuts of _conv_edge are covered by C11)
        f = m.LaplacianOfGaussian(k, s, same_padder=pad) if pad != "default" else m.LaplacianOfGaussian(k, s)
        y = f.forward(x, axes) if axes is not None else f.forward(x)
        full = poolspec.norm_axes(x, axes)
        same_shape(e, y, n, "output")
        i = [tint(v) for v in idx_fresh(e, n)]
        tot = z3.RealVal(0)
        key = "reflect" if pad == "default" else pad
        for a in full:
            get, _ = edgespec.component(e, getter(x), n, a, full, (u(k, s, 2), k), (u(k, s, 0), k), padkey(key))
            tot = tot + get(i)
        e.prove(treal(y.at(*[core.wrap(v) for v in i])) == tot, "sum of second-order Gaussian derivative components")
        unchanged(e, x, "input unchanged")
    return fn


def case(kind, rank, axes, p, eps, pad):
    def f(m, name):
        pv = float(m.get("p", 2)) if p == "sym" else p
        return {"kind": kind, "shape": [min(m.get(f"n{d}", 4), 9) for d in range(rank)], "axes": axes, "p": pv, "eps": float(m.get("eps", 0)) if eps == "sym" else eps, "pad": pad,
                "k": min(m.get("k", 3), 7), "sigma": 1.0, "seed": 1, "filter": "Sobel"}
    return f


def harnesses(tier):
    hs = []
    for rank, axes in ((2, None), (3, [2, 0]), (3, [-1, -2]), (3, None), (4, [2, 3])):
        for p in (1, 2, 3, "sym"):
            for eps in ("sym", None) if rank < 4 else ("sym",):
                hs.append(H(f"magnitude[rank {rank}, axes {axes}, p {p}, epsilon {eps}]", h_mag(rank, axes, p, eps), to_case=case("mag", rank, axes, p, eps, "reflect")))
    hs.append(H("magnitude[p 4]", h_mag(2, [1, 0], 4, 0.0), to_case=case("mag", 2, [1, 0], 4, 0.0, "reflect")))
    for p in (1, 2):
        hs.append(H(f"magnitude[component is the input, p {p}]", h_mag(2, None, p, "sym", alias=True), to_case=lambda m, n, p=p: {"kind": "alias", "shape": [3, 4], "axes": None, "p": p, "eps": 1.0, "pad": None, "seed": 1}))
    hs.append(H("fewer than two axes", h_raise))
    for rank, axes, pad in ((2, [0, 1], "default"), (3, [2, 1], "symmetric"), (3, None, "zeros"), (4, [-1, -2], "circular")):
        hs.append(H(f"Laplace[rank {rank}, axes {axes}, {pad}]", h_laplace(rank, axes, pad), to_case=case("laplace", rank, axes, 1, 0, pad)))
        hs.append(H(f"LaplacianOfGaussian[rank {rank}, axes {axes}, {pad}]", h_log(rank, axes, pad), to_case=case("log", rank, axes, 1, 0, pad)))
    return hs
