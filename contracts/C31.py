from common import *
import poolspec
import edgespec
from poolspec import getter
from edgespec import padkey
from C14 import reduced

FUNCS = ["torchimage.contrib.edge_loss.GaussianEdgeLoss.__init__", "torchimage.contrib.edge_loss.GaussianEdgeLoss._get_edge_tensor", "torchimage.contrib.edge_loss.GaussianEdgeLoss.forward",
         "torchimage.contrib.edge_loss.WeightedMul.forward", "torchimage.contrib.edge_loss.WeightedDiv.forward", "torchimage.contrib.edge_loss.WeightedSum.forward",
         "torchimage.filtering.edges.EdgeFilter.all_components", "torchimage.filtering.edges.EdgeFilter.component", "torchimage.filtering.edges.GaussianGrad.__init__"]
TRUSTED = ["Padder.forward, same_padding_width and gaussian_kernel_1d are used through their contracts (proved in C01-C05, C09)", "nn.L1Loss is the mean absolute difference (its documented formula)"]
ASSUMPTIONS = ["NCHW images (rank 4) of equal shape; sizes, contents, kernel size, sigma and order are symbolic (kernel size 3, where _conv_edge may take a shortcut, is covered by C11)"]


def kernels(e, L):
    """gaussian_kernel_1d by contract (C09): kernel_size weights, of sum 1 for order 0"""
    from dv.seq import SymList
    g = L.load("torchimage.pooling.gaussian")
    gk = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
    u = lambda k, s, o: (lambda i: gk(tint(i) if not isinstance(i, z3.ExprRef) else i, tint(k), treal(s), tint(o)))

    def stub(kernel_size, sigma, order=0):
        w = u(kernel_size, sigma, order)
        if core.is_num(order) and int(order) == 0:
            e.assume(e.sum_([tint(kernel_size)], w) == 1)
        return SymList.make(kernel_size, lambda i: core.SymReal(w(i)))
    L.patch(g.gaussian_kernel_1d, stub)
    return u


def h(cls, order, same=False):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        m = L.load("torchimage.contrib.edge_loss")
        u = kernels(e, L)
        n = [e.input_int(f"n{d}", 1) for d in range(4)]
        a = inp("a", n)
        b = a if same else inp("b", n)
        k, s = e.input_int("k", 1), e.input_real("s")
        o = e.input_int("order", 1) if order == "sym" else order
        e.assume(tint(k) != 3)
        loss = getattr(m, cls)(k, s, o)
        y = loss.forward(a, b)
        same_shape(e, y, [], "loss")

        def edges(x):
            g = getter(x)
            cs = [edgespec.component(e, g, n, ax, [2, 3], (u(k, s, o), k), (u(k, s, 0), k), padkey("reflect"))[0] for ax in (2, 3)]
            C = tint(n[1])
            # the components along axis 2, then those along axis 3, one after the other on the channel axis
            return lambda i: z3.If(i[1] < C, cs[0](i), cs[1]([i[0], i[1] - C, i[2], i[3]]))
        p, t = edges(a), edges(b)
        ab = lambda v: z3.If(v >= 0, v, -v)
        sh = [n[0], 2 * n[1], n[2], n[3]]
        if cls == "GaussianEdgeLoss":
            w, _ = reduced(e, lambda i: ab(p(i) - t(i)), sh, [0, 1, 2, 3], "mean")
        elif cls == "WeightedMul":
            w, _ = reduced(e, lambda i: ab(t(i) - p(i)) * t(i), sh, [0, 1, 2, 3], "mean")
        elif cls == "WeightedDiv":
            w, _ = reduced(e, lambda i: ab(t(i) - p(i)) / t(i), sh, [0, 1, 2, 3], "mean")
        else:
            ft, s2 = reduced(e, lambda i: ab(t(i)), sh, [2, 3], "mean")
            fp, _ = reduced(e, lambda i: ab(p(i)), sh, [2, 3], "mean")
            w, _ = reduced(e, lambda i: ab(ft(i) - fp(i)), s2, [0, 1], "mean")
        if same:
            e.prove(treal(y.at()) == 0, "identical images: the loss is 0")
        else:
            e.prove(treal(y.at()) == w([]), "loss")
            unchanged(e, a, "first image unchanged")
            unchanged(e, b, "second image unchanged")
    return fn


def case(cls, order, same=False):
    def f(m, name):
        return {"cls": cls, "shape": [min(m.get(f"n{d}", 2), 3) for d in range(2)] + [min(m.get(f"n{d}", 6), 8) for d in (2, 3)], "k": min(m.get("k", 5) | 1, 7), "sigma": 1.3,
                "order": min(max(1, m.get("order", 1)), 3) if order == "sym" else order, "same": same, "seed": 1}
    return f


def harnesses(tier):
    hs = []
    for cls in ("GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"):
        for o in (1, 2, "sym"):
            hs.append(H(f"{cls}[order {o}]", h(cls, o), to_case=case(cls, o), budget=90))
        if cls in ("GaussianEdgeLoss", "WeightedSum"):
            hs.append(H(f"{cls}[identical images]", h(cls, 1, True), to_case=case(cls, 1, True), budget=90))
    return hs
