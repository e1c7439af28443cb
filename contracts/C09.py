from common import *
import poolspec

FUNCS = ["torchimage.pooling.gaussian._gaussian_kernel1d", "torchimage.pooling.gaussian.gaussian_kernel_1d", "torchimage.pooling.gaussian.GaussianPoolNd._get_kernel",
         "torchimage.pooling.gaussian.GaussianPoolNd.__init__"]
TRUSTED = ["exp is an uninterpreted function with exp > 0 (its values are not interpreted further)"]
ASSUMPTIONS = ["kernel sizes and sigma are symbolic; the derivative order is enumerated (0..4 quick, 0..6 thorough; higher orders by the bounded run)"]


def E(sig2):
    """j -> exp(-j^2 / (2 sigma^2))"""
    return lambda j: treal(core.unary("exp", core.SymReal(-(z3.ToReal(j) * z3.ToReal(j)) / (2 * sig2))))


def hermite(n, j, sig2):
    """H with (d/dx)^n exp(-x^2/2s^2) = H(x) exp(-x^2/2s^2), from H' - x/s^2 H"""
    co = [z3.RealVal(1)]
    for _ in range(n):
        new = [z3.RealVal(0)] * (len(co) + 1)
        for i, c in enumerate(co):
            if i:
                new[i - 1] = new[i - 1] + i * c
            new[i + 1] = new[i + 1] - c / sig2
        co = new
    x = z3.ToReal(j)
    r, p = z3.RealVal(0), z3.RealVal(1)
    for c in co:
        r = r + c * p
        p = p * x
    return r


def weights(res):
    """the returned list as (length, weight function)"""
    n = res.length() if hasattr(res, "length") and res.sym is not None else len(res)
    return n, lambda i: treal(res.at(core.wrap(i)))


def h_order0(parity):
    def fn(e, L):
        m = L.load("torchimage.pooling.gaussian")
        h = e.input_int("h", 0 if parity else 1)
        k = 2 * h + 1 if parity else 2 * h
        s = e.input_real("sigma")
        e.assume(treal(s) > 0)
        s2 = treal(s) * treal(s)
        f = E(s2)
        k_ = tint(k)
        half = tint(h)
        # the positive normalising sums (of the full odd kernel, and of the truncated one)
        full = e.sum_pos([2 * half + 1], lambda b: f(b - half), "sum over offsets -h..h")
        S = e.sum_pos([k_], lambda b: f(b - half), "sum over the kernel's offsets")
        res = m.gaussian_kernel_1d(k, s, 0)
        n, w = weights(res)
        e.prove(eq(n, k), "exactly kernel_size weights")
        i = tint(idx_fresh(e, [k])[0])
        e.prove(w(i) * S == f(i - half), "weights are exp(-x^2/2sigma^2) over the sum, at offsets -(k//2)+i")
        e.prove(w(i) > 0, "weights are non-negative")
        e.prove(e.sum_([k_], lambda b: w(b)) == 1, "weights sum to 1")
        if parity:
            e.prove(w(i) == w(2 * half - i), "symmetric")
    return fn


def h_order(n, parity=True):
    def fn(e, L):
        m = L.load("torchimage.pooling.gaussian")
        h = e.input_int("h", 0)
        k = 2 * h + 1
        s = e.input_real("sigma")
        e.assume(treal(s) > 0)
        s2 = treal(s) * treal(s)
        f = E(s2)
        half = tint(h)
        S = e.sum_pos([2 * half + 1], lambda b: f(b - half), "sum over offsets -h..h")
        res = m.gaussian_kernel_1d(k, s, n)
        ln, w = weights(res)
        e.prove(eq(ln, k), "exactly kernel_size weights")
        i = tint(idx_fresh(e, [k])[0])
        x = i - half
        e.prove(w(i) * S == (-1) ** n * hermite(n, x, s2) * f(x), "weights are (-1)^n H_n(x) g(x)")
        e.prove(w(2 * half - i) == (-1) ** n * w(i), "symmetric or antisymmetric")
    return fn


def h_neg(e, L):
    m = L.load("torchimage.pooling.gaussian")
    k = e.input_int("k", 1)
    s = e.input_real("sigma")
    o = e.input_int("order", None, -1)
    expect_raises(e, ValueError, lambda: m.gaussian_kernel_1d(k, s, o), "a negative order raises ValueError")


def h_module(form):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        g = L.load("torchimage.pooling.gaussian")
        from dv.seq import SymList
        calls = []

        def stub(kernel_size, sigma, order):
            f = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
            calls.append((kernel_size, sigma, order))
            a = (tint(kernel_size), treal(sigma), tint(order))
            return SymList.make(kernel_size, lambda i: core.SymReal(f(tint(i), *a)))
        L.patch(g.gaussian_kernel_1d, stub)
        k = [e.input_int(f"k{j}", 1) for j in range(2)]
        s = [e.input_real(f"s{j}") for j in range(2)]
        o = [e.input_int(f"o{j}", 0) for j in range(2)]
        K, S_, O = {"lists": (list(k), list(s), list(o)), "scalars": (k[0], s[0], o[0]), "size list": (list(k), s[0], o[0]), "default": (k[0], s[0], None)}[form]
        p = g.GaussianPoolNd(K, S_) if form == "default" else g.GaussianPoolNd(K, S_, O)
        for j in range(2):
            kk = k[j] if form in ("lists", "size list") else k[0]
            ss = s[j] if form == "lists" else s[0]
            oo = 0 if form == "default" else o[j] if form == "lists" else o[0]
            ker = p.kernel[j]
            e.prove(eq(p.kernel_size[j], kk), f"axis {j}: kernel size")
            e.prove(eq(p.stride[j], kk), f"axis {j}: default stride is the kernel size")
            i = idx_fresh(e, [kk])[0]
            f = e.uf("gk", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
            e.prove(treal(ker[i]) == f(tint(i), tint(kk), treal(ss), tint(oo)), f"axis {j}: kernel of (size, sigma, order)")
    return fn


def case(o):
    def f(m, name):
        s = m.get("sigma", 1)
        if "h" not in m:
            return {"k": m.get("k", 3), "sigma": 1.0, "order": m.get("order", -1)}
        k = 2 * min(m["h"], 40) + (0 if "even" in name else 1)
        return {"k": k, "sigma": float(min(max(float(s), 0.3), 50)), "order": o}
    return f


def harnesses(tier):
    hs = [H("order 0, odd size", h_order0(1), to_case=case(0)), H("order 0, even size", h_order0(0), to_case=case(0)), H("negative order", h_neg, to_case=case(-1))]
    for n in range(1, 5 if tier == "quick" else 7):
        hs.append(H(f"order {n}, odd size", h_order(n), to_case=case(n)))
    for f in ("lists", "scalars", "size list", "default"):
        hs.append(H(f"GaussianPoolNd[{f}]", h_module(f)))
    return hs
