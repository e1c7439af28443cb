from common import *
from poolspec import getter, conv_axis

FUNCS = ["torchimage.pooling.operator.any_conv_1d", "torchimage.shapes.conv_like.conv_1d", "torchimage.shapes.conv_like.conv_nd"]
TRUSTED = ["torch.nn.functional.conv1d / conv2d compute strided, dilated cross-correlation (their documented formula)"]
ASSUMPTIONS = ["rank and axis are enumerated; sizes, kernel length, stride, dilation and contents are symbolic; the layout of the tensor is unknown (both a contiguous one and one no view can merge axes of are explored)"]


def h_conv(rank, dim, dtype=FLOAT64, strided=True, lists=False):
    def fn(e, L):
        m = L.load("torchimage.pooling.operator")
        c = L.load("torchimage.shapes.conv_like")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        k, s, d = e.input_int("k", 1), e.input_int("s", 1), e.input_int("d", 1)
        ax = dim % rank
        e.assume(cmp(d * (k - 1) + 1, n[ax], "<="))
        x, w = inp("x", n, dtype), inp("w", (k,), dtype)
        y = m.any_conv_1d(x, w, dim=dim, stride=s, dilation=d)
        out = list(n)
        out[ax] = core.floordiv(n[ax] - d * (k - 1) - 1, s) + 1
        same_shape(e, y, out, "output")
        e.prove(eq(y.shape[ax], c.conv_1d(n[ax], k, s, d)), "length is conv_1d(in_size, kernel_size, stride, dilation)")
        e.prove(y.dtype is dtype, "dtype")
        i = [tint(v) for v in idx_fresh(e, y.shape)]
        gx, gw = getter(x), getter(w)

        def body(b):
            j = list(i)
            j[ax] = i[ax] * tint(s) + b * tint(d)
            return gx(j) * gw([b])
        e.prove(treal(y.at(*[core.wrap(v) for v in i])) == e.sum_([tint(k)], body), "dilated strided correlation along the axis")
        unchanged(e, x, "x unchanged")
        unchanged(e, w, "w unchanged")
    return fn


def h_len(form):
    """conv_nd is conv_1d per axis"""
    def fn(e, L):
        c = L.load("torchimage.shapes.conv_like")
        n = [e.input_int(f"n{j}", 1) for j in range(2)]
        k = [e.input_int(f"k{j}", 1) for j in range(2)]
        s = [e.input_int(f"s{j}", 1) for j in range(2)]
        d = [e.input_int(f"d{j}", 1) for j in range(2)]
        if form == "lists":
            r = c.conv_nd(list(n), list(k), list(s), list(d))
        else:
            k, s, d = [k[0]] * 2, [s[0]] * 2, [d[0]] * 2
            r = c.conv_nd(list(n), k[0], s[0], d[0])
        for j in range(2):
            e.assume(cmp(d[j] * (k[j] - 1) + 1, n[j], "<="))
            o = r[j]
            span = d[j] * (k[j] - 1) + 1
            e.prove(cmp((o - 1) * s[j] + span, n[j], "<="), f"axis {j}: the last window fits")
            e.prove(cmp(o * s[j] + span, n[j], ">"), f"axis {j}: one more would not")
    return fn


def case(rank, dim):
    def f(m, name):
        n = [max(1, min(m[f"n{d}"], 12)) for d in range(rank)]
        k, d = min(m["k"], 5), min(m["d"], 4)
        n[dim % rank] = max(n[dim % rank], d * (k - 1) + 1)
        return {"shape": n, "dim": dim, "k": k, "s": min(m["s"], 5), "d": d, "seed": 1}
    return f


def harnesses(tier):
    hs = []
    for r in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for dim in range(-r, r):
            hs.append(H(f"any_conv_1d[rank {r}, dim {dim}]", h_conv(r, dim), to_case=case(r, dim)))
    hs.append(H("any_conv_1d[float32]", h_conv(3, 1, FLOAT32), to_case=case(3, 1)))
    hs += [H(f"conv_nd[{f}]", h_len(f)) for f in ("lists", "scalars")]
    return hs
