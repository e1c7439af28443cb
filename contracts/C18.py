from common import *
from poolspec import getter
from C17 import ALIGN

B = "torchimage.cfa.bayer_conv.bayer_conv_2d."
FUNCS = [B + "get_padding_layer", B + "get_sensor_beg_index", B + "BayerConv2d.__init__", B + "BayerConv2d.forward", B + "BayerConv2d.forward_unshuffle", B + "BayerConv2dUnshuffle.__init__", B + "BayerConv2dUnshuffle.forward",
         "torchimage.cfa.utils.validation.check_sensor_alignment"]
TRUSTED = ["nn.Conv2d (stride 2, no padding, free symbolic weights and bias) is correlation, nn.ReflectionPad2d mirrors without repeating the edge, F.pixel_unshuffle (assumed contracts, tools/conformance.py)"]
ASSUMPTIONS = ["the input's rank (3 or 4), the bias flag and the alignment (with letter cases) are enumerated; channels, odd kernel size, sizes, weights and contents are symbolic",
               "even sizes larger than half the kernel (reflect padding's own condition)"]


def sites(sa):
    """site type at row parity r, column parity c (from the definition of a Bayer pattern, not from the code)"""
    s = sa.upper()
    out = {}
    for r in (0, 1):
        for c in (0, 1):
            k = s[2 * r + c]
            out[r, c] = k if k != "G" else "G" + s[2 * r + 1 - c]
    return out


def mirror(j, n):
    j, n = tint(j), tint(n)
    return z3.If(j < 0, -j, z3.If(j >= n, 2 * n - 2 - j, j))


def setup(e, L, rank, bias, cls="BayerConv2d", lo=1):
    m = L.load("torchimage.cfa.bayer_conv.bayer_conv_2d")
    half = e.input_int("half", lo)
    k = 2 * half + 1
    ci, co = e.input_int("ci", 1), e.input_int("co", 1)
    h, w = e.input_int("h", 1), e.input_int("w", 1)
    n = [e.input_int("n", 1)] if rank == 4 else []
    for v in (h, w):
        e.assume(cmp(2 * v, half, ">"))
    x = inp("x", n + [ci, 2 * h, 2 * w], FLOAT32)
    obj = getattr(m, cls)(ci, co, k, bias)
    for nm in ("R", "B", "GR", "GB"):
        conv = obj.conv_dict[nm]
        same_shape(e, conv.weight, [co, ci, k, k], f"weights of {nm}")
        e.prove((conv.bias is not None) == bias, f"{nm} has a bias exactly when one was asked for")
        if bias and conv.bias is not None:
            same_shape(e, conv.bias, [co], f"bias of {nm}")
    return obj, x, half, ci, co, k, h, w, n


def site_value(e, obj, x, half, ci, k, name, bias):
    """the specified value of an output pixel"""
    X, conv = getter(x), obj.conv_dict[name]
    W = getter(conv.weight)
    H, V = x._shape[-2], x._shape[-1]

    def f(b, o, i, j):
        s = e.sum_([tint(ci), tint(k), tint(k)], lambda c, u, v: X(list(b) + [wrap(c), wrap(mirror(tint(i) + u - tint(half), H)), wrap(mirror(tint(j) + v - tint(half), V))]) * W([o, wrap(c), wrap(u), wrap(v)]))
        return s if not bias or conv.bias is None else s + getter(conv.bias)([o])
    return f


def h(rank, bias, sa):
    def fn(e, L):
        obj, x, half, ci, co, k, hh, w, n = setup(e, L, rank, bias)
        obj.forward(x, "RGGB" if sa.upper() != "RGGB" else "GBRG")  # an earlier call changes nothing
        y = obj.forward(x, sa)
        same_shape(e, y, n + [co, 2 * hh, 2 * w], "output")
        for (r, c), name in sites(sa).items():
            f = site_value(e, obj, x, half, ci, k, name, bias)
            ix = idx_fresh(e, n + [co, hh, w])
            b, o, i, j = ix[:-3], ix[-3], 2 * ix[-2] + r, 2 * ix[-1] + c
            e.prove(treal(y.at(*b, o, i, j)) == f(b, o, i, j), f"site ({r},{c}) is {name}: its own centred kernel")
        unchanged(e, x, "input unchanged")
    return fn


def h_un(bias, sa, cls):
    def fn(e, L):
        obj, x, half, ci, co, k, hh, w, n = setup(e, L, 4, bias, cls)
        y = obj.forward_unshuffle(x, sa) if cls == "BayerConv2d" else obj.forward(x, sa)
        same_shape(e, y, n + [4 * co, hh, w], "output")
        for (r, c), name in sites(sa).items():
            f = site_value(e, obj, x, half, ci, k, name, bias)
            ix = idx_fresh(e, n + [co, hh, w])
            b, o, i, j = ix[:-3], ix[-3], 2 * ix[-2] + r, 2 * ix[-1] + c
            e.prove(treal(y.at(*b, 4 * o + 2 * r + c, ix[-2], ix[-1])) == f(b, o, i, j), f"channel 4o+{2 * r + c} is site ({r},{c}): {name}")
        unchanged(e, x, "input unchanged")
    return fn


def case(rank, bias, sa, cls, un):
    def f(mdl, name):
        g = lambda k, lo, hi: max(lo, min(int(mdl.get(k, lo)), hi))
        half = g("half", 1, 3)
        return {"n": [g("n", 1, 2)] if rank == 4 else [], "ci": g("ci", 1, 3), "co": g("co", 1, 3), "k": 2 * half + 1, "h": max(g("h", 1, 4), half // 2 + 1), "w": max(g("w", 1, 4), half // 2 + 1), "bias": bias, "sa": sa, "cls": cls, "un": un, "seed": 1}
    return f


def h_bad(cls):
    def fn(e, L):
        obj, x, *_ = setup(e, L, 4, False, cls)
        for s in ("RGBG", "RGG", "", 3, None):
            expect_raises(e, AssertionError, lambda: obj.forward(x, s), f"{cls}: alignment {s!r} rejected")
            expect_raises(e, AssertionError, lambda: obj.forward_unshuffle(x, s), f"{cls}.forward_unshuffle: alignment {s!r} rejected")
    return fn


def harnesses(tier):
    hs = []
    for sa in ALIGN:
        for rank in (3, 4):
            for bias in (True, False):
                hs.append(H(f"forward[rank {rank}, bias {bias}, {sa}]", h(rank, bias, sa), to_case=case(rank, bias, sa, "BayerConv2d", False)))
        for bias in (True, False):
            for cls in ("BayerConv2d", "BayerConv2dUnshuffle"):
                hs.append(H(f"unshuffled {cls}[bias {bias}, {sa}]", h_un(bias, sa, cls), to_case=case(4, bias, sa, cls, True)))
        s = sa[0].lower() + sa[1:3] + sa[3].lower()
        hs.append(H(f"forward[rank 4, bias True, {s}]", h(4, True, s), to_case=case(4, True, s, "BayerConv2d", False)))
        hs.append(H(f"unshuffled BayerConv2d[bias True, {s}]", h_un(True, s, "BayerConv2d"), to_case=case(4, True, s, "BayerConv2d", True)))
    for cls in ("BayerConv2d", "BayerConv2dUnshuffle"):
        hs.append(H(f"malformed alignment[{cls}]", h_bad(cls), to_case=lambda m, n: {"bad": 1}))
    return hs
