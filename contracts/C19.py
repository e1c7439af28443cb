from common import *
from dv.tensor import apply_fn
from C17 import ALIGN, COL
from C18 import sites, mirror

B = "torchimage.cfa.bayer_conv."
FUNCS = [B + "bayer_conv_2d.last_step_demosaic", B + "bayer_conv_2d.PreTrainedBilinearInterpolator.__init__", B + "bayer_conv_2d.PreTrainedBilinearInterpolator.forward", B + "bayer_conv_2d.BayerConv2d.forward",
         B + "bayer_conv_2d.get_padding_layer", B + "bayer_conv_2d.get_sensor_beg_index", B + "gradient_corrected (module body)"]
TRUSTED = ["nn.Conv2d is correlation, nn.ReflectionPad2d mirrors without repeating the edge (assumed contracts, tools/conformance.py)"]
ASSUMPTIONS = ["rank and alignment (with letter cases) are enumerated; sizes, contents and clamp >= 0 are symbolic", "even sizes larger than 2 (reflect padding's own condition), float32 images"]
F = core.Fraction

# Malvar, He, Cutler (2004): taps (dy, dx) -> weight in eighths
CROSS = {(0, 0): F(4), (0, 1): F(2), (0, -1): F(2), (1, 0): F(2), (-1, 0): F(2), (0, 2): F(-1), (0, -2): F(-1), (2, 0): F(-1), (-2, 0): F(-1)}
ROW = {(0, 0): F(5), (0, 1): F(4), (0, -1): F(4), (0, 2): F(-1), (0, -2): F(-1), (1, 1): F(-1), (1, -1): F(-1), (-1, 1): F(-1), (-1, -1): F(-1), (2, 0): F(1, 2), (-2, 0): F(1, 2)}
COLUMN = {(b, a): v for (a, b), v in ROW.items()}
DIAG = {(0, 0): F(6), (1, 1): F(2), (1, -1): F(2), (-1, 1): F(2), (-1, -1): F(2), (0, 2): F(-3, 2), (0, -2): F(-3, 2), (2, 0): F(-3, 2), (-2, 0): F(-3, 2)}


def taps(color, site):
    if color == "G":
        return CROSS
    if site in "RB":
        return DIAG
    return ROW if site == "G" + color else COLUMN


def el(x):
    return lambda i: core.term(apply_fn(x.decl, tuple(i), x.dtype))


def malvar(x, b, i, j, color, site):
    X, h, w = el(x), x._shape[-2], x._shape[-1]
    s = z3.RealVal(0)
    for (dy, dx), v in taps(color, site).items():
        s = s + z3.RealVal(v / 8) * X(list(b) + [0, mirror(tint(i) + dy, h), mirror(tint(j) + dx, w)])
    return s


def clip(v, c):
    c = treal(c)
    return z3.If(v < 0, z3.RealVal(0), z3.If(v > c, c, v))


def h_demo(rank, sa, cl):
    def fn(e, L):
        m = L.load("torchimage.cfa.bayer_conv.gradient_corrected")
        n = [e.input_int("n", 1)] if rank == 4 else []
        h, w = e.input_int("h", 2), e.input_int("w", 2)
        x = inp("x", n + [1, 2 * h, 2 * w], FLOAT32)
        net = m.gradient_corrected_interpolator
        net(x, "RGGB" if sa.upper() != "RGGB" else "GBRG")  # an earlier call changes nothing
        c = F(1)
        if cl:
            c = e.input_real("clamp")
            e.assume(treal(c) >= 0)
            y = net(x, sa, c)
        else:
            y = net(x, sa)
        same_shape(e, y, n + [3, 2 * h, 2 * w], "output")
        X = el(x)
        for (r, k), site in sites(sa).items():
            ix = idx_fresh(e, n + [h, w])
            b, i, j = list(ix[:-2]), 2 * ix[-2] + r, 2 * ix[-1] + k
            for color, ch in COL.items():
                v = X(b + [0, i, j]) if color == site[0] else malvar(x, b, i, j, color, site)
                e.prove(treal(y.at(*b, ch, i, j)) == clip(v, c), f"{color} at {site} ({r},{k})" + (": the measured sample" if color == site[0] else ": Malvar interpolation"))
        unchanged(e, x, "input unchanged")
    return fn


def h_flat(rank, sa):
    def fn(e, L):
        m, rb = L.load("torchimage.cfa.bayer_conv.gradient_corrected"), L.load("torchimage.cfa.utils.rgb_to_bayer")
        n = [e.input_int("n", 1)] if rank == 4 else []
        h, w = e.input_int("h", 2), e.input_int("w", 2)
        v, c = e.input_real("v"), e.input_real("clamp")
        e.assume(z3.And(treal(v) >= 0, treal(v) <= treal(c)))
        rgb = SymTensor.from_fn(tuple(n + [3, 2 * h, 2 * w]), FLOAT32, lambda i: v)
        y = m.gradient_corrected_interpolator(rb.rgb_to_1c_bayer(rgb, sa), sa, c)
        same_shape(e, y, n + [3, 2 * h, 2 * w], "output")
        for (r, k) in sites(sa):
            ix = idx_fresh(e, n + [h, w])
            for ch in range(3):
                e.prove(treal(y.at(*ix[:-2], ch, 2 * ix[-2] + r, 2 * ix[-1] + k)) == treal(v), f"flat colour reproduced at ({r},{k}), channel {ch}")
    return fn


def h_last(rank, sa, dt):
    def fn(e, L):
        m = L.load("torchimage.cfa.bayer_conv.bayer_conv_2d")
        n = [e.input_int(f"b{d}", 0) for d in range(rank - 3)]
        h, w = e.input_int("h", 0), e.input_int("w", 0)
        x, y = inp("x", n + [1, 2 * h, 2 * w], dt), inp("y", n + [2, 2 * h, 2 * w], dt)
        z = m.last_step_demosaic(x, y, sa)
        same_shape(e, z, n + [3, 2 * h, 2 * w], "output")
        e.prove(z.dtype == dt, "dtype kept")
        X, Y = el(x), el(y)
        for (r, k), site in sites(sa).items():
            ix = idx_fresh(e, n + [h, w])
            b, i, j = list(ix[:-2]), 2 * ix[-2] + r, 2 * ix[-1] + k
            others = [q for q in "RGB" if q != site[0]]
            for color, ch in COL.items():
                v = X(b + [0, i, j]) if color == site[0] else Y(b + [others.index(color), i, j])
                e.prove(core.swrap(core.term(z.at(*b, ch, i, j)) == v), f"{color} at {site} ({r},{k})")
        unchanged(e, x, "mosaic unchanged")
        unchanged(e, y, "interpolation unchanged")
    return fn


def h_bad(e, L):
    m = L.load("torchimage.cfa.bayer_conv.bayer_conv_2d")
    n, h, w, k = e.input_int("n", 1), e.input_int("h", 1), e.input_int("w", 1), e.input_int("k", 1)
    x = inp("x", [n, 1, 2 * h, 2 * w])
    for s in ("RGBG", "RGG", "", 3, None):
        expect_raises(e, AssertionError, lambda: m.last_step_demosaic(x, inpu("y", [n, 2, 2 * h, 2 * w]), s), f"alignment {s!r} rejected")
    for nm, sh in (("batch", [k, 2, 2 * h, 2 * w]), ("height", [n, 2, k, 2 * w]), ("width", [n, 2, 2 * h, k])):
        ne = {"batch": n, "height": 2 * h, "width": 2 * w}[nm]
        if cmp(k, ne, "!="):
            expect_raises(e, AssertionError, lambda: m.last_step_demosaic(x, inp("y" + nm, sh), "RGGB"), f"different {nm} rejected")


def case(kind, rank, sa, cl=None, dt="float32"):
    def f(mdl, name):
        g = lambda k, lo, hi: max(lo, min(int(mdl.get(k, lo)), hi))
        lo = 0 if kind == "last" else 2
        return {"kind": kind, "lead": [g(f"b{d}" if kind == "last" else "n", 0 if kind == "last" else 1, 2) for d in range(rank - 3)], "h": g("h", lo, 5), "w": g("w", lo, 5), "sa": sa, "clamp": float(mdl.get("clamp", 1)) if cl else None,
                "v": float(mdl.get("v", .5)), "dtype": dt, "seed": 1}
    return f


def harnesses(tier):
    hs = []
    for sa in ALIGN:
        mixed = sa[0].lower() + sa[1:3] + sa[3].lower()
        for s in (sa, mixed):
            for rank in (3, 4):
                for cl in (False, True):
                    hs.append(H(f"demosaic[rank {rank}, {s}, {'symbolic' if cl else 'default'} clamp]", h_demo(rank, s, cl), to_case=case("demo", rank, s, cl)))
                hs.append(H(f"flat colour[rank {rank}, {s}]", h_flat(rank, s), to_case=case("flat", rank, s, True)))
            for rank in (3, 4, 5):
                hs.append(H(f"last_step_demosaic[rank {rank}, {s}]", h_last(rank, s, FLOAT64 if rank > 3 else FLOAT32), to_case=case("last", rank, s, None, "float64" if rank > 3 else "float32")))
    hs.append(H("malformed arguments", h_bad, to_case=lambda m, n: {"kind": "bad"}))
    return hs
