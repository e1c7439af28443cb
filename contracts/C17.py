from common import *
from dv.tensor import apply_fn

P = "torchimage.cfa.utils."
FUNCS = [P + "bayer_1c_4c.bayer_1c_to_4c", P + "bayer_1c_4c.bayer_4c_to_1c", P + "rgb_to_bayer.rgb_to_1c_bayer", P + "rgb_to_bayer.rgb_to_4c_bayer", P + "bayer_to_rgb.downsample_1c_bayer_to_rgb",
         P + "bayer_to_rgb.downsample_4c_bayer_to_rgb", P + "validation.check_sensor_alignment", P + "validation.check_1c_bayer", P + "validation.check_4c_bayer", P + "validation.check_rgb"]
TRUSTED = []
ASSUMPTIONS = ["rank (3-6), dtype and alignment (each of the four, in upper, lower and mixed case) are enumerated; sizes (also zero) and contents are symbolic"]
ALIGN = ("GBRG", "GRBG", "BGGR", "RGGB")
COL = {"R": 0, "G": 1, "B": 2}


def bits(p):
    """(row parity, half row) of an integer"""
    q = core.floordiv(p, 2)
    return p - 2 * q, q


def pick(r, c, f):
    """f(k) for k = 2r + c, r and c in {0, 1} symbolic"""
    r, c = tint(r), tint(c)
    return z3.If(r == 0, z3.If(c == 0, f(0), f(1)), z3.If(c == 0, f(2), f(3)))


def elem(x):
    return lambda i: term_of(apply_fn(x.decl, tuple(i), x.dtype))


def term_of(v):
    return core.term(v)


def dims(e, rank, even=True):
    lead = [e.input_int(f"b{d}", 0) for d in range(rank - 3)]
    h, w = e.input_int("h", 0), e.input_int("w", 0)
    return lead, h, w


def chk(e, y, shape, dtype, f, name):
    same_shape(e, y, shape, name)
    e.prove(y.dtype == dtype, f"{name}: dtype kept")
    i = idx_fresh(e, shape)
    e.prove(core.swrap(core.term(y.at(*i)) == f(i)), f"{name}: every element")


def h_1c(rank, dt):
    def fn(e, L):
        m = L.load(P + "bayer_1c_4c")
        lead, h, w = dims(e, rank)
        x = inp("x", lead + [1, 2 * h, 2 * w], dt)
        X = elem(x)
        y = m.bayer_1c_to_4c(x)

        def f4(i):
            q = tint(i[-3])
            at = lambda k: X(list(i[:-3]) + [0, 2 * i[-2] + k // 2, 2 * i[-1] + k % 2])
            return z3.If(q == 0, at(0), z3.If(q == 1, at(1), z3.If(q == 2, at(2), at(3))))
        chk(e, y, lead + [4, h, w], dt, f4, "1c to 4c")
        chk(e, m.bayer_4c_to_1c(y), lead + [1, 2 * h, 2 * w], dt, lambda i: X(i), "4c to 1c undoes 1c to 4c")
        unchanged(e, x, "input unchanged")
    return fn


def h_4c(rank, dt):
    def fn(e, L):
        m = L.load(P + "bayer_1c_4c")
        lead, h, w = dims(e, rank)
        x = inp("x", lead + [4, h, w], dt)
        X = elem(x)
        y = m.bayer_4c_to_1c(x)

        def f1(i):
            (r, a), (c, b) = bits(i[-2]), bits(i[-1])
            return pick(r, c, lambda k: X(list(i[:-3]) + [k, a, b]))
        chk(e, y, lead + [1, 2 * h, 2 * w], dt, f1, "4c to 1c")
        chk(e, m.bayer_1c_to_4c(y), lead + [4, h, w], dt, lambda i: X(i), "1c to 4c undoes 4c to 1c")
        unchanged(e, x, "input unchanged")
    return fn


def h_rgb(rank, dt, sa):
    def fn(e, L):
        m, n = L.load(P + "rgb_to_bayer"), L.load(P + "bayer_1c_4c")
        lead, h, w = dims(e, rank)
        x = inp("x", lead + [3, 2 * h, 2 * w], dt)
        X = elem(x)
        y = m.rgb_to_1c_bayer(x, sa)

        def f1(i):
            (r, _), (c, _) = bits(i[-2]), bits(i[-1])
            return pick(r, c, lambda k: X(list(i[:-3]) + [COL[sa.upper()[k]], i[-2], i[-1]]))
        chk(e, y, lead + [1, 2 * h, 2 * w], dt, f1, "1c mosaic")
        z = m.rgb_to_4c_bayer(x, sa)

        def f4(i):
            q = tint(i[-3])
            at = lambda k: X(list(i[:-3]) + [COL[sa.upper()[k]], 2 * i[-2] + k // 2, 2 * i[-1] + k % 2])
            return z3.If(q == 0, at(0), z3.If(q == 1, at(1), z3.If(q == 2, at(2), at(3))))
        chk(e, z, lead + [4, h, w], dt, f4, "4c mosaic")
        y4 = n.bayer_1c_to_4c(y)
        i = idx_fresh(e, lead + [4, h, w])
        e.prove(core.swrap(core.term(y4.at(*i)) == core.term(z.at(*i))), "4c mosaic is bayer_1c_to_4c of the 1c mosaic")
        unchanged(e, x, "input unchanged")
    return fn


def h_down(rank, dt, sa, ch):
    def fn(e, L):
        m = L.load(P + "bayer_to_rgb")
        lead, h, w = dims(e, rank)
        x = inp("x", lead + ([1, 2 * h, 2 * w] if ch == 1 else [4, h, w]), dt)
        X = elem(x)
        y = (m.downsample_1c_bayer_to_rgb if ch == 1 else m.downsample_4c_bayer_to_rgb)(x, sensor_alignment=sa)
        S = sa.upper()

        def f(i):
            at = lambda k: X(list(i[:-3]) + ([0, 2 * i[-2] + k // 2, 2 * i[-1] + k % 2] if ch == 1 else [k, i[-2], i[-1]]))
            q = tint(i[-3])
            g = [k for k in range(4) if S[k] == "G"]
            return z3.If(q == 0, at(S.index("R")), z3.If(q == 1, (at(g[0]) + at(g[1])) / 2, at(S.index("B"))))
        chk(e, y, lead + [3, h, w], dt, f, "block colours")
        unchanged(e, x, "input unchanged")
    return fn


BAD = ["RGBG", "GGRB", "RRGB", "RGB", "RGGBR", "", "rggx", 5, None, ("R", "G", "G", "B"), ["RGGB"]]


def h_bad(e, L):
    r, b, d, v = (L.load(P + q) for q in ("rgb_to_bayer", "bayer_1c_4c", "bayer_to_rgb", "validation"))
    h, w = e.input_int("h", 1), e.input_int("w", 1)
    n0 = e.input_int("b0", 1)
    c = e.input_int("c", 0)
    one, four, rgb = inp("o", [n0, 1, 2 * h, 2 * w]), inp("f", [n0, 4, h, w]), inp("g", [n0, 3, 2 * h, 2 * w])
    for s in BAD:
        for nm, f, x in (("rgb_to_1c_bayer", r.rgb_to_1c_bayer, rgb), ("rgb_to_4c_bayer", r.rgb_to_4c_bayer, rgb), ("downsample_1c", d.downsample_1c_bayer_to_rgb, one), ("downsample_4c", d.downsample_4c_bayer_to_rgb, four)):
            expect_raises(e, AssertionError, lambda: f(x, s), f"{nm}: alignment {s!r} rejected")
        expect_raises(e, AssertionError, lambda: v.check_sensor_alignment(s), f"check_sensor_alignment: {s!r} rejected")
    takes1 = (("bayer_1c_to_4c", b.bayer_1c_to_4c, 1), ("downsample_1c", lambda x: d.downsample_1c_bayer_to_rgb(x, "RGGB"), 1))
    takes4 = (("bayer_4c_to_1c", b.bayer_4c_to_1c, 4), ("downsample_4c", lambda x: d.downsample_4c_bayer_to_rgb(x, "RGGB"), 4))
    takes3 = (("rgb_to_1c_bayer", lambda x: r.rgb_to_1c_bayer(x, "GRBG"), 3), ("rgb_to_4c_bayer", lambda x: r.rgb_to_4c_bayer(x, "GRBG"), 3))
    for nm, f, k in takes1 + takes4 + takes3:
        expect_raises(e, AssertionError, lambda: f([[[1.0, 2.0]]]), f"{nm}: not a tensor")
        expect_raises(e, AssertionError, lambda: f(inp("r2" + nm, [2 * h, 2 * w])), f"{nm}: two axes")


def h_badshape(which):
    def fn(e, L):
        r, b, d = (L.load(P + q) for q in ("rgb_to_bayer", "bayer_1c_4c", "bayer_to_rgb"))
        f, k = {"bayer_1c_to_4c": (b.bayer_1c_to_4c, 1), "downsample_1c": (lambda x: d.downsample_1c_bayer_to_rgb(x, "RGGB"), 1), "bayer_4c_to_1c": (b.bayer_4c_to_1c, 4),
                "downsample_4c": (lambda x: d.downsample_4c_bayer_to_rgb(x, "RGGB"), 4), "rgb_to_1c_bayer": (lambda x: r.rgb_to_1c_bayer(x, "GRBG"), 3), "rgb_to_4c_bayer": (lambda x: r.rgb_to_4c_bayer(x, "GRBG"), 3)}[which]
        c, h, w = e.input_int("c", 0), e.input_int("h", 0), e.input_int("w", 0)
        bad = tint(c) != k
        if k != 4:
            bad = z3.Or(bad, tint(h) % 2 != 0, tint(w) % 2 != 0)
        e.assume(core.swrap(bad))
        expect_raises(e, AssertionError, lambda: f(inp("x", [c, h, w])), f"{which}: malformed shape rejected")
    return fn


def case(kind, rank=3, dt="float64", sa="RGGB", ch=1):
    def f(mdl, name):
        g = lambda k, d=1: max(0, min(int(mdl.get(k, d)), 4))
        return {"kind": kind, "lead": [g(f"b{d}") for d in range(rank - 3)], "h": g("h"), "w": g("w"), "c": g("c", 2), "dtype": dt, "sa": sa, "ch": ch, "seed": 1}
    return f


def harnesses(tier):
    hs = []
    D = {"float32": FLOAT32, "float64": FLOAT64, "int64": INT64, "uint8": UINT8}
    for rank in (3, 4, 5, 6):
        for dn, dt in D.items():
            if dn != "float64" and rank not in (3, 4):
                continue
            hs.append(H(f"1c to 4c[rank {rank}, {dn}]", h_1c(rank, dt), to_case=case("1c", rank, dn)))
            hs.append(H(f"4c to 1c[rank {rank}, {dn}]", h_4c(rank, dt), to_case=case("4c", rank, dn)))
            for sa in ALIGN:
                hs.append(H(f"rgb to bayer[rank {rank}, {dn}, {sa}]", h_rgb(rank, dt, sa), to_case=case("rgb", rank, dn, sa)))
        for sa in ALIGN:
            for ch in (1, 4):
                hs.append(H(f"downsample {ch}c[rank {rank}, {sa}]", h_down(rank, FLOAT64 if rank < 5 else FLOAT32, sa, ch), to_case=case("down", rank, "float64", sa, ch)))
    for sa in ALIGN:
        for s in (sa.lower(), sa[:2] + sa[2:].lower(), sa[0].lower() + sa[1:3] + sa[3].lower()):
            hs.append(H(f"rgb to bayer[rank 4, float64, {s}]", h_rgb(4, FLOAT64, s), to_case=case("rgb", 4, "float64", s)))
            for ch in (1, 4):
                hs.append(H(f"downsample {ch}c[rank 4, {s}]", h_down(4, FLOAT64, s, ch), to_case=case("down", 4, "float64", s, ch)))
    hs.append(H("malformed arguments", h_bad, to_case=case("bad")))
    for q in ("bayer_1c_to_4c", "bayer_4c_to_1c", "downsample_1c", "downsample_4c", "rgb_to_1c_bayer", "rgb_to_4c_bayer"):
        hs.append(H(f"malformed shape[{q}]", h_badshape(q), to_case=case("badshape:" + q)))
    return hs
