"""ranks 3-6, all four alignments in random letter case, several dtypes, also zero and non-contiguous images; round trips; malformed shapes and alignments; against explicit numpy indexing"""
from util import *
from torchimage.cfa.utils import *

ALIGN = ("GBRG", "GRBG", "BGGR", "RGGB")
COL = {"R": 0, "G": 1, "B": 2}
BAD = ["RGBG", "GGRB", "RRGB", "RGB", "RGGBR", "", "rggx", 5, None, ("R", "G", "G", "B"), ["RGGB"], "GRGB", "BRGG", "rgbg"]


def rand(r):
    sa = "".join(c if r.random() < .6 else c.lower() for c in r.choice(ALIGN))
    kind = r.choice(["1c", "4c", "rgb", "down", "down"] + ["bad"] * (r.random() < .1) + ["badshape:any"] * (r.random() < .2))
    return {"kind": kind, "lead": [r.randint(0, 3) for _ in range(r.randint(0, 3))], "h": r.randint(0, 5), "w": r.randint(0, 5), "c": r.randint(0, 6), "dtype": r.choice(["float64", "float32", "int64", "uint8", "int16", "float16"]), "sa": sa, "ch": r.choice([1, 4]),
            "seed": r.randint(0, 10**6), "strided": r.random() < .3}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def image(c, shape):
    if c.get("strided"):
        x = tensor(c["seed"], list(reversed(shape)), lo=0, hi=200).to(getattr(torch, c["dtype"]))
        return x.permute(*reversed(range(len(shape))))
    return tensor(c["seed"], shape, lo=0, hi=200).to(getattr(torch, c["dtype"]))


def must_raise(f, what):
    try:
        f()
    except AssertionError:
        return None
    except Exception as ex:
        return f"{what}: {type(ex).__name__} instead of AssertionError"
    return f"{what}: accepted"


TAKES = [("bayer_1c_to_4c", bayer_1c_to_4c, 1), ("downsample_1c_bayer_to_rgb", lambda x: downsample_1c_bayer_to_rgb(x, "RGGB"), 1), ("bayer_4c_to_1c", bayer_4c_to_1c, 4),
         ("downsample_4c_bayer_to_rgb", lambda x: downsample_4c_bayer_to_rgb(x, "RGGB"), 4), ("rgb_to_1c_bayer", lambda x: rgb_to_1c_bayer(x, "GRBG"), 3), ("rgb_to_4c_bayer", lambda x: rgb_to_4c_bayer(x, "GRBG"), 3)]


def run(c):
    kind = c["kind"]
    lead, h, w = list(c["lead"]), c["h"], c["w"]
    if kind == "bad":
        one, four, rgb = torch.rand(2, 1, 4, 6), torch.rand(2, 4, 2, 3), torch.rand(2, 3, 4, 6)
        for s in BAD:
            for nm, f, x in (("rgb_to_1c_bayer", rgb_to_1c_bayer, rgb), ("rgb_to_4c_bayer", rgb_to_4c_bayer, rgb), ("downsample_1c_bayer_to_rgb", downsample_1c_bayer_to_rgb, one), ("downsample_4c_bayer_to_rgb", downsample_4c_bayer_to_rgb, four)):
                m = must_raise(lambda: f(x, s), f"{nm}, alignment {s!r}")
                if m:
                    return m
            m = must_raise(lambda: check_sensor_alignment(s), f"check_sensor_alignment {s!r}")
            if m:
                return m
        for nm, f, k in TAKES:
            m = must_raise(lambda: f([[[1.0, 2.0], [1.0, 2.0]]]), f"{nm} of a list") or must_raise(lambda: f(torch.rand(4, 4)), f"{nm} of a 2-axis tensor")
            if m:
                return m
        return None
    if kind.startswith("badshape"):
        for nm, f, k in TAKES:
            ok = c["c"] == k and (k == 4 or h % 2 == w % 2 == 0)
            if not ok:
                m = must_raise(lambda: f(torch.rand(lead + [c["c"], h, w])), f"{nm} of shape {lead + [c['c'], h, w]}")
                if m:
                    return m
        return None
    S = c["sa"].upper()
    shape = lead + {"1c": [1, 2 * h, 2 * w], "4c": [4, h, w], "rgb": [3, 2 * h, 2 * w], "down": [1, 2 * h, 2 * w] if c["ch"] == 1 else [4, h, w]}[kind]
    x = image(c, shape)
    kx = x.clone()
    X = kx.numpy()
    to4 = lambda a: np.stack([a[..., 0, k // 2::2, k % 2::2] for k in range(4)], axis=-3)

    def to1(a):
        o = np.zeros(a.shape[:-3] + (1, 2 * a.shape[-2], 2 * a.shape[-1]), a.dtype)
        for k in range(4):
            o[..., 0, k // 2::2, k % 2::2] = a[..., k, :, :]
        return o
    out = []
    if kind == "1c":
        y = bayer_1c_to_4c(x)
        out = [("bayer_1c_to_4c", y, to4(X)), ("round trip", bayer_4c_to_1c(y), X)]
    elif kind == "4c":
        y = bayer_4c_to_1c(x)
        out = [("bayer_4c_to_1c", y, to1(X)), ("round trip", bayer_1c_to_4c(y), X)]
    elif kind == "rgb":
        y = rgb_to_1c_bayer(x, c["sa"])
        o = np.zeros(tuple(lead) + (1, 2 * h, 2 * w), X.dtype)
        for k in range(4):
            o[..., 0, k // 2::2, k % 2::2] = X[..., COL[S[k]], k // 2::2, k % 2::2]
        out = [("rgb_to_1c_bayer", y, o), ("rgb_to_4c_bayer", rgb_to_4c_bayer(x, c["sa"]), to4(o)), ("bayer_1c_to_4c of the mosaic", bayer_1c_to_4c(y), to4(o))]
    else:
        if not x.is_floating_point() or x.dtype == torch.float16:
            x = x.to(torch.float64)
            kx = x.clone()
            X = kx.numpy()
        a = to4(X) if c["ch"] == 1 else X
        g = [k for k in range(4) if S[k] == "G"]
        o = np.stack([a[..., S.index("R"), :, :], (a[..., g[0], :, :] + a[..., g[1], :, :]) / 2, a[..., S.index("B"), :, :]], axis=-3)
        out = [("downsample", (downsample_1c_bayer_to_rgb if c["ch"] == 1 else downsample_4c_bayer_to_rgb)(x, c["sa"]), o)]
    for nm, got, want in out:
        if got.dtype != x.dtype:
            return f"{nm}: dtype {got.dtype} instead of {x.dtype}"
        if tuple(got.shape) != tuple(want.shape):
            return f"{nm}: shape {tuple(got.shape)} instead of {tuple(want.shape)}"
        if kind == "down" and not close(got, want, 1e-5 if x.dtype == torch.float32 else 1e-12) or kind != "down" and not np.array_equal(got.numpy(), want):
            return f"{nm}: " + diff(got.double(), want.astype(float))
    if not torch.equal(x, kx):
        return "input modified"
    return None
