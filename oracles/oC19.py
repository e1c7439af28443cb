"""random mosaics (also outside [0, clamp]), all alignments in random case, ranks 3-4, repeated calls with other alignments; flat mosaics; last_step_demosaic at ranks 3-5; against an explicit loop over the Malvar taps (numpy)"""
from util import *
from torchimage.cfa import demosaic, last_step_demosaic
from torchimage.cfa.utils import rgb_to_1c_bayer

ALIGN = ("GBRG", "GRBG", "BGGR", "RGGB")
COL = {"R": 0, "G": 1, "B": 2}
CROSS = {(0, 0): 4, (0, 1): 2, (0, -1): 2, (1, 0): 2, (-1, 0): 2, (0, 2): -1, (0, -2): -1, (2, 0): -1, (-2, 0): -1}
ROW = {(0, 0): 5, (0, 1): 4, (0, -1): 4, (0, 2): -1, (0, -2): -1, (1, 1): -1, (1, -1): -1, (-1, 1): -1, (-1, -1): -1, (2, 0): .5, (-2, 0): .5}
COLUMN = {(b, a): v for (a, b), v in ROW.items()}
DIAG = {(0, 0): 6, (1, 1): 2, (1, -1): 2, (-1, 1): 2, (-1, -1): 2, (0, 2): -1.5, (0, -2): -1.5, (2, 0): -1.5, (-2, 0): -1.5}


def rand(r):
    kind = r.choice(["demo"] * 6 + ["flat", "last", "last"] + ["bad"] * (r.random() < .1))
    return {"kind": kind, "lead": [r.randint(1, 3)] if r.random() < .6 else [] if kind != "last" or r.random() < .5 else [2, r.randint(0, 2)], "h": r.randint(2, 7), "w": r.randint(2, 7),
            "sa": "".join(c if r.random() < .7 else c.lower() for c in r.choice(ALIGN)), "clamp": r.choice([None, None, 1.0, .5, 2, 0, 3.0]), "v": r.random(), "dtype": r.choice(["float32", "float64", "int64"]), "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def sites(s):
    return {(r, c): s[2 * r + c] if s[2 * r + c] != "G" else "G" + s[2 * r + 1 - c] for r in (0, 1) for c in (0, 1)}


def want(X, sa):
    z = np.pad(X, [(0, 0)] * (X.ndim - 2) + [(2, 2), (2, 2)], mode="reflect")
    H, W = X.shape[-2:]
    out = np.zeros(X.shape[:-3] + (3, H, W))
    for (r, c), site in sites(sa.upper()).items():
        for color, ch in COL.items():
            if color == site[0]:
                out[..., ch, r::2, c::2] = X[..., 0, r::2, c::2]
                continue
            t = CROSS if color == "G" else DIAG if site in "RB" else ROW if site == "G" + color else COLUMN
            out[..., ch, r::2, c::2] = sum(v / 8 * z[..., 0, 2 + dy + r:2 + dy + H:2, 2 + dx + c:2 + dx + W:2] for (dy, dx), v in t.items())
    return out


def run(c):
    sa = c.get("sa", "RGGB")
    if c["kind"] == "bad":
        x, y = torch.rand(2, 1, 4, 6), torch.rand(2, 2, 4, 6)
        for s in ("RGBG", "RGG", "", 3, None):
            for f in (lambda: last_step_demosaic(x, y, s), lambda: demosaic(x, s)):
                try:
                    f()
                except AssertionError:
                    continue
                return f"alignment {s!r} accepted"
        for sh in ((1, 2, 4, 6), (2, 2, 2, 6), (2, 2, 4, 4), (2, 4, 6)):
            try:
                last_step_demosaic(x, torch.rand(sh), "RGGB")
            except AssertionError:
                continue
            return f"interpolation of shape {sh} accepted for a mosaic of shape {tuple(x.shape)}"
        return None
    lead, h, w = list(c["lead"]), c["h"], c["w"]
    if c["kind"] == "last":
        dt = getattr(torch, c["dtype"])
        x, y = (tensor(c["seed"] + q, lead + [q + 1, 2 * h, 2 * w], lo=0, hi=100).to(dt) for q in (0, 1))
        kx, ky = x.clone(), y.clone()
        z = last_step_demosaic(x, y, sa)
        o = np.zeros(tuple(lead) + (3, 2 * h, 2 * w), kx.numpy().dtype)
        for (r, k), site in sites(sa.upper()).items():
            oth = [q for q in "RGB" if q != site[0]]
            for color, ch in COL.items():
                o[..., ch, r::2, k::2] = kx.numpy()[..., 0, r::2, k::2] if color == site[0] else ky.numpy()[..., oth.index(color), r::2, k::2]
        if z.dtype != dt or tuple(z.shape) != o.shape or not np.array_equal(z.numpy(), o):
            return "last_step_demosaic: " + (f"dtype {z.dtype}, shape {tuple(z.shape)}" if z.dtype != dt or tuple(z.shape) != o.shape else diff(z.double(), o.astype(float)))
        return None if torch.equal(x, kx) and torch.equal(y, ky) else "input modified"
    cl = 1.0 if c["clamp"] is None else c["clamp"]
    args = () if c["clamp"] is None else (c["clamp"],)
    if c["kind"] == "flat":
        v = c["v"] if 0 <= c["v"] <= cl else cl / 2
        rgb = torch.full(lead + [3, 2 * h, 2 * w], v)
        y = demosaic(rgb_to_1c_bayer(rgb, sa), sa, *args)
        return None if close(y.double(), rgb.double().numpy(), 1e-5) else "flat colour: " + diff(y.double(), rgb.double().numpy())
    other = ALIGN[(ALIGN.index(sa.upper()) + 1) % 4]
    for s, extra in ((sa, 0), (other, 0), (sa, 2), (sa, 0)):
        x = tensor(c["seed"] + extra, lead + [1, 2 * h + extra, 2 * w + extra], lo=-.3, hi=1.5).float()
        kx = x.clone()
        y = demosaic(x, s, *args)
        o = np.clip(want(kx.double().numpy(), s), 0, cl)
        if not close(y.double(), o, 1e-4):
            return f"alignment {s}: " + diff(y.double(), o)
        if not torch.equal(x, kx):
            return "input modified"
    return None
