from util import *
import padref
from torchimage.padding import Padder


def grid(modes, maxL=6, factor=3):
    for L in range(1, maxL + 1):
        for a in range(0, factor * L + 2):
            for b in sorted({0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, factor * L + 1} if (a + L) % 2 else range(0, factor * L + 2, 2)):
                if b < 0:
                    continue
                for m in modes:
                    yield {"shape": [L], "axis": 0, "mode": m, "width": [a, b], "seed": L * 100 + a, "how": "forward"}


def rand(r, modes, floats=True):
    nd = r.randint(1, 4)
    ax = r.randrange(nd)
    shape = [r.randint(1, 4) for _ in range(nd)]
    shape[ax] = r.choice([1, 2, 3, r.randint(1, 9), r.randint(1, 40)])
    L = shape[ax]
    w = lambda: r.choice([0, 1, L - 1, L, L + 1, 2 * L, r.randint(0, 3 * L + 3), r.randint(0, 10 * L) if L < 6 else 2])
    c = {"shape": shape, "axis": ax, "mode": r.choice(modes), "width": [max(0, w()), max(0, w())], "seed": r.randint(0, 10**6), "how": r.choice(["forward", "forward", "pad_axis", "neg"]),
         "dtype": r.choice(["float64", "float32"]), "layout": r.choice(["c", "c", "t", "s"])}
    if c["mode"] == "linear_ramp":
        c["end"] = [r.uniform(-3, 3), r.uniform(-3, 3)]
    if c["mode"] == "constant":
        c["const"] = [r.uniform(-3, 3), r.uniform(-3, 3)]
    if c["mode"] in ("maximum", "minimum", "mean", "median"):
        c["stat"] = [r.choice([None, 0, 1, 2, 3, L - 1, L, L + 2, r.randint(1, 2 * L)]), r.choice([None, 1, 2, 3, L - 1, L, L + 2, r.randint(1, 2 * L)])]
    return c


def make_input(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    shape = list(c["shape"])
    x = tensor(c["seed"], shape, dt)
    if c.get("layout") == "t" and len(shape) > 1:
        x = tensor(c["seed"], shape[::-1], dt).permute(*range(len(shape))[::-1])
    elif c.get("layout") == "s":
        x = tensor(c["seed"], [s * 2 for s in shape], dt)[tuple(slice(None, None, 2) for _ in shape)]
    return x


def run(c, exact=True):
    x = make_input(c)
    keep = x.clone()
    ax, mode = c["axis"], c["mode"]
    kw = {}
    rk = {}
    if "end" in c:
        kw["end_values"] = tuple(c["end"])
        rk["end"] = c["end"]
    if "const" in c:
        kw["constant_values"] = tuple(c["const"])
        rk["const"] = c["const"]
    if "stat" in c:
        kw["stat_length"] = tuple(c["stat"])
        rk["stat"] = c["stat"]
    p = Padder(pad_width=tuple(c["width"]), mode=mode, **kw)
    if c["how"] == "pad_axis":
        y = p.pad_axis(x, -1, ax)
    elif c["how"] == "neg":
        y = p.forward(x, axes=ax - x.ndim)
    else:
        y = p.forward(x, axes=ax)
    want = padref.pad_axis(keep.numpy(), ax, mode, *c["width"], **rk)
    if y.dtype != keep.dtype:
        return f"dtype {y.dtype}"
    if not torch.equal(x, keep):
        return "input was modified"
    if tuple(y.shape) != want.shape:
        return f"shape {tuple(y.shape)} instead of {want.shape}"
    a, b = c["width"]
    L = x.shape[ax]
    if not torch.equal(y.narrow(ax, a, L) if (a or b) else y, keep):
        return "the original samples are changed"
    if exact:
        if not np.array_equal(y.numpy(), want):
            return diff(y, want)
    else:
        t = 1e-9 if keep.dtype == torch.float64 else 1e-4
        if not close(y, want, t):
            return diff(y, want)
    return None
