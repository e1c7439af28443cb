"""random histories: 1-4 modules (separable, average and Gaussian pooling, edge filters, Laplace, LoG, unsharp masks, SSIM, MS-SSIM) built from at most two shared Padder objects and shared kernel lists, called 2-8 times in random order with new shapes, axes, dtypes and contents (calls that raise included, modules built in between); every result is compared bit by bit with that of a module freshly built from fresh parts"""
from util import *
from torchimage.padding.generic_pad import Padder
from torchimage.pooling.base import SeparablePoolNd
from torchimage.pooling.uniform import AvgPoolNd
from torchimage.pooling.gaussian import GaussianPoolNd
from torchimage.filtering.edges import EdgeFilter, Sobel, Prewitt, Scharr, Farid, GaussianGrad, Laplace, LaplacianOfGaussian
from torchimage.filtering.sharpen import UnsharpMask
from torchimage.metrics.ssim import SSIM, MS_SSIM
from torchimage.utils.ndspec import NdSpec

MODES = ["zeros", "replicate", "reflect", "symmetric", "circular", "antisymmetric", "smooth", "odd_symmetric", "mean"]
POOLS = ["sep", "sepnd", "avg", "avgx", "gauss"]
EDGES = ["edge", "Sobel", "Prewitt", "Scharr", "Farid", "ggrad"]
KINDS = POOLS + EDGES + ["laplace", "log", "unsharp", "ssim", "ssim", "msssim"]
KERNELS = [[1.0, 2.0, 1.0], [.25, .5, .25], [1.0, -1.0], [.1, .2, .4, .2, .1], [2.0]]


def rand(r):
    mods = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(KINDS)
        mods.append({"kind": k, "pool": r.choice(POOLS), "pad": r.choice([None, 0, 0, 1]) if k in POOLS + ["unsharp", "ssim", "msssim"] else r.choice([0, 0, 1]), "own": r.choice([None, 0, 1]), "ks": r.choice([2, 3, 5]), "k": r.randint(0, len(KERNELS) - 1),
                     "stride": r.choice([None, 1, 2]), "norm": r.random() < .5, "k2": r.randint(0, len(KERNELS) - 1), "at": 0 if r.random() < .7 else r.randint(1, 4), "cov": r.random() < .5, "crop": r.random() < .7, "thr": r.choice([0, .3])})
    mods[0]["at"] = 0
    steps = []
    for _ in range(r.randint(2, 8)):
        n = r.choice([3, 4, 4])
        steps.append({"m": r.randint(0, len(mods) - 1), "s": [r.choice([1, 1, 2])] * (n - 3) + [r.choice([1, 3])] + [r.randint(2, 14), r.randint(2, 14)], "axes": r.choice([None, None, [-1], [-2, -1], [-1, -2], [-2, -1], [1, 2]]),
                      "meth": r.choice(["component", "magnitude", "all", "horizontal", "vertical"]), "dt": r.choice(["float32", "float64"]), "full": r.random() < .3, "seed": r.randint(0, 10**6)})
    return {"pads": [{"mode": r.choice(MODES), "c": r.random()}, {"mode": r.choice(MODES), "c": 1}], "mods": mods, "steps": steps}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def padder(c, i):
    return None if i is None else Padder(mode=c["pads"][i]["mode"])


def kernels():
    return [list(k) for k in KERNELS] + [NdSpec([list(k) for k in KERNELS[:2]], item_shape=[-1])]


def build(m, pads, ks):
    pad, own = (None if i is None else pads[i] for i in (m["pad"], m["own"]))
    p = lambda: {"sep": lambda: SeparablePoolNd(ks[m["k"]], m["stride"], same_padder=pad), "sepnd": lambda: SeparablePoolNd(ks[-1], m["stride"], same_padder=pad),
                 "avg": lambda: AvgPoolNd(m["ks"], m["stride"], same_padder=pad), "avgx": lambda: AvgPoolNd(m["ks"], m["stride"], count_include_pad=False, same_padder=pad),
                 "gauss": lambda: GaussianPoolNd(m["ks"] | 1, 1.2, stride=m["stride"], same_padder=pad)}[m["kind"] if m["kind"] in POOLS else m["pool"]]()
    k = m["kind"]
    if k in POOLS:
        return p()
    if k == "edge":
        return EdgeFilter(ks[m["k"]], ks[m["k2"]], normalize=m["norm"] and sum(KERNELS[m["k2"]]) != 0, same_padder=pad)
    if k in ("Sobel", "Prewitt", "Scharr", "Farid"):
        return {"Sobel": Sobel, "Prewitt": Prewitt, "Scharr": Scharr, "Farid": Farid}[k](normalize=m["norm"], same_padder=pad)
    if k == "ggrad":
        return GaussianGrad(m["ks"] | 1, 1.1, same_padder=pad)
    if k == "laplace":
        return Laplace(same_padder=pad)
    if k == "log":
        return LaplacianOfGaussian(m["ks"] | 1, .9, same_padder=pad)
    if k == "unsharp":
        return UnsharpMask(p(), .7, m["thr"], padder=own)
    if k == "ssim":
        return SSIM(blur=p(), use_sample_covariance=m["cov"], crop_border=m["crop"], padder=own)
    return MS_SSIM(blur=p(), weights=[.5, .5], use_sample_covariance=False, crop_border=m["crop"], padder=own)


def call(o, m, s):
    dt = getattr(torch, s["dt"])
    x = tensor(s["seed"], s["s"], dt, 0, 1)
    ax = s["axes"]
    k = m["kind"]
    try:
        if k in EDGES:
            two = ax if ax and len(ax) == 2 else [-2, -1]
            y = {"component": lambda: o.component(x, two[0], two[1:]), "magnitude": lambda: o.magnitude(x, two, epsilon=1e-3), "all": lambda: o.all_components(x, two),
                 "horizontal": lambda: o.horizontal(x), "vertical": lambda: o.vertical(x)}[s["meth"]]()
            return [t.clone() for t in y] if isinstance(y, (list, tuple)) else [y]
        if k in ("laplace", "log"):
            return [o.forward(x, axes=ax if ax and len(ax) == 2 else [-2, -1])]
        if k in ("ssim", "msssim"):
            y = tensor(s["seed"] + 1, s["s"], dt, 0, 1)
            a = ax if ax else [-2, -1]
            r = o.forward(x, y, content_axes=a, reduce_axes=None, full=s["full"])
            return list(r) if isinstance(r, tuple) else [r]
        return [o.forward(x, axes=ax) if ax else o.forward(x)]
    except Exception as ex:
        return ex


def run(c):
    pads = [padder(c, i) for i in range(2)]
    ks = kernels()
    objs = {}
    for t, s in enumerate(c["steps"]):
        for i, m in enumerate(c["mods"]):
            if i not in objs and (m["at"] <= t or i == s["m"]):
                objs[i] = build(m, pads, ks)
        m = c["mods"][s["m"]]
        got = call(objs[s["m"]], m, s)
        want = call(build(m, [padder(c, i) for i in range(2)], kernels()), m, s)
        d = f"call {t} ({m['kind']} of {s['s']}, axes {s['axes']}) differs from a fresh module's: "
        if isinstance(want, Exception) or isinstance(got, Exception):
            if type(want) is not type(got):
                return d + f"{got!r} instead of {want!r}" if isinstance(got, Exception) else d + f"a result instead of {want!r}"
            continue
        if len(got) != len(want):
            return d + f"{len(got)} results"
        for a, b in zip(got, want):
            if a.shape != b.shape or a.dtype != b.dtype:
                return d + f"{a.dtype} {tuple(a.shape)} instead of {b.dtype} {tuple(b.shape)}"
            if not close(a, b, 1e-12 if b.dtype == torch.float64 else 1e-6):
                return d + diff(a, b)
    return None
