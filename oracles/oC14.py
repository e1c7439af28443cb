"""random ranks 1-5, every reduction, random axes subsets (any order and sign, int, slice, None), max_value and eps; shape mismatches and unknown reductions; against numpy float64"""
from util import *
from torchimage.metrics import MSE, PSNR


def rand(r):
    nd = r.randint(1, 5)
    q = r.random()
    axes = None if q < .2 else r.randint(-nd, nd - 1) if q < .35 else [a - (nd if r.random() < .3 else 0) for a in r.sample(range(nd), r.randint(1, nd))]
    return {"cls": r.choice(["MSE", "PSNR"]), "shape": [r.randint(1, 6 if nd < 4 else 3) for _ in range(nd)], "axes": axes, "reduction": r.choice(["mean", "sum", "none", "default"]),
            "dflt": r.random() < .1, "max": r.choice([1, 255, 1.0, .3]), "eps": r.choice([0, 0.0, 1e-8, .5, -1, -1e-3]), "seed": r.randint(0, 10**6), "raise": r.random() < .05, "slice": r.random() < .1,
            "dtype": r.choice(["float64", "float64", "float32"])}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    C = {"MSE": MSE, "PSNR": PSNR}[c["cls"]]
    if c.get("raise"):
        a = torch.rand(2, 3, 4)
        for sh in ((2, 1, 4), (3, 4), (1, 2, 3, 4), (2, 3, 1), (2, 4, 4)):
            for u, v in ((a, torch.rand(sh)), (torch.rand(sh), a)):
                try:
                    C().forward(u, v)
                except Exception:
                    continue
                return f"shapes {tuple(u.shape)} and {tuple(v.shape)} accepted"
        for red in ("Mean", "avg", "", None):
            for ax in (None, 1, (0, 2)):
                try:
                    C(reduction=red).forward(a, a + 1, reduce_axes=ax)
                except ValueError:
                    continue
                return f"reduction {red!r} accepted"
        return None
    dt = getattr(torch, c.get("dtype", "float64"))
    a, b = tensor(c["seed"], c["shape"], dt, 0, 1), tensor(c["seed"] + 1, c["shape"], dt, 0, 1)
    ka, kb = a.clone(), b.clone()
    kw = {} if c["reduction"] == "default" else {"reduction": c["reduction"]}
    mx, ep = c["max"], c["eps"]
    if c["cls"] == "PSNR" and c["dflt"]:
        obj, mx, ep = PSNR(**kw), 1, 0
    else:
        obj = MSE(**kw) if c["cls"] == "MSE" else PSNR(mx, ep, **kw)
    red = kw.get("reduction", "mean")
    axes = c["axes"]
    if c.get("slice"):
        axes = slice(1, None) if len(c["shape"]) > 1 else slice(0, None)
    full = tuple(range(a.ndim)) if axes is None else tuple(range(a.ndim))[axes] if isinstance(axes, slice) else (axes,) if isinstance(axes, int) else tuple(axes)
    w = (ka.double().numpy() - kb.double().numpy()) ** 2
    w = w.mean(axis=full) if red == "mean" else w.sum(axis=full) if red == "sum" else w
    if c["cls"] == "PSNR":
        with np.errstate(all="ignore"):
            w = 20 * np.log10(mx) - 10 * np.log10(w + ep if ep > 0 else w)
    for u, v in ((a, b), (b, a)):
        y = obj(u, v, axes) if axes is not None else obj(u, v)
        if not close(y.double(), np.asarray(w), 1e-8 if dt == torch.float64 else 2e-4):
            return diff(y.double(), np.asarray(w))
    if not torch.equal(a, ka) or not torch.equal(b, kb):
        return "input modified"
    return None
