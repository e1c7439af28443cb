"""random ranks 2-4, content and reduce axes, blur windows (default, strings, free normalised kernels, per-axis AvgPoolNd, GaussianPoolNd), paddings, K1/K2, both flags; repeated calls with other shapes; swapped and identical images; against numpy"""
from util import *
from ssimref import *
from torchimage.metrics import SSIM


def rand(r):
    nd = r.randint(2, 4)
    blur = r.choice(["default", "gaussian", "mean", "separable", "avg", "gauss", "separable", "avg", "gauss"])
    big = blur in ("default", "gaussian", "mean")
    if big:
        nd = min(nd, 3)
    axes = "default" if nd > 2 and r.random() < .3 else None if (nd < 4 and r.random() < .2) else r.sample(range(nd), r.randint(1, min(nd, 2)))
    if isinstance(axes, list) and r.random() < .3:
        axes = [a - nd for a in axes]
    red = r.choice(["default", None, r.sample(range(nd), r.randint(1, nd))])
    ks = [r.randint(1, 5) for _ in range(4)]
    ks[0] = max(ks[0], 2)
    own = r.choice([None, "zeros", "reflect"]) if not big else None
    lo = 11 if big else 5
    return {"shape": [r.randint(lo, lo + 6) if not (big and nd == 3) else r.randint(11, 13) for _ in range(nd)], "axes": axes, "reduce": red, "blur": blur, "ks": ks, "sigma": r.uniform(.5, 2), "stride": r.choice([None, 2]),
            "pad": r.choice([None, "reflect", "zeros", "symmetric", "circular"]), "own_pad": own, "K1": r.choice([.01, .1, 1]), "K2": r.choice([.03, .3, 1]), "dfltK": r.random() < .3,
            "opts": {k: r.choice([True, False]) for k in ("use_sample_covariance", "crop_border") if r.random() < .7}, "seed": r.randint(0, 10**6), "same": r.random() < .15}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    if c.get("raise"):
        for sh in ((1, 1, 12, 12), (2, 12, 12), (2, 1, 12, 13), (2, 1, 12, 1)):
            a, b = torch.rand(2, 1, 12, 12), torch.rand(sh)
            for u, v in ((a, b), (b, a)):
                try:
                    SSIM().forward(u, v)
                except Exception:
                    continue
                return f"shapes {tuple(u.shape)} and {tuple(v.shape)} accepted"
        return None
    nd = len(c["shape"])
    axes = list(range(2, nd)) if c["axes"] == "default" else axlist(nd, c["axes"])
    red = list(range(1, nd)) if c["reduce"] == "default" else axlist(nd, c["reduce"])
    sample, cb = c["opts"].get("use_sample_covariance", True), c["opts"].get("crop_border", True)
    blur, ws = make(c, len(axes))
    if sample and np.prod([len(w) for w in ws]) == 1 or any(c["shape"][a] < len(w) for a, w in zip(axes, ws)):
        return None
    kw = dict(c["opts"])
    K1, K2 = .01, .03
    if not c["dfltK"]:
        K1, K2 = c["K1"], c["K2"]
        kw.update(K1=K1, K2=K2)
    if c["pad"]:
        kw["padder"] = c["pad"]
    if blur is not None:
        kw["blur"] = blur
    obj = SSIM(**kw)
    pad = c["pad"] or c["own_pad"]
    args = {}
    if c["axes"] != "default":
        args["content_axes"] = c["axes"]
    if c["reduce"] != "default":
        args["reduce_axes"] = c["reduce"]
    for rep, extra in ((0, 0), (1, 3), (2, 0)):
        sh = [s + extra for s in c["shape"]]
        x, y = tensor(c["seed"] + extra, sh, lo=0, hi=1), tensor(c["seed"] + 7 + extra, sh, lo=0, hi=1)
        if c.get("same"):
            y = x if rep == 0 else x.clone()
        kx, ky = x.clone(), y.clone()
        w = full(kx.numpy(), ky.numpy(), axes, ws, pad, sample, K1, K2)
        ws_ = crop(w, axes, ws, pad, cb)
        want = ws_.mean(axis=tuple(red))
        if 0 in ws_.shape:
            return None
        s, m = obj.forward(x, y, full=True, **args)
        s2 = obj.forward(y, x, **args)
        if not torch.equal(x, kx) or not torch.equal(y, ky):
            return "input modified"
        for nm, g, t in (("map", m, w), ("score", s, want), ("score of the swapped images", s2, want)):
            if not close(g, t, 1e-7):
                return f"call {rep}, {nm}: " + diff(g, t)
        if c.get("same") and not close(m, np.ones_like(w), 1e-7):
            return "identical images: " + diff(m, np.ones_like(w))
    return None
