"""random ranks 2-4, content and reduce axes, blur windows, paddings, 1-5 weights (lists and tuples, positive and negative), both ways of combining, K1/K2/eps, both flags, images that correlate negatively; repeated calls; swapped images; against numpy; images too small by one pixel"""
from util import *
from ssimref import *
from torchimage.metrics import MS_SSIM

DEF = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)


def rand(r):
    nd = r.randint(2, 4)
    blur = r.choice(["default", "gaussian", "mean", "separable", "avg", "gauss", "separable", "avg", "gauss", "separable"])
    big = blur in ("default", "gaussian", "mean")
    nw = r.choice([1, 1, 2, 2, 3, 3, 4, 5, None])
    m = 1 if (nw is None or nw > 3 or big) else r.randint(1, min(nd, 2))
    ks = [r.randint(1, 3 if m > 1 else 4) for _ in range(4)]
    ks[0] = max(ks[0], 2)
    fac = 2 ** ((5 if nw is None else nw) - 1)
    axes = r.sample(range(nd), m)
    if nd - m == 2 and r.random() < .6:
        axes = "default"
    ax = list(range(2, nd)) if axes == "default" else axes
    shape = [r.randint(1, 3) for _ in range(nd)]
    for a, k in zip(ax, [11] * m if big else ks if blur != "separable" else [ks[0]] * m):
        shape[a] = k * fac + r.randint(1, fac + 2)
    if axes != "default" and r.random() < .3:
        axes = [a - nd for a in axes]
    red = r.choice(["default", None, r.sample(range(nd), r.randint(1, nd))])
    own = r.choice([None, "zeros", "reflect"]) if not big else None
    w = None if nw is None else [r.choice([r.uniform(.05, 1), r.uniform(.05, 1), 1.0, 0.0, -.5, 2.0]) for _ in range(nw)]
    return {"shape": shape, "axes": axes, "reduce": red, "blur": blur, "ks": ks, "sigma": r.uniform(.5, 2), "stride": r.choice([None, 2]), "pad": r.choice([None, "reflect", "zeros", "symmetric", "circular"]), "own_pad": own,
            "weights": w, "tuple": r.random() < .5, "prod": r.choice([None, True, False]), "K1": r.choice([.01, .1, 1]), "K2": r.choice([.03, .3, .001]), "eps": r.choice([1e-8, 1e-3, .5]), "dfltK": r.random() < .3,
            "opts": {k: r.choice([True, False]) for k in ("use_sample_covariance", "crop_border") if r.random() < .7}, "anti": r.random() < .3, "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def pool2(x, axes):
    for a in axes:
        n = x.shape[a] // 2
        x = (np.take(x, range(0, 2 * n, 2), axis=a) + np.take(x, range(1, 2 * n, 2), axis=a)) / 2
    return x


def run(c):
    if c.get("raise"):
        for sh in ((1, 1, 12, 12), (2, 12, 12), (2, 1, 12, 13), (2, 1, 12, 1)):
            a, b = torch.rand(2, 1, 12, 12), torch.rand(sh)
            for u, v in ((a, b), (b, a)):
                try:
                    MS_SSIM(weights=[1.]).forward(u, v)
                except Exception:
                    continue
                return f"shapes {tuple(u.shape)} and {tuple(v.shape)} accepted"
        return None
    nd = len(c["shape"])
    axes = list(range(2, nd)) if c["axes"] == "default" else axlist(nd, c["axes"])
    red = list(range(1, nd)) if c["reduce"] == "default" else axlist(nd, c["reduce"])
    sample, cb = c["opts"].get("use_sample_covariance", True), c["opts"].get("crop_border", True)
    blur, ws = make(c, len(axes))
    W = DEF if c["weights"] is None else list(c["weights"])
    fac = 2 ** (len(W) - 1)
    if sample and np.prod([len(w) for w in ws]) == 1:
        return None
    kw = dict(c["opts"])
    K1, K2, eps = .01, .03, 1e-8
    if not c["dfltK"]:
        K1, K2, eps = c["K1"], c["K2"], c["eps"]
        kw.update(K1=K1, K2=K2, eps=eps)
    if c["pad"]:
        kw["padder"] = c["pad"]
    if blur is not None:
        kw["blur"] = blur
    if c["weights"] is not None:
        kw["weights"] = tuple(W) if c.get("tuple") else W
    if c["prod"] is not None:
        kw["use_prod"] = c["prod"]
    if eps <= 0 and c["prod"] is not False:
        return None  # a power of a number that need not be positive
    obj = MS_SSIM(**kw)
    pad = c["pad"] or c["own_pad"]
    args = {}
    if c["axes"] != "default":
        args["content_axes"] = c["axes"]
    if c["reduce"] != "default":
        args["reduce_axes"] = c["reduce"]
    for rep, extra in ((0, 0), (1, 3), (2, 0)):
        sh = [s + (extra if d in axes else 0) for d, s in enumerate(c["shape"])]
        x, y = tensor(c["seed"] + extra, sh, lo=0, hi=1), tensor(c["seed"] + 7 + extra, sh, lo=0, hi=1)
        if c.get("anti"):
            y = 1 - x + .1 * y
        kx, ky = x.clone(), y.clone()
        if any(sh[a] <= len(w) * fac for a, w in zip(axes, ws)):
            for u, v in ((x, y), (y, x)):
                try:
                    obj.forward(u, v, **args)
                except Exception:
                    continue
                return f"shape {sh} accepted although {fac} times the window {[len(w) for w in ws]} is not smaller"
            continue
        a, b, tot = kx.numpy(), ky.numpy(), None
        for j, w in enumerate(W):
            last = j == len(W) - 1
            m = full(a, b, axes, ws, pad, sample, K1, K2) if last else cs(a, b, axes, ws, pad, sample, K2)
            m = crop(m, axes, ws, pad, cb)
            if 0 in m.shape:
                return None
            s = m.mean(axis=tuple(axes), keepdims=True)
            if c["prod"] is not False:
                s = np.maximum(s, eps) ** w
                tot = s if tot is None else tot * s
            else:
                tot = s * w if tot is None else tot + s * w
            if not last:
                a, b = pool2(a, axes), pool2(b, axes)
        want = tot.mean(axis=tuple(red))
        s, s2 = obj.forward(x, y, **args), obj.forward(y, x, **args)
        if not torch.equal(x, kx) or not torch.equal(y, ky):
            return "input modified"
        for nm, g in (("score", s), ("score of the swapped images", s2)):
            if not close(g, want, 1e-7):
                return f"call {rep}, {nm}: " + diff(g, want)
    return None
