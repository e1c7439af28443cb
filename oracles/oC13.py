"""random ranks 1-4, axes, blur modules (free kernels, AvgPoolNd, GaussianPoolNd, with and without a stride and a padder of their own), paddings, amounts, thresholds (also 0, also equal to occurring differences); against x + amount * thresholded (x - explicit blur)"""
from util import *
import poolref
from oC09 import want as gauss
from torchimage.filtering import UnsharpMask
from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd


def rand(r):
    nd = r.randint(1, 4)
    dflt = nd > 2 and r.random() < .4
    axes = None if r.random() < .3 else r.sample(range(nd), r.randint(1, nd))
    if axes and r.random() < .3:
        axes = [a - nd for a in axes]
    pad = r.choice([None, "reflect", "zeros", "symmetric", "circular", "replicate"])
    own = r.choice([None, "zeros", "reflect", "symmetric"])
    if pad is None and own is None:
        own = "reflect"
    return {"shape": [r.randint(2, 7 if nd < 4 else 5) for _ in range(nd)], "axes": axes, "default_axes": dflt, "kind": r.choice(["separable", "gauss", "avg"]), "stride": r.choice([None, 2, 1]),
            "ks": [r.randint(1, 6) for _ in range(4)], "sigma": r.uniform(.4, 3), "pad": pad, "own_pad": own,
            "amount": r.choice([None, 0, 1, r.uniform(-2, 3)]), "thr": r.choice([None, 0, 0.0, .25, r.uniform(0, 1.5)]), "seed": r.randint(0, 10**6), "grid": r.random() < .5}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    x = tensor(c["seed"], c["shape"])
    if c.get("grid"):  # multiples of 1/4: differences equal to the threshold occur
        x = (x * 4).round() / 4
    nd = x.ndim
    keep, a = x.clone(), x.numpy().copy()
    axes = list(range(2, nd)) if c["default_axes"] else list(range(nd)) if c["axes"] is None else [c["axes"]] if isinstance(c["axes"], int) else c["axes"]
    axes = [q % nd for q in axes]
    m = len(axes)
    ks = list(c["ks"])[:m]
    st = {} if c["stride"] is None else {"stride": c["stride"]}
    own = {} if c["own_pad"] is None else {"same_padder": c["own_pad"]}
    if c["kind"] == "separable":
        rr = rng(c["seed"], "w")
        w = [rr.choice([.25, .5, 1, -.5]) if c.get("grid") else rr.uniform(-1, 1) for _ in range(ks[0] if ks else 1)]
        b, ws = SeparablePoolNd(list(w), **st, **own), [w] * m
    elif c["kind"] == "gauss":
        k0 = ks[0] if ks else 3
        b, ws = GaussianPoolNd(k0, c["sigma"], **st, **own), [gauss(k0, c["sigma"], 0)] * m
    else:
        b, ws = AvgPoolNd(ks if m else 3, **st, **own), [[1 / k] * k for k in ks]
    kw = {}
    if c["amount"] is not None:
        kw["amount"] = c["amount"]
    if c["thr"] is not None:
        kw["threshold"] = c["thr"]
    u = UnsharpMask(b, padder=c["pad"], **kw)
    amount, t = .5 if c["amount"] is None else c["amount"], c["thr"] or 0
    d = a - poolref.separable(a, axes, ws, [1] * m, c["pad"] or c["own_pad"])
    edge = np.abs(np.abs(d) - t) < (0 if c.get("grid") and c["kind"] == "separable" else 1e-9)  # undecided by rounding
    if t > 0:
        d = np.where(np.abs(d) < t, 0, d)
    want = a + amount * d
    for rep in range(2):
        y = u.forward(x) if c["default_axes"] else u.forward(x, axes=c["axes"])
        if not torch.equal(x, keep):
            return "input modified"
        if y is x:
            return "the input object is returned"
        if tuple(y.shape) != want.shape:
            return diff(y, want)
        yy = np.where(edge, want, y.numpy()) if t > 0 else y.numpy()
        if not close(yy, want, 1e-9):
            return ("" if not rep else "second call: ") + diff(yy, want)
    return None
