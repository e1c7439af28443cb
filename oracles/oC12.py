"""random ranks 2-4, axes lists, p in {1,2,3,4,0.5,...}, epsilon, every preset filter and free kernels, paddings; Laplace and LaplacianOfGaussian with random sizes; against explicit per-axis components"""
from util import *
from edgeref import *
from torchimage.filtering import edges as E
from oC09 import want as gauss
from oC11 import build


def rand(r):
    nd = r.randint(2, 4)
    c = {"kind": r.choice(["mag", "mag", "laplace", "log", "alias", "raise"]), "shape": [r.randint(3, 7 if nd < 4 else 5) for _ in range(nd)],
         "axes": r.choice([None, r.sample(range(nd), r.randint(2, nd))]), "p": r.choice([1, 2, 2, 4, 3, 0.5, 1.0]), "eps": r.choice([0, 0.0, 1e-8, 0.5, 2]),
         "pad": r.choice(["reflect", "zeros", "symmetric", "circular", "replicate"]), "k": r.choice([1, 3, 5, 7]), "sigma": r.uniform(.4, 3), "seed": r.randint(0, 10**6), "filter": r.choice(list(PRE) + ["free"])}
    if c["axes"] is not None and r.random() < .3:
        c["axes"] = [a - nd for a in c["axes"]]
    if c["filter"] != "free" and c["p"] not in (1, 2, 4):
        c["p"] = 2
    if c["kind"] == "raise":
        c["axes"] = r.choice([[0], [-1], [], 1])
    return c


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    x = tensor(c["seed"], c["shape"])
    nd = x.ndim
    keep = x.clone()
    a = x.numpy().copy()
    axes = list(range(nd)) if c["axes"] is None else c["axes"]
    kind = c["kind"]
    if kind == "raise":
        for f in (lambda: E.Sobel().magnitude(x, axes), lambda: E.Laplace().forward(x, axes), lambda: E.LaplacianOfGaussian(3, 1.0).forward(x, axes)):
            try:
                f()
            except ValueError:
                continue
            return f"axes {axes}: no ValueError"
        return None
    axes = [q % nd for q in axes]
    rr = rng(c["seed"], "e")
    if kind == "laplace":
        y = E.Laplace(same_padder=c["pad"]).forward(x, c["axes"])
        w = sum(component(a, q, [], [1, -2, 1], [], c["pad"]) for q in axes)
    elif kind == "log":
        y = E.LaplacianOfGaussian(c["k"], c["sigma"], same_padder=c["pad"]).forward(x, c["axes"])
        w = sum(component(a, q, axes, gauss(c["k"], c["sigma"], 2), gauss(c["k"], c["sigma"], 0), c["pad"]) for q in axes)
    elif kind == "alias":
        ed, sm = [1.0], []
        f = E.EdgeFilter([1.0], [], same_padder=c["pad"])
        comps = [component(a, q, axes, ed, sm, c["pad"]) for q in axes]
        w, y = mag(f, c, x, comps)
    else:
        if c["filter"] == "free":
            ed, sm = [rr.uniform(0, 1) for _ in range(rr.randint(1, 4))], [rr.uniform(.1, 1) for _ in range(rr.randint(1, 4))]
            f = E.EdgeFilter(list(ed), list(sm), same_padder=c["pad"])
            if c["p"] not in (1, 2, 4):
                x = x.abs() + .01
                keep, a = x.clone(), x.numpy().copy()
        else:
            f = getattr(E, c["filter"])(same_padder=c["pad"])
            ed, sm = PRE[c["filter"]]
        comps = [component(a, q, axes, ed, sm, c["pad"]) for q in axes]
        w, y = mag(f, c, x, comps)
    if not torch.equal(x, keep):
        return "input modified"
    if not close(y, w, 1e-7):
        return diff(y, w)
    if y is x:
        return "the input object is returned"
    return None


def mag(f, c, x, comps):
    p, eps = c["p"], c["eps"] or 0
    y = f.magnitude(x, c["axes"], epsilon=eps, p=p) if c["seed"] % 3 or c["eps"] or p != 2 else f.magnitude(x, c["axes"])
    with np.errstate(all="ignore"):
        s = sum(q ** p for q in comps) + eps
        w = s if p == 1 else s ** (1 / p)
    return w, y
