"""random crops of tensors with distinct entries (ranks 1-4, sizes 1-6, list, tuple and scalar sizes with None entries): block structure and sizes on every draw, all offsets reached over up to 400 draws, equal seeds equal crops, global generator untouched; noise: equal seeds, linearity in sigma, moments of the normal sample per axis, integer multiples of k and moments of the Poisson sample"""
from util import *
from torchimage.random import random_crop, add_gauss_noise, add_poisson_gauss_noise


def rand(r):
    form = r.choice(["crop", "crop", "gauss", "poisson", "cover"])
    if form in ("crop", "cover"):
        n = r.randint(1, 4 if form == "crop" else 2)
        s = [r.randint(1, 6 if form == "crop" else 4) for _ in range(n)]
        m = r.randint(1, n)
        axes = r.sample(range(n), m)
        kind = r.choice(["list", "tuple", "scalar"])
        k = [None if r.random() < .2 else r.randint(0 if r.random() < .1 else 1, s[a]) for a in axes]
        if kind == "scalar":
            k = [min(s[a] for a in axes)] * m
        return {"form": form, "s": s, "axes": [a - n if r.random() < .3 else a for a in axes], "k": k, "kind": kind, "seed": r.randint(0, 10**6)}
    return {"form": form, "s": [r.randint(1, 4) for _ in range(r.randint(0, 3))], "sigma": r.choice([0.0, .5, 2.0, r.uniform(0, 3)]), "k": r.choice([.25, 1.0, 2.0, r.uniform(.1, 3)]), "dt": r.choice(["float32", "float64"]), "gen": r.random() < .7, "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    fixed = [{"form": f, "s": [40, 50, 30], "sigma": .5, "k": .5, "dt": "float64", "gen": g, "seed": 3} for f in ("gauss", "poisson") for g in (True, False)]
    fixed += [{"form": "cover", "s": [a], "axes": [0], "k": [b], "kind": "list", "seed": 0} for a in range(1, 6) for b in range(1, a + 1)]
    for i, c in enumerate(fixed):
        if i % n == k:
            yield c
    yield from endless(seed, k, rand)


def gen(s):
    return torch.Generator().manual_seed(s)


def draw(f, c, seed, *a):
    """f with its randomness seeded; the other generator must not move"""
    if c.get("gen", True):
        g0 = torch.random.get_rng_state()
        y = f(*a, generator=gen(seed))
        return y, torch.equal(torch.random.get_rng_state(), g0)
    torch.manual_seed(seed)
    return f(*a), True


def offsets(x, y, c):
    """the offset per axis at which y sits in x (entries are distinct), or None"""
    n = x.ndim
    if y.numel() == 0:
        return [None] * n
    v = int(y.reshape(-1)[0])
    off = np.unravel_index(v, tuple(x.shape))
    sl = tuple(slice(o, o + s) for o, s in zip(off, y.shape))
    z = x[sl]
    return [int(o) for o in off] if z.shape == y.shape and torch.equal(z, y) else None


def run(c):
    if c["form"] in ("crop", "cover"):
        x = torch.arange(int(np.prod(c["s"])), dtype=torch.float64).reshape(c["s"])
        x0 = x.clone()
        size = c["k"] if c["kind"] == "list" else tuple(c["k"]) if c["kind"] == "tuple" else c["k"][0]
        axes = [a % x.ndim for a in c["axes"]]
        want = list(c["s"])
        for a, k in zip(axes, c["k"]):
            want[a] = want[a] if k is None else k
        f = lambda generator=None: random_crop(x, list(c["axes"]), size, generator=generator)
        y, quiet = draw(f, c, c["seed"])
        if not quiet:
            return "random_crop draws from the global generator although one is given"
        if list(y.shape) != want:
            return f"crop of shape {tuple(y.shape)}, expected {tuple(want)}"
        if not torch.equal(x, x0):
            return "random_crop modified its input"
        if offsets(x, y, c) is None:
            return f"the crop is not a block of x: {y.tolist()}"
        if not torch.equal(y, draw(f, c, c["seed"])[0]):
            return "equal generator states give different crops"
        if c["form"] == "cover" and y.numel():
            combos = int(np.prod([s - w + 1 for s, w in zip(c["s"], want)]))
            seen = set()
            g = gen(c["seed"])
            for _ in range(60 * combos):
                o = offsets(x, f(generator=g), c)
                if o is None:
                    return "the crop is not a block of x"
                seen.add(tuple(o))
                if len(seen) == combos:
                    break
            if len(seen) != combos:
                return f"only {len(seen)} of {combos} offsets occur for sizes {c['k']} of {c['s']}: {sorted(seen)}"
        return None
    dt = getattr(torch, c["dt"])
    x = tensor(c["seed"], c["s"], dt, .1, 5.0)
    x0 = x.clone()
    big = x.numel() > 5000
    tol = 1e-9 if dt is torch.float64 else 1e-4
    if c["form"] == "gauss":
        f = lambda s: (lambda generator=None: add_gauss_noise(x, s, generator=generator))
    else:
        f = lambda s: (lambda generator=None: add_poisson_gauss_noise(x, c["k"], s, generator=generator))
    y, quiet = draw(f(c["sigma"]), c, c["seed"])
    y0, y1 = draw(f(0.0), c, c["seed"])[0], draw(f(1.0), c, c["seed"])[0]
    if not quiet:
        return "noise from the global generator although one is given"
    if not torch.equal(x, x0):
        return f"{c['form']} noise modified its input"
    if y.shape != x.shape or y.dtype != x.dtype:
        return f"noisy image: {y.dtype} {tuple(y.shape)}"
    if not torch.equal(y, draw(f(c["sigma"]), c, c["seed"])[0]):
        return "equal generator states give different noise"
    n = y1 - y0
    if not close(y, y0 + c["sigma"] * n, tol * 10):
        return f"noise not proportional to sigma = {c['sigma']}"
    if c["form"] == "gauss":
        if not close(y0, x, tol):
            return "sigma = 0 changes the image"
    else:
        p = y0.double() / c["k"]
        if not close(p, p.round(), 1e-5) or (p < -1e-5).any():
            return f"Poisson part is not a multiple of k: {y0.tolist() if not big else ''}"
    if big:
        m = n.numel() ** .5
        if abs(float(n.mean())) > 6 / m or abs(float(n.std()) - 1) > 6 / m or abs(float((n ** 4).mean()) - 3) > 60 / m:
            return f"not a standard normal sample: mean {float(n.mean())}, std {float(n.std())}"
        for d in range(n.ndim):
            if abs(float(n.var(dim=d).mean()) - 1) > .1:
                return f"noise is not independent along axis {d}"
        if c["form"] == "poisson":
            rate = x / c["k"]
            z = (p - rate) / rate.sqrt()
            if abs(float(z.mean())) > 6 / m or abs(float((z * z).mean()) - 1) > 20 / m:
                return f"not a Poisson sample of rate x / k: mean {float(z.mean())}, var {float((z * z).mean())}"
    return None
