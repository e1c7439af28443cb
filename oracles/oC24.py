"""random coefficient lists of 1 to 12 numbers (lists, tuples; a repeated call; zero, negative, huge and integer coefficients) on float32/float64 tensors of rank 0-4 with possible empty axes against Fraction arithmetic; outer products of tensors and arrays of rank 0-3 against nested loops"""
from fractions import Fraction
from util import *
from torchimage.misc.polynomial import poly1d
from torchimage.misc.outer import outer


def rand(r):
    if r.random() < .5:
        sh = lambda: [r.randint(0 if r.random() < .1 else 1, 4) for _ in range(r.randint(0, 3))]
        return {"form": "outer", "u": sh(), "v": sh(), "lib": r.choice(["torch", "np"]), "seed": r.randint(0, 10**6)}
    return {"form": "poly", "s": [r.randint(1, 4) for _ in range(r.randint(0, 4))], "n": r.randint(1, 12) if r.random() < .9 else r.randint(13, 40), "dt": r.choice(["float32", "float64"]), "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    for d in range(1, 30):
        if d % n == k:
            yield {"form": "poly", "s": [3], "n": d, "dt": "float64", "seed": d}
    yield from endless(seed, k, rand)


def run(c):
    if c["form"] == "outer":
        u, v = tensor(c["seed"], c["u"]), tensor(c["seed"] + 1, c["v"])
        if c["lib"] == "np":
            u, v = u.numpy(), v.numpy()
        u0, v0 = np.array(u), np.array(v)
        w = outer(u, v)
        if tuple(w.shape) != tuple(c["u"]) + tuple(c["v"]):
            return f"outer product of shape {tuple(w.shape)} for {c['u']} and {c['v']}"
        for i in np.ndindex(*c["u"]):
            for j in np.ndindex(*c["v"]):
                if float(w[i + j]) != float(u[i]) * float(v[j]):
                    return f"outer product at {i + j}: {float(w[i + j])}"
        if not np.array_equal(np.array(u), u0) or not np.array_equal(np.array(v), v0):
            return "outer modified its input"
        return None
    r = rng(c["seed"])
    x = tensor(c["seed"], c["s"], getattr(torch, c["dt"]))
    x0 = x.clone()
    p = [r.choice([r.uniform(-2, 2), 0.0, 1, r.randint(-3, 3), r.uniform(-2, 2)]) for _ in range(c["n"])]
    q = tuple(p) if c["seed"] % 2 else list(p)
    y = poly1d(x, q)
    if list(q) != p or not torch.equal(x, x0):
        return "poly1d modified its input"
    if y.shape != x.shape or y.dtype != x.dtype:
        return f"poly1d returns {y.dtype} {tuple(y.shape)}"
    eps = 1e-12 if c["dt"] == "float64" else 1e-5
    for i in np.ndindex(*c["s"]):
        v = Fraction(float(x[i]))
        want = sum(Fraction(a) * v ** (len(p) - 1 - j) for j, a in enumerate(p))
        mag = sum(abs(Fraction(a) * v ** (len(p) - 1 - j)) for j, a in enumerate(p))
        if abs(Fraction(float(y[i])) - want) > eps * (1 + mag) * len(p):
            return f"polynomial {p} at {float(v)}: {float(y[i])} instead of {float(want)}"
    if not torch.equal(y, poly1d(x, list(p))):
        return "poly1d differs at its second call"
    return None
