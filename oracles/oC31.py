"""random NCHW pairs, odd kernel sizes 1-7, sigma, order 1-3, all four losses; against per-axis components by explicit padding and correlation"""
from util import *
from edgeref import *
from torchimage.contrib import edge_loss as M
from oC09 import want as gauss


def rand(r):
    return {"cls": r.choice(["GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"]), "shape": [r.randint(1, 3), r.randint(1, 3), r.randint(4, 9), r.randint(4, 9)], "k": r.choice([1, 3, 5, 7]),
            "sigma": r.uniform(.5, 3), "order": r.choice([1, 1, 2, 3]), "same": r.random() < .1, "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    p = tensor(c["seed"], c["shape"])
    t = p.clone() if c["same"] else tensor(c["seed"] + 1, c["shape"])
    kp, kt = p.clone(), t.clone()
    ed, sm = gauss(c["k"], c["sigma"], c["order"]), gauss(c["k"], c["sigma"], 0)
    E = lambda x: np.concatenate([component(x.numpy(), a, [2, 3], ed, sm, "reflect") for a in (2, 3)], axis=1)
    y = getattr(M, c["cls"])(c["k"], c["sigma"], c["order"])(p, t)
    if not (torch.equal(p, kp) and torch.equal(t, kt)):
        return "an image was modified"
    P, T = E(p), E(t)
    if c["same"] and c["cls"] in ("GaussianEdgeLoss", "WeightedSum"):
        return None if abs(float(y)) < 1e-9 else f"identical images: {float(y)}"
    if c["cls"] == "WeightedDiv":
        if np.abs(T).min() < 1e-6:
            return None
        w, tol = np.mean(np.abs(T - P) / T), 1e-6 * max(1.0, np.max(np.abs(T - P) / np.abs(T)))
    elif c["cls"] == "WeightedMul":
        w, tol = np.mean(np.abs(T - P) * T), 1e-8
    elif c["cls"] == "WeightedSum":
        w, tol = np.mean(np.abs(np.abs(T).mean(axis=(2, 3)) - np.abs(P).mean(axis=(2, 3)))), 1e-8
    else:
        w, tol = np.mean(np.abs(T - P)), 1e-8
    if y.ndim != 0:
        return f"shape {tuple(y.shape)}"
    if not np.isfinite(float(y)) or abs(float(y) - w) > tol:
        return f"{float(y)} instead of {w}"
    return None
