"""random ranks 2-4, edge axes and smoothing axes in any order and sign, edge kernels of length 1-6 (integer, fractional, (-1,0,1), (1,-2,1) and near misses), smoothing kernels 0-5, paddings, normalize, presets, GaussianGrad, horizontal / vertical / all_components; against explicit padding and correlation"""
from util import *
import poolref
from edgeref import *
from torchimage.filtering import edges as E
from oC09 import want as gauss


def rand(r):
    nd = r.randint(2, 4)
    shape = [r.randint(3, 8 if nd < 4 else 5) for _ in range(nd)]
    pad = r.choice(["reflect", "reflect", "zeros", "symmetric", "circular", "replicate", None])
    method = r.choice(["component", "component", "all", "horizontal", "vertical"])
    axes = r.choice([None, r.sample(range(nd), r.randint(2, nd))])
    if axes is not None and r.random() < .3:
        axes = [a - nd for a in axes]
    if method == "component" and axes is not None and r.random() < .3:
        axes = axes[:1]
    c = {"shape": shape, "edge_axis": r.randint(-nd, nd - 1), "axes": axes, "pad": pad, "normalize": r.random() < .3, "method": method, "cls": None, "seed": r.randint(0, 10**6),
         "dtype": r.choice(["float64", "float64", "float32"])}
    q = r.random()
    if q < .25:
        c["cls"] = r.choice(list(PRE))
        if pad is None and c["cls"] == "Farid":
            c["shape"] = [max(5, s) for s in shape]
    elif q < .4:
        c["cls"] = "GaussianGrad"
        c["gg"] = [r.choice([1, 3, 5]) if pad else r.choice([1, 3]), r.uniform(.5, 3)] + ([r.choice([1, 3]), r.uniform(.5, 2), r.choice([1, 2, 3])] if r.random() < .6 else [])
    else:
        n = r.randint(1, 6 if pad else 3)
        c["edge"] = r.choice([[-1, 0, 1], [1, -2, 1], [-1.5, 0.0, 1.2], [1.0, -2.0, 1.0], [-1, 0, 1.5], [-0.5, 0, 0.5], [round(r.uniform(-2, 2), 2) for _ in range(n)], [round(r.uniform(-2, 2), 2) for _ in range(n)]])
        c["smooth"] = r.choice([[], [1, 2, 1], [1.0], [round(r.uniform(.1, 2), 2) for _ in range(r.randint(1, 5 if pad else 3))]])
        if not c["smooth"]:
            c["normalize"] = False
    return c


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def build(c):
    """-> filter object, edge kernel, smoothing kernel"""
    if c["cls"] in PRE:
        ed, sm = PRE[c["cls"]]
        f = getattr(E, c["cls"])(normalize=c["normalize"], same_padder=c["pad"])
        nrm = c["normalize"]
    elif c["cls"] == "GaussianGrad":
        g = c["gg"]
        k, s = g[0], g[1]
        k2, s2, o = g[2:] if len(g) > 2 else (k, s, 1)
        f = E.GaussianGrad(k, s, *g[2:4], same_padder=c["pad"], edge_order=o) if len(g) > 2 else E.GaussianGrad(k, s, same_padder=c["pad"])
        ed, sm, nrm = gauss(k2, s2, o), gauss(k, s, 0), False
    else:
        rr = rng(c["seed"], "k")
        ed = c["edge"] if c.get("edge") is not None else [rr.uniform(-2, 2) for _ in range(c["elen"])]
        sm = c["smooth"] if c.get("smooth") is not None else [rr.uniform(.1, 2) for _ in range(c["slen"])]
        nrm = c["normalize"]
        f = E.EdgeFilter(list(ed), list(sm), normalize=nrm, same_padder=c["pad"])
    if nrm:
        t = sum(sm)
        sm = [v / t for v in sm]
        got = [float(v) for v in f.smooth_kernel.data]
        if len(got) != len(sm) or abs(sum(got) - 1) > 1e-9:
            return f"normalized smoothing kernel {got}"
    return f, list(ed), list(sm)


def run(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    x = tensor(c["seed"], c["shape"], dt)
    keep = x.clone()
    a = keep.numpy().astype(np.float64)
    nd = x.ndim
    b = build(c)
    if isinstance(b, str):
        return b
    f, ed, sm = b
    if c["pad"] is None and max(len(ed), len(sm)) > min(c["shape"]):
        return None
    axes = list(range(nd)) if c["axes"] is None else [c["axes"]] if isinstance(c["axes"], int) else list(c["axes"])
    axes = [q % nd for q in axes]
    m = c["method"]
    if m == "component":
        jobs = [(c["edge_axis"] % nd, axes)]
        ys = [f.component(x, c["edge_axis"], c["axes"])]
    elif m == "all":
        jobs = [(q, axes) for q in axes]
        ys = f.all_components(x, c["axes"])
    elif m == "horizontal":
        jobs, ys = [(nd - 2, [nd - 1])], [f.horizontal(x)]
    else:
        jobs, ys = [(nd - 1, [nd - 2])], [f.vertical(x)]
    if len(ys) != len(jobs):
        return f"{len(ys)} components for {len(jobs)} axes"
    for y, (q, ax) in zip(ys, jobs):
        w = component(a, q, ax, ed, sm, c["pad"])
        if c["pad"] is not None and tuple(y.shape) != tuple(x.shape):
            return f"shape {tuple(y.shape)} instead of {tuple(x.shape)}"
        if y.dtype != dt:
            return f"dtype {y.dtype}"
        if not close(y, w, 1e-8 if dt == torch.float64 else 2e-3):
            return f"axis {q}: " + diff(y, w)
    if not torch.equal(x, keep):
        return "input modified"
    return None
