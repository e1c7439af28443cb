"""random ranks 1-4, axis lists in any order, kernels of length 0-6 (lists, tensors, one for all or per axis), strides None/1-5, no padder or same padding in nine modes, to_filter; float64/float32; against explicit window sums"""
from util import *
import poolref
from torchimage.pooling.base import SeparablePoolNd
from torchimage.padding import Padder
MODES = ["reflect", "symmetric", "replicate", "circular", "zeros", "antisymmetric", "constant", "smooth", "odd_reflect"]


def rand(r):
    nd = r.randint(1, 4)
    shape = [r.randint(2, 6 if nd < 4 else 4) for _ in range(nd)]
    axes = r.sample(range(nd), r.randint(1, min(nd, 3)))
    axes = [a - nd if r.random() < .3 else a for a in axes]
    single = r.random() < .3
    ks = [r.choice([0, 1, 2, 3, 4, 5, r.randint(1, 6)]) for _ in (axes[:1] if single else axes)]
    sk = r.choice(["none", "one", "list"])
    st = None if sk == "none" else [r.randint(1, 4)] if sk == "one" or single else [r.choice([None, 1, 2, 3, 5]) for _ in axes]
    if not single and r.random() < .2:  # repeated axis without padding
        axes = axes + [axes[0]]
        ks = ks + [1 + r.randint(0, 1)]
        if st is not None and len(st) > 1:
            st = st + [1]
        elif st is not None and sk == "list":
            st = [st[0], 1]
        pad = None
    else:
        pad = r.choice([None, None] + MODES)
    return {"shape": shape, "axes": axes, "ks": ks, "single": single, "stride": st, "stride_one": sk == "one" or single, "pad": pad, "filter": r.random() < .3, "seed": r.randint(0, 10**6),
            "dtype": r.choice(["float64", "float64", "float32"]), "kt": r.choice(["list", "tensor", "tuple"]), "perm": r.random() < .2}


def cases(tier, seed, k, n):
    def g():
        for nn in range(1, 10):
            for kk in range(0, nn + 1):
                for s in (None, 1, 2, 3, 4):
                    for pad in (None, "reflect", "zeros"):
                        yield {"shape": [2, nn], "axes": [1], "ks": [kk], "single": True, "stride": None if s is None else [s], "stride_one": True, "pad": pad, "filter": nn % 3 == 0, "seed": nn}
    yield from split(g(), k, n)
    yield from endless(seed, k, rand)


def run(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    x = tensor(c["seed"], c["shape"], dt)
    if c.get("perm"):
        x = tensor(c["seed"], c["shape"][::-1], dt).permute(*range(len(c["shape"]))[::-1])
    keep = x.clone()
    nd = x.ndim
    axes = [a % nd for a in c["axes"]]
    ws = [tensor(c["seed"] + 1 + j, [k]).tolist() for j, k in enumerate(c["ks"])]
    arg = [torch.tensor(w, dtype=torch.float64) if c.get("kt") == "tensor" and w else tuple(w) if c.get("kt") == "tuple" else w for w in ws]
    if c["single"] or len(ws) == 1:
        arg = arg[0] if c["single"] else arg
    st = c["stride"]
    sarg = None if st is None else st[0] if c["stride_one"] else list(st)
    kk = ws * len(axes) if c["single"] else ws
    ss = [None] * len(axes) if st is None else [st[0]] * len(axes) if c["stride_one"] else list(st)
    ss = [max(len(w), 1) if s is None else s for w, s in zip(kk, ss)]
    kw = {"const": (1.5, -2.5)}
    pad = c["pad"]
    parg = Padder(pad_width=3, mode="constant", constant_values=(1.5, -2.5)) if pad == "constant" else pad
    if c["filter"]:
        p = SeparablePoolNd(kernel=arg, stride=sarg)
        if p.to_filter(parg) is not p:
            return "to_filter does not return the module"
        ss = [1] * len(axes)
    else:
        p = SeparablePoolNd(kernel=arg, stride=sarg, same_padder=parg)
    ok = True
    cur = [n for n in c["shape"]]
    if pad is None:
        for a, w, s in zip(axes, kk, ss):
            if len(w) > cur[a]:
                ok = False
                break
            cur[a] = (cur[a] - len(w)) // s + 1 if w else cur[a]
    if not ok:
        return None
    y = p.forward(x, axes=c["axes"])
    want = poolref.separable(keep.numpy().astype(np.float64), axes, kk, ss, pad, **kw)
    if y.dtype != dt:
        return f"dtype {y.dtype}"
    if not close(y, want, 1e-9 if dt == torch.float64 else 1e-3):
        return diff(y, want)
    if c["filter"] and pad and tuple(y.shape) != tuple(c["shape"]):
        return "to_filter changed the shape"
    if not torch.equal(x, keep):
        return "input modified"
    y2 = p.forward(x, axes=c["axes"])
    if not torch.equal(y, y2):
        return "second call differs"
    return None
