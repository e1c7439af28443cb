"""random ranks 1-4, axis lists in any order, kernel sizes 1-7 (one or per axis), strides None/1-4, no padder, zero padding (string, Padder, constant 0) or other modes, count_include_pad on and off, float64/float32; against explicit window sums and counts of original elements"""
from util import *
import poolref
from torchimage.pooling import AvgPoolNd
from torchimage.padding import Padder


def rand(r):
    nd = r.randint(1, 4)
    shape = [r.randint(1, 8 if nd < 4 else 4) for _ in range(nd)]
    axes = r.sample(range(nd), r.randint(1, min(nd, 3)))
    axes = [a - nd if r.random() < .3 else a for a in axes]
    single = r.random() < .3
    ks = [r.choice([1, 2, 3, 4, 5, 7]) for _ in (axes[:1] if single else axes)]
    sk = r.choice(["none", "one", "list"])
    st = None if sk == "none" else [r.randint(1, 4)] if sk == "one" or single else [r.choice([None, 1, 2, 3, 4]) for _ in axes]
    inc = r.random() < .5
    pad = r.choice([None, "zeros", "zeros", "zero-padder", "constant0"] + (["reflect", "symmetric", "circular"] if inc else []))
    return {"shape": shape, "axes": axes, "ks": ks, "single": single, "stride": st, "stride_one": sk == "one" or single, "pad": pad, "include": inc, "seed": r.randint(0, 10**6),
            "dtype": r.choice(["float64", "float64", "float32"])}


def cases(tier, seed, k, n):
    def g():
        for nn in range(1, 9):
            for kk in range(1, 9):
                for s in (None, 1, 2, 3, 4):
                    for pad in (None, "zeros"):
                        for inc in (True, False):
                            yield {"shape": [2, nn], "axes": [1], "ks": [kk], "single": True, "stride": None if s is None else [s], "stride_one": True, "pad": pad, "include": inc, "seed": nn}
    yield from split(g(), k, n)
    yield from endless(seed, k, rand)


def run(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    x = tensor(c["seed"], c["shape"], dt)
    keep = x.clone()
    nd = x.ndim
    axes = [a % nd for a in c["axes"]]
    m = len(axes)
    ks = c["ks"] * m if c["single"] else list(c["ks"])
    st = c["stride"]
    one = c.get("stride_one", c["single"])
    sarg = None if st is None else st[0] if one else list(st)
    ss = [None] * m if st is None else [st[0]] * m if one else list(st)
    ss = [k if s is None else s for k, s in zip(ks, ss)]
    pad = c["pad"]
    parg = {"zero-padder": lambda: Padder(pad_width=1, mode="zeros"), "constant0": lambda: Padder(pad_width=2, mode="constant", constant_values=0)}.get(pad, lambda: pad)()
    mode = "zeros" if pad in ("zero-padder", "constant0") else pad
    if pad is None and any(k > c["shape"][a] for a, k in zip(axes, ks)):
        return None
    p = AvgPoolNd(ks[0] if c["single"] else ks, stride=sarg, count_include_pad=c["include"], same_padder=parg)
    a = keep.numpy().astype(np.float64)
    if c["include"]:
        want = poolref.separable(a, axes, [[1.0 / k] * k for k in ks], ss, mode)
    else:
        want = poolref.separable(a, axes, [[1.0] * k for k in ks], ss, mode) / poolref.separable(np.ones_like(a), axes, [[1.0] * k for k in ks], ss, mode)
    for rep in range(2):
        y = p.forward(x, axes=c["axes"])
        if y.dtype != dt:
            return f"dtype {y.dtype}"
        if not close(y, want, 1e-9 if dt == torch.float64 else 1e-3):
            return ("" if not rep else "second call: ") + diff(y, want)
        if not torch.equal(x, keep):
            return "input modified"
    return None
