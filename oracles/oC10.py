"""random tensors (contiguous or not) of rank 1-5, every axis (also negative), kernel 1-5, stride 1-5, dilation 1-4 with at least one window; against an explicit numpy sum; output length against conv_1d, conv_nd per axis"""
from util import *
from torchimage.pooling.operator import any_conv_1d
from torchimage.shapes.conv_like import conv_1d, conv_nd


def rand(r):
    nd = r.randint(1, 5)
    shape = [r.randint(1, 9 if nd < 4 else 5) for _ in range(nd)]
    dim = r.randint(-nd, nd - 1)
    d, k = r.randint(1, 4), r.randint(1, 5)
    while d * (k - 1) + 1 > 16:
        k -= 1
    shape[dim] = max(shape[dim], d * (k - 1) + 1) + r.choice([0, 0, 1, 3])
    return {"shape": shape, "dim": dim, "k": k, "s": r.randint(1, 5), "d": d, "seed": r.randint(0, 10**6), "dtype": r.choice(["float64", "float32"])}


def cases(tier, seed, k, n):
    def g():
        for nd in range(1, 5):
            for dim in range(-nd, nd):
                for kk in (1, 2, 3):
                    for s in (1, 2, 3):
                        for d in (1, 2, 3):
                            sh = [2, 3, 4, 2][:nd]
                            sh[dim] = 8
                            yield {"shape": sh, "dim": dim, "k": kk, "s": s, "d": d, "seed": 5}
    yield from split(g(), k, n)
    yield from endless(seed, k, rand)


def run(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    x, w = tensor(c["seed"], c["shape"], dt), tensor(c["seed"] + 1, [c["k"]], dt)
    kx, kw = x.clone(), w.clone()
    ax, k, s, d = c["dim"] % x.ndim, c["k"], c["s"], c["d"]
    m = (c["shape"][ax] - d * (k - 1) - 1) // s + 1
    a, b = np.moveaxis(kx.numpy().astype(np.float64), ax, -1), kw.numpy().astype(np.float64)
    want = np.moveaxis(np.stack([sum(a[..., i * s + j * d] * b[j] for j in range(k)) for i in range(m)], axis=-1), -1, ax)
    y = any_conv_1d(x, w, dim=c["dim"], stride=s, dilation=d)
    if y.dtype != dt:
        return f"dtype {y.dtype}"
    if not close(y, want, 1e-9 if dt == torch.float64 else 1e-4):
        return diff(y, want)
    if not (torch.equal(x, kx) and torch.equal(w, kw)):
        return "an argument was modified"
    if conv_1d(c["shape"][ax], k, s, d) != m:
        return f"conv_1d gives {conv_1d(c['shape'][ax], k, s, d)} instead of {m}"
    r = conv_nd([c["shape"][ax], c["shape"][ax] + 1], [k, k], s, [d, d])
    if [int(r[0]), int(r[1])] != [m, (c["shape"][ax] + 1 - d * (k - 1) - 1) // s + 1]:
        return f"conv_nd gives {r}"
    return None
