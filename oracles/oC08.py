"""n_original_elements_1d for all in_size 1-7, pads 0-9, kernels 1-9, strides 1-8 and random larger values; n_original_elements_nd for 1-4 axes, scalar or per-axis kernel size and stride; against a direct count of window positions"""
from util import *
from torchimage.shapes.conv_like import n_original_elements_1d, n_original_elements_nd, conv_1d


def ref(n, b, a, k, s):
    N = n + b + a
    return [sum(b <= t + j < b + n for j in range(k)) for t in range(0, N - k + 1, s)]


def rand(r):
    if r.random() < .6:
        big = r.random() < .5
        f = lambda lo, hi: r.randint(lo, hi)
        h = 60 if big else 14
        return {"n": [f(1, h)], "pad": [[f(0, h), f(0, h)]], "k": [f(1, h)], "s": [f(1, h if r.random() < .3 else 6)], "nd": False}
    m = r.randint(1, 4)
    one = r.random() < .4
    k = [r.randint(1, 6) for _ in range(m)]
    s = [r.randint(1, 5) for _ in range(m)]
    return {"n": [r.randint(1, 7) for _ in range(m)], "pad": [[r.randint(0, 6), r.randint(0, 6)] for _ in range(m)], "k": k[:1] * m if one else k, "s": s[:1] * m if one else s, "nd": True, "one": one}


def cases(tier, seed, k, n):
    rg = lambda *a: list(range(*a))
    g = ({"n": [x[0]], "pad": [[x[1], x[2]]], "k": [x[3]], "s": [x[4]], "nd": False} for x in itertools.product(rg(1, 8), rg(0, 10), rg(0, 10), rg(1, 10), rg(1, 9)))
    yield from split(g, k, n)
    yield from endless(seed, k, rand)


def run(c):
    ps = list(zip(c["n"], c["pad"], c["k"], c["s"]))
    if not c["nd"]:
        n, (b, a), k, s = ps[0]
        got = list(n_original_elements_1d(in_size=n, pad_width=(b, a), kernel_size=k, stride=s))
        want = ref(n, b, a, k, s)
        if got != want:
            return f"{got} instead of {want}"
        N = n + b + a
        if N >= k and conv_1d(N, k, s, 1) != len(want):
            return f"conv_1d {conv_1d(N, k, s, 1)} instead of {len(want)}"
        return None
    if c.get("one"):
        karg, sarg = c["k"][0], c["s"][0]
    else:
        karg, sarg = c["k"], c["s"]
    if any(n + b + a < k for n, (b, a), k, s in ps):
        return None
    z = n_original_elements_nd(in_size=c["n"], pad_width=[tuple(p) for p in c["pad"]], kernel_size=karg, stride=sarg)
    want = np.array(1)
    for n, (b, a), k, s in ps:
        want = np.multiply.outer(want, np.array(ref(n, b, a, k, s), dtype=np.int64))
    if tuple(z.shape) != want.shape or not np.array_equal(z.numpy(), want):
        return f"nd: {z.tolist()} instead of {want.tolist()}"
    return None
