"""all (kernel, stride, size) with 1..14 x {None,1..9} x 1..24 (exhaustive), larger random ones, and Padder.to_same with per-axis specs"""
from util import *
from torchimage.padding.utils import same_padding_width
from torchimage.padding import Padder
from torchimage.shapes.conv_like import conv_1d


def one(k, s, n, a, b):
    se = k if s is None else s
    want = -(-n // se)
    if not (isinstance(a, int) and isinstance(b, int)) or isinstance(a, bool):
        return f"widths {a!r},{b!r} are not integers"
    if not (b >= 0 and 0 <= a - b <= 1):
        return f"widths ({a},{b}) not balanced non-negative"
    cnt = len([t for t in range(0, n + a + b, se) if t + k <= n + a + b])
    if cnt != want:
        return f"{cnt} windows instead of {want} with widths ({a},{b})"
    if a + b > 0 and len([t for t in range(0, n + a + b - 1, se) if t + k <= n + a + b - 1]) >= want:
        return f"widths ({a},{b}) are not minimal"
    return None


def cases(tier, seed, k, n):
    def g():
        for kk in range(1, 15):
            for s in [None] + list(range(1, 10)):
                for m in range(1, 25):
                    yield {"k": kk, "s": s, "n": m}
    yield from split(g(), k, n)

    def r(rr):
        if rr.random() < .5:  # sizes next to a multiple of a (large) stride
            s = rr.choice([rr.randint(1, 100), rr.randint(100, 10**4), rr.randint(10**4, 10**7)])
            return {"k": rr.choice([s, rr.randint(1, 2 * s), rr.randint(1, 9)]), "s": s, "n": max(1, s * rr.randint(1, rr.choice([3, 1000])) + rr.randint(-2, 2)), "d": 1}
        c = {"k": rr.randint(1, 200), "s": rr.choice([None, rr.randint(1, 90)]), "n": rr.choice([rr.randint(1, 400), rr.randint(1, 10**7)]), "d": rr.randint(1, 5)}
        if rr.random() < .3:
            c["spec"] = [[rr.randint(1, 9), rr.randint(1, 5), rr.randint(1, 30)] for _ in range(rr.randint(1, 4))]
        return c
    it = endless(seed, k, r)
    for _ in range(4000 if tier == "quick" else 10**9):
        yield next(it)


def run(c):
    k, s, n = c["k"], c["s"], c["n"]
    a, b = same_padding_width(k, s, n)
    if n > 5000:
        se = k if s is None else s
        w = -(-n // se)
        p = a + b
        m = None if (b >= 0 and 0 <= a - b <= 1 and (w - 1) * se + k <= n + p < w * se + k and (p == 0 or (w - 1) * se + k > n + p - 1)) else f"widths ({a},{b}) wrong"
    else:
        m = one(k, s, n, a, b)
    if m:
        return m
    se = k if s is None else s
    if conv_1d(n + a + b, k, stride=se, dilation=1) != -(-n // se):
        return f"conv_1d gives {conv_1d(n + a + b, k, stride=se, dilation=1)}"
    d = c.get("d", 1)
    if n <= 5000 and d * (k - 1) + 1 <= n:
        w = len([t for t in range(0, n, se) if t + d * (k - 1) < n])
        if conv_1d(n, k, se, d) != w:
            return f"conv_1d({n},{k},{se},{d}) = {conv_1d(n, k, se, d)} instead of {w}"
    if s == 1 and tuple(same_padding_width(k)) != (a, b):
        return "stride 1 without in_size differs"
    if s != 1:
        try:
            same_padding_width(k, s)
            return "no ValueError without in_size"
        except ValueError:
            pass
    if "spec" in c:
        ks, ss, ns = zip(*c["spec"])
        p = Padder(mode="zeros").to_same(list(ks), list(ss), list(ns))
        for i in range(-len(ks), 0):
            a, b = p.pad_width[i]
            m = one(ks[i], ss[i], ns[i], int(a), int(b))
            if m:
                return f"to_same axis {i}: {m}"
    return None
