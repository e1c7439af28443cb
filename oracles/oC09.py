"""every kernel size 1..40 x 12 sigmas x order 0..6 (odd sizes for orders >= 1), then random sizes to 301, sigmas 0.2..60, orders to 8, negative orders, and GaussianPoolNd with per-axis specs; against an exact Hermite recursion in rationals"""
from util import *
from fractions import Fraction
import math
from torchimage.pooling.gaussian import gaussian_kernel_1d, GaussianPoolNd


def want(k, s, n):
    off = [i - k // 2 for i in range(k)]
    e = [math.exp(-(x * x) / (2 * s * s)) for x in off]
    S = math.fsum(e)
    g = [v / S for v in e]
    if n == 0:
        return g
    s2 = Fraction(s) * Fraction(s)
    co = [Fraction(1)]
    for _ in range(n):
        new = [Fraction(0)] * (len(co) + 1)
        for i, c in enumerate(co):
            if i:
                new[i - 1] += i * c
            new[i + 1] -= c / s2
        co = new
    return [(-1) ** n * float(sum(c * Fraction(x) ** i for i, c in enumerate(co))) * v for x, v in zip(off, g)]


def cases(tier, seed, k, n):
    def g():
        for kk in range(1, 41):
            for s in (0.3, 0.5, 0.8, 1.0, 1.3, 1.5, 2.0, 3.0, 4.5, 7.0, 20.0, 50.0):
                for o in range(7):
                    if o == 0 or kk % 2:
                        yield {"k": kk, "sigma": s, "order": o}
    yield from split(g(), k, n)

    def r(q):
        c = {"k": q.choice([q.randint(1, 15), q.randint(1, 301)]), "sigma": q.choice([1, 2, 3, q.uniform(.2, 5), q.uniform(1, 60)]), "order": q.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -3])}
        if c["order"] > 0:
            c["k"] |= 1
        if q.random() < .3 and c["order"] >= 0:
            c["spec"] = [[q.randint(0, 6) * 2 + 1, q.uniform(.5, 3), q.randint(0, 3)] for _ in range(q.randint(1, 3))]
        return c
    yield from endless(seed, k, r)


def one(got, k, s, n):
    w = want(k, s, n)
    if len(got) != k:
        return f"{len(got)} weights instead of {k}"
    sc = max(abs(v) for v in w) or 1.0
    for i, (a, b) in enumerate(zip(got, w)):
        if not abs(a - b) <= 1e-7 * sc + 1e-12:
            return f"weight {i} is {a} instead of {b}"
        if n == 0 and a < 0:
            return f"weight {i} negative"
    if n == 0 and abs(math.fsum(got) - 1) > 1e-9:
        return f"weights sum to {math.fsum(got)}"


def run(c):
    k, s, n = c["k"], c["sigma"], c["order"]
    if n < 0:
        try:
            gaussian_kernel_1d(k, s, n)
            return "no ValueError for a negative order"
        except ValueError:
            return None
    m = one(list(gaussian_kernel_1d(k, s, n)), k, s, n)
    if m:
        return m
    if "spec" in c:
        K, S, O = map(list, zip(*c["spec"]))
        p = GaussianPoolNd(K, S, O)
        for j in range(len(K)):
            m = one([float(v) for v in p.kernel[j]], K[j], S[j], O[j])
            if m:
                return f"module, axis {j}: {m}"
            if p.stride[j] != K[j]:
                return f"module, axis {j}: stride {p.stride[j]}"
    return None
