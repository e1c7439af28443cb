"""independent SSIM maps (numpy)"""
import numpy as np
import poolref
from oC09 import want as gauss
from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
from util import rng


def make(c, m):
    """-> (blur argument or None, weights per axis)"""
    own = {} if not c.get("own_pad") else {"same_padder": c["own_pad"]}
    st = {} if c.get("stride") is None else {"stride": c["stride"]}
    b = c["blur"]
    if b == "default":
        return None, [gauss(11, 1.5, 0)] * m
    if b == "gaussian":
        return "gaussian", [gauss(11, 1.5, 0)] * m
    if b == "mean":
        return "mean", [[1 / 11] * 11] * m
    ks = list(c["ks"])[:m]
    if b == "separable":
        r = rng(c["seed"], "w")
        w = [r.uniform(.2, 1) for _ in range(ks[0])]
        w = [v / sum(w) for v in w]
        return SeparablePoolNd(list(w), **st, **own), [w] * m
    if b == "gauss":
        return GaussianPoolNd(ks[0], c["sigma"], **st, **own), [gauss(ks[0], c["sigma"], 0)] * m
    return AvgPoolNd(ks, **st, **own), [[1 / k] * k for k in ks]


def parts(a, b, axes, ws, pad, sample):
    bl = lambda x: poolref.separable(x, axes, ws, [1] * len(axes), pad)
    m1, m2 = bl(a), bl(b)
    n = int(np.prod([len(w) for w in ws]))
    f = n / (n - 1) if sample else 1
    return m1, m2, (bl(a * a) - m1 * m1) * f, (bl(b * b) - m2 * m2) * f, (bl(a * b) - m1 * m2) * f


def full(a, b, axes, ws, pad, sample, K1, K2):
    m1, m2, s1, s2, s12 = parts(a, b, axes, ws, pad, sample)
    C1, C2 = K1 ** 2, K2 ** 2
    return ((2 * m1 * m2 + C1) * (2 * s12 + C2)) / ((m1 ** 2 + m2 ** 2 + C1) * (s1 + s2 + C2))


def cs(a, b, axes, ws, pad, sample, K2):
    m1, m2, s1, s2, s12 = parts(a, b, axes, ws, pad, sample)
    return (2 * s12 + K2 ** 2) / (s1 + s2 + K2 ** 2)


def crop(x, axes, ws, pad, on):
    if not on or pad is None:
        return x
    for a, w in zip(axes, ws):
        k = len(w)
        x = np.take(x, range(k // 2, x.shape[a] - (k - 1 - k // 2)), axis=a)
    return x


def axlist(nd, axes):
    if axes is None:
        return list(range(nd))
    if isinstance(axes, int):
        axes = [axes]
    return [a % nd for a in axes]
