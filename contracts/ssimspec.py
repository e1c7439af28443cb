"""specification of the SSIM maps and their reductions"""
from common import *
import poolspec
from poolspec import getter
from C14 import reduced
from edgespec import padkey


class Maps:
    """contents of one pair of images at one scale; everything as index functions"""

    def __init__(self, e, g1, g2, shape, axes, ws, pad, K1, K2, sample):
        self.e, self.axes, self.ws, self.n = e, axes, ws, list(shape)
        blur = lambda g: poolspec.separable(e, g, list(shape), axes, ws, [1] * len(axes), padkey(pad))
        self.m1, self.sh = blur(g1)
        self.m2, _ = blur(g2)
        self.p11, _ = blur(lambda i: g1(i) * g1(i))
        self.p22, _ = blur(lambda i: g2(i) * g2(i))
        self.p12, _ = blur(lambda i: g1(i) * g2(i))
        self.C1, self.C2 = treal(K1) * treal(K1), treal(K2) * treal(K2)
        self.f = z3.RealVal(1)
        if sample:
            p = 1
            for _, k in ws:
                p = p * k
            self.f = treal(core.elem_div(p, p - 1))
        self.pad = pad

    def parts(self, i):
        m1, m2 = self.m1(i), self.m2(i)
        s1, s2, s12 = (self.p11(i) - m1 * m1) * self.f, (self.p22(i) - m2 * m2) * self.f, (self.p12(i) - m1 * m2) * self.f
        return m1, m2, s1, s2, s12

    def full(self, i):
        m1, m2, s1, s2, s12 = self.parts(i)
        return (2 * m1 * m2 + self.C1) * (2 * s12 + self.C2) / (m1 * m1 + m2 * m2 + self.C1) / (s1 + s2 + self.C2)

    def den(self, i):
        m1, m2, s1, s2, s12 = self.parts(i)
        return m1 * m1 + m2 * m2 + self.C1, s1 + s2 + self.C2

    def cs(self, i):
        m1, m2, s1, s2, s12 = self.parts(i)
        return (2 * s12 + self.C2) / (s1 + s2 + self.C2)

    def cropped(self, f, crop):
        """-> (f', shape') after dropping on each content axis the positions whose window touches padding"""
        if not crop or self.pad is None:
            return f, list(self.sh)
        sh, off = list(self.sh), [0] * len(self.sh)
        for a, (_, k) in zip(self.axes, self.ws):
            b = core.floordiv(k, 2)  # window of position t: t - k//2 .. t - k//2 + k - 1
            after = k - 1 - b
            off[a] = b
            sh[a] = self.n[a] - b - after
        return (lambda i: f([tint(v) + tint(o) for v, o in zip(i, off)])), sh
