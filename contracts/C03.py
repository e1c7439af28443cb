from common import *
import padspec
from dv.core import smin, smax

FUNCS = ["torchimage.padding.generic_pad.Padder.forward", "torchimage.padding.generic_pad.Padder.pad_axis", "torchimage.padding.generic_pad.Padder._fill_value_1d",
         "torchimage.padding.pad_1d.zeros_1d", "torchimage.padding.pad_1d.constant_1d", "torchimage.padding.pad_1d.stat_1d", "torchimage.padding.utils.modify_idx"]
TRUSTED = ["torch.max/min/mean/median(x, dim, keepdim=True) are the maximum/minimum/mean/(lower) median of each line along dim (uninterpreted functionals of the line; checked against sorting in tools/conformance.py)"]
ASSUMPTIONS = ["proved per rank and axis position (ranks 1-3)"]
STATS = ["maximum", "minimum", "mean", "median"]


def stat_of(x, ax, mode):
    if mode == "mean":
        return x.mean(dim=ax, keepdim=True)
    if mode == "median":
        return x.median(dim=ax, keepdim=True).values
    return (x.max(dim=ax, keepdim=True) if mode == "maximum" else x.min(dim=ax, keepdim=True)).values


def klen(sl, L):
    return L if sl is None else smin(L, smax(1, sl))


def h_fill(mode, rank, ax, how, ev):
    """zeros / constant"""
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        lo, hi = e.input_real("const_before"), e.input_real("const_after")
        if ev == "scalar":
            hi = lo
        if mode == "zeros":
            lo = hi = 0
            kw = {}
        else:
            kw = {"constant_values": lo if ev == "scalar" else (lo, hi)}
        if ev == "default":
            lo = hi = 0
            kw = {}
        y = c.run(L, mode, how=how, **kw)
        c.post(y, mode, value=lambda a: z3.If(a[ax] < c.h, treal(lo), z3.If(a[ax] >= c.t, treal(hi), c.S(*a))))
    return fn


def h_stat(mode, rank, ax, how, sl):
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        s = [None if k == "none" else e.input_int(f"stat{i}") for i, k in enumerate(sl)]
        arg = None if sl == ("none", "none") else (s[0], s[1])
        y = c.run(L, mode, how=how, stat_length=arg)
        n = c.n[ax]
        k0, k1 = klen(s[0], n), klen(s[1], n)
        lo = stat_of(c.x.narrow(ax, 0, k0), ax, mode)
        hi = stat_of(c.x.narrow(ax, n - k1, k1), ax, mode)

        def val(a):
            i = [core.wrap(v) for v in a]
            i[ax] = 0
            e2 = core.eng()
            if e2.decide(a[ax] < c.h):
                return lo.at(*i)
            if e2.decide(a[ax] >= c.t):
                return hi.at(*i)
            return c.S(*a)
        c.post(y, mode, value=val)
    return fn


def h_fill_1d(mode, rank, ax):
    def fn(e, L):
        m = L.load("torchimage.padding.pad_1d")
        c = padspec.Pad1dCase(e, rank, ax, mode)
        lo, hi = e.input_real("const_before"), e.input_real("const_after")
        if mode == "zeros":
            m.zeros_1d(c.y, idx=c.idx, dim=ax)
            lo = hi = 0
        else:
            m.constant_1d(c.y, idx=c.idx, dim=ax, before=lo, after=hi)
        c.post(f"{mode}: region extended", result=c.y, value=lambda a: z3.If(a[ax] < c.h, treal(lo), z3.If(a[ax] >= c.t, treal(hi), c.S(*a))))
    return fn


def h_stat_1d(mode, rank, ax, sl):
    def fn(e, L):
        m = L.load("torchimage.padding.pad_1d")
        c = padspec.Pad1dCase(e, rank, ax, mode)
        s = [None if k == "none" else e.input_int(f"stat{i}") for i, k in enumerate(sl)]
        n = core.wrap(z3.simplify(c.L))
        k0, k1 = klen(s[0], n), klen(s[1], n)
        y0 = c.y.clone()
        h, t = c.st[ax], c.en[ax]
        lo, hi = stat_of(y0.narrow(ax, h, k0), ax, mode), stat_of(y0.narrow(ax, t - k1, k1), ax, mode)
        m.stat_1d(c.y, idx=c.idx, dim=ax, before=s[0], after=s[1], mode=mode)

        def val(a):
            i = [core.wrap(v) for v in a]
            i[ax] = 0
            if e.decide(a[ax] < c.h):
                return treal(lo.at(*i))
            if e.decide(a[ax] >= c.t):
                return treal(hi.at(*i))
            return c.S(*a)
        p = [e.fresh("p") for _ in range(rank)]
        e.assume(z3.And(c.other(p), p[ax] >= 0, p[ax] < tint(c.N[ax])))
        e.prove(treal(c.y.at(*[core.wrap(v) for v in p])) == val(p), f"{mode}: region extended")
    return fn


def tc(mode, ev="pair", sl=None):
    g = padspec.case_forward(mode)

    def f(m, name):
        d = g(m, name)
        if d is None:
            return None
        if mode == "constant":
            a = float(m.get("const_before", 1.5)) if ev != "default" else 0.0
            d["const"] = [a, a if ev in ("scalar", "default") else float(m.get("const_after", -2.5))]
        if sl is not None:
            d["stat"] = [m.get("stat0"), m.get("stat1")]
        return d
    return f


def harnesses(tier):
    hs = []
    ranks = [(1, 0), (2, 0), (2, 1), (3, 1)]
    for r, ax in ranks:
        hs.append(H(f"forward[zeros,rank{r} ax{ax}]", h_fill("zeros", r, ax, "forward" if ax else "forward_neg", "pair"), to_case=tc("zeros")))
        hs.append(H(f"forward[constant,rank{r} ax{ax}]", h_fill("constant", r, ax, "forward" if ax else "forward_neg", "pair"), to_case=tc("constant")))
    for ev in ("scalar", "default"):
        hs.append(H(f"forward[constant {ev},rank2 ax1]", h_fill("constant", 2, 1, "forward", ev), to_case=tc("constant", ev)))
    for m in ("zeros", "constant"):
        hs.append(H(f"pad_axis[{m},rank2 ax0]", h_fill(m, 2, 0, "pad_axis", "pair"), to_case=tc(m)))
        for ax in (0, 1, 2):
            hs.append(H(f"pad_1d[{m},rank3 ax{ax} regions]", h_fill_1d(m, 3, ax), to_case=tc(m)))
    for m in STATS:
        for sl in (("int", "int"), ("none", "none"), ("int", "none"), ("none", "int")):
            nm = "/".join(sl)
            hs.append(H(f"forward[{m} {nm},rank2 ax1]", h_stat(m, 2, 1, "forward", sl), to_case=tc(m, sl=sl)))
            hs.append(H(f"pad_axis[{m} {nm},rank2 ax0]", h_stat(m, 2, 0, "pad_axis", sl), to_case=tc(m, sl=sl), tiers=("quick", "thorough") if sl in (("int", "int"),) else ("thorough",)))
            hs.append(H(f"forward[{m} {nm},rank3 ax1]", h_stat(m, 3, 1, "forward_neg", sl), to_case=tc(m, sl=sl), tiers=("thorough",)))
            hs.append(H(f"pad_1d[{m} {nm},rank3 ax1 regions]", h_stat_1d(m, 3, 1, sl), to_case=tc(m, sl=sl)))
    return hs
