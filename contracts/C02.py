from common import *
import padspec

FUNCS = ["torchimage.padding.generic_pad.Padder.forward", "torchimage.padding.generic_pad.Padder.pad_axis", "torchimage.padding.generic_pad.Padder._fill_value_1d",
         "torchimage.padding.pad_1d.odd_reflect_1d", "torchimage.padding.pad_1d.odd_symmetric_1d", "torchimage.padding.pad_1d.smooth_1d",
         "torchimage.padding.pad_1d.linear_ramp_1d", "torchimage.padding.pad_1d.replicate_1d", "torchimage.padding.utils.modify_idx"]
LEMMAS = ["lemmas/Extensions.lean"]
TRUSTED = ["the extension S of odd_reflect / odd_symmetric exists (its defining equations are consistent): proved in lemmas/Extensions.lean, checked by Lean on every run; that its theorems state the equations of contracts/padspec.py is by inspection"]
ASSUMPTIONS = ["proved per rank and axis position (quick: rank 2 and 3; thorough: ranks 1-3, every axis)"]


def smooth_value(c, ax):
    S, h, t = c.S, c.h, c.t

    def val(a):
        s = lambda j: padspec.sub(S, a, ax, j)
        j = a[ax]
        left = s(h) - z3.ToReal(h - j) * (s(h + 1) - s(h))
        right = s(t - 1) + z3.ToReal(j - (t - 1)) * (s(t - 1) - s(t - 2))
        return z3.If(z3.And(j >= h, j < t), S(*a), z3.If(j < h, z3.If(t - h == 1, s(h), left), z3.If(t - h == 1, s(t - 1), right)))
    return val


def h_smooth(rank, ax, how):
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        y = c.run(L, "smooth", how=how)
        c.post(y, "smooth", value=smooth_value(c, ax))
    return fn


def h_ramp(rank, ax, how, ev):
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        lo, hi = e.input_real("end_before"), e.input_real("end_after")
        if ev == "scalar":
            hi = lo
        y = c.run(L, "linear_ramp", how=how, end_values=(lo if ev == "scalar" else (lo, hi)))
        S, h, t = c.S, c.h, c.t
        e.prove(y.ndim == rank, "rank")
        if e.decide(z3.And(tint(c.a) == 0, tint(c.b) == 0)):
            same_elems(e, y, lambda *i: c.x.at(*i), "no width: unchanged")
            return
        n = [c.n[d] for d in range(rank)]
        n[ax] = c.N
        same_shape(e, y, n, "padded")
        N = tint(c.N)
        p = [tint(v) for v in idx_fresh(e, n)]
        j = p[ax]
        got = treal(y.at(*[core.wrap(v) for v in p]))
        s = lambda k: padspec.sub(S, p, ax, k)
        e.prove(z3.Implies(z3.And(j >= h, j < t), got == S(*p)), "original samples in place")
        # equal spacing: multiplied out by the (positive) width
        if e.decide(z3.And(j < h)):
            e.prove(z3.ToReal(h) * (got - treal(lo)) == z3.ToReal(j) * (s(h) - treal(lo)), "before: linear from end_before (position 0) to the first sample (position head)")
        elif e.decide(j >= t):
            e.prove(z3.ToReal(N - t) * (got - s(t - 1)) == z3.ToReal(j - (t - 1)) * (treal(hi) - s(t - 1)), "after: linear from the last sample to end_after (position N-1)")
        q = [tint(v) for v in idx_fresh(e, c.n, "q")]
        e.prove(treal(c.x.at(*[core.wrap(v) for v in q])) == treal(c.get(q)), "input unchanged")
    return fn


def h_1d_lines(which, rank, ax, none):
    """smooth_1d / linear_ramp_1d on a region of a larger tensor"""
    def fn(e, L):
        m = L.load("torchimage.padding.pad_1d")
        c = padspec.Pad1dCase(e, rank, ax, which, none)
        if which == "smooth":
            m.smooth_1d(c.y, idx=c.idx, dim=ax)
            c.post("smooth region", result=c.y, value=smooth_value(c, ax))
        else:
            lo, hi = e.input_real("end_before"), e.input_real("end_after")
            m.linear_ramp_1d(c.y, idx=c.idx, dim=ax, before=lo, after=hi)
            p = [e.fresh("p") for _ in range(rank)]
            e.assume(c.other(p))
            e.assume(z3.And(p[ax] >= 0, p[ax] < tint(c.N[ax])))
            j, S, h, t = p[ax], c.S, c.h, c.t
            got = treal(c.y.at(*[core.wrap(v) for v in p]))
            s = lambda k: padspec.sub(S, p, ax, k)
            if e.decide(j < h):
                e.prove(z3.ToReal(h) * (got - treal(lo)) == z3.ToReal(j) * (s(h) - treal(lo)), "before side")
            elif e.decide(j >= t):
                e.prove(z3.ToReal(tint(c.N[ax]) - t) * (got - s(t - 1)) == z3.ToReal(j - (t - 1)) * (treal(hi) - s(t - 1)), "after side")
            else:
                e.prove(got == S(*p), "region unchanged")
    return fn


def h_forward(mode, rank, ax, how):
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        y = c.run(L, mode, how=how)
        c.post(y, mode)
    return fn


def h_1d(mode, rank, ax, none):
    def fn(e, L):
        gp = L.load("torchimage.padding.generic_pad")
        f = gp._padding_function_dict[mode]
        c = padspec.Pad1dCase(e, rank, ax, mode, none)
        padspec.install(e, mode, c.S, ax, c.h, c.t)
        c.use_schema(mode)
        f(c.y, idx=c.idx, dim=ax)
        c.post(f"{mode}: the region is extended along the axis", result=c.y)
    return fn


def ramp_case(m, name):
    c = padspec.case_forward("linear_ramp")(m, name)
    c["end"] = [float(m.get("end_before", 1.5)), float(m.get("end_after", m.get("end_before", 1.5)) if "scalar" not in name else m.get("end_before", 1.5))]
    return c


def harnesses(tier):
    hs = []
    for m in ("odd_symmetric", "odd_reflect"):
        tc = padspec.case_forward(m)
        hs.append(H(f"forward[{m},rank2 ax1]", h_forward(m, 2, 1, "forward"), budget=60, to_case=tc))
        hs.append(H(f"pad_axis[{m},rank2 ax0]", h_forward(m, 2, 0, "pad_axis"), budget=60, to_case=tc))
        hs.append(H(f"pad_1d[{m},rank3 ax1 regions]", h_1d(m, 3, 1, False), budget=60, to_case=tc))
        for r, ax in ((1, 0), (2, 0), (3, 0), (3, 1), (3, 2)):
            hs.append(H(f"forward[{m},rank{r} ax{ax}]", h_forward(m, r, ax, "forward"), budget=60, to_case=tc, tiers=("thorough",)))
    ranks = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]
    tc = padspec.case_forward("smooth")
    for r, ax in ranks:
        hs.append(H(f"forward[smooth,rank{r} ax{ax}]", h_smooth(r, ax, "forward" if ax else "forward_neg"), budget=30, to_case=tc))
        hs.append(H(f"forward[linear_ramp,rank{r} ax{ax}]", h_ramp(r, ax, "forward" if ax else "forward_neg", "pair"), budget=30, to_case=ramp_case))
    hs.append(H("pad_axis[smooth,rank2 ax1]", h_smooth(2, 1, "pad_axis"), budget=30, to_case=tc))
    hs.append(H("pad_axis[linear_ramp scalar,rank2 ax1]", h_ramp(2, 1, "pad_axis", "scalar"), budget=30, to_case=ramp_case))
    for ax in (0, 1, 2):
        hs.append(H(f"pad_1d[smooth,rank3 ax{ax} regions]", h_1d_lines("smooth", 3, ax, False), budget=30, to_case=tc))
        hs.append(H(f"pad_1d[linear_ramp,rank3 ax{ax} regions]", h_1d_lines("linear_ramp", 3, ax, False), budget=30, to_case=ramp_case))
    return hs
