from common import *
import padspec

FUNCS = ["torchimage.padding.generic_pad.Padder.forward", "torchimage.padding.generic_pad.Padder.pad_axis", "torchimage.padding.generic_pad.Padder._fill_value_1d",
         "torchimage.padding.pad_1d.replicate_1d", "torchimage.padding.pad_1d.circular_1d", "torchimage.padding.pad_1d.periodize_1d",
         "torchimage.padding.pad_1d.symmetric_1d (negate False and True)", "torchimage.padding.pad_1d.reflect_1d",
         "torchimage.padding.utils.make_idx", "torchimage.padding.utils.modify_idx", "torchimage.utils.validation.check_axes"]
LEMMAS = ["lemmas/Extensions.lean"]
TRUSTED = ["the extension S of each mode exists (its defining equations are consistent): proved in lemmas/Extensions.lean, checked by Lean on every run; that its theorems state the equations of contracts/padspec.py is by inspection"]
ASSUMPTIONS = ["tensor ranks: the statement is proved per rank and axis position (quick: rank 2, both axes, and rank 3 with general regions of the other axes; thorough: ranks 1-3, every axis)"]
MODES = ["replicate", "circular", "periodize", "symmetric", "antisymmetric", "reflect"]


def h_forward(mode, rank, ax, how):
    def fn(e, L):
        c = padspec.ForwardCase(e, rank, ax)
        y = c.run(L, mode, how=how)
        c.post(y, mode)
    return fn


def h_1d(mode, rank, ax, none):
    def fn(e, L):
        gp = L.load("torchimage.padding.generic_pad")
        f = gp._padding_function_dict[mode]
        c = padspec.Pad1dCase(e, rank, ax, mode, none)
        padspec.install(e, mode, c.S, ax, c.h, c.t)
        c.use_schema(mode)
        if mode == "periodize":
            e.assume(z3.Implies(c.L % 2 == 1, c.t < tint(c.N[ax])))
        r = f(c.y, idx=c.idx, dim=ax)
        c.post(f"{mode}: the region is extended along the axis", result=c.y)
    return fn


def harnesses(tier):
    hs = []
    for m in MODES:
        big = 100 if m in ("symmetric", "antisymmetric", "reflect") else 50
        tc = padspec.case_forward(m)
        hs.append(H(f"forward[{m},rank2 ax1]", h_forward(m, 2, 1, "forward"), budget=big, to_case=tc))
        hs.append(H(f"forward[{m},rank2 ax0]", h_forward(m, 2, 0, "forward_neg"), budget=big - 1, to_case=tc, tiers=("thorough",)))
        hs.append(H(f"pad_axis[{m},rank2 ax0]", h_forward(m, 2, 0, "pad_axis"), budget=big - 1, to_case=tc))
        hs.append(H(f"pad_1d[{m},rank3 ax1 regions]", h_1d(m, 3, 1, False), budget=big, to_case=tc))
        for r, ax in ((1, 0), (3, 0), (3, 1), (3, 2)):
            hs.append(H(f"forward[{m},rank{r} ax{ax}]", h_forward(m, r, ax, "forward"), budget=big, to_case=tc, tiers=("thorough",)))
        for ax in (0, 2):
            hs.append(H(f"pad_1d[{m},rank3 ax{ax} regions]", h_1d(m, 3, ax, False), budget=big, to_case=tc, tiers=("thorough",)))
    return hs
