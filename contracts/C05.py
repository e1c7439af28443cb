from common import *

FUNCS = ["torchimage.padding.utils.same_padding_width", "torchimage.shapes.conv_like.conv_1d", "torchimage.padding.generic_pad.Padder.to_same"]
TRUSTED = []


def ceil_div(n, s):
    return core.floordiv(n + s - 1, s)


def h_formula(stride_kind):
    def fn(e, L):
        m = L.load("torchimage.padding.utils")
        c = L.load("torchimage.shapes.conv_like")
        k, n = e.input_int("k", 1), e.input_int("n", 1)
        s = {"int": lambda: e.input_int("s", 1), "one": lambda: 1, "none": lambda: None}[stride_kind]()
        if stride_kind == "one":
            a, b = m.same_padding_width(k, 1, None)
            a2, b2 = m.same_padding_width(k)
            e.prove(eq(a, a2) & eq(b, b2), "default stride is 1")
        else:
            a, b = m.same_padding_width(k, s, n)
        se = k if s is None else s
        from dv.loader import int_
        e.prove(isinstance(a, int_) and isinstance(b, int_), "widths are integers")
        e.prove(cmp(a, 0, ">="), "before >= 0")
        e.prove(cmp(b, 0, ">="), "after >= 0")
        e.prove(cmp(a - b, 0, ">="), "before >= after")
        e.prove(cmp(a - b, 1, "<="), "before <= after + 1")
        out = c.conv_1d(n + a + b, k, stride=se, dilation=1)
        want = ceil_div(n, se)
        e.prove(eq(out, want), "conv_1d of the padded size is ceil(size/stride)")
        # number of windows, independently: windows t with t*se + k <= n+a+b
        e.prove(cmp((want - 1) * se + k, n + a + b, "<="), "the last expected window fits")
        e.prove(cmp(want * se + k, n + a + b, ">"), "no further window fits")
        # minimality: with one element less the last window does not fit, unless nothing is padded
        p = a + b
        e.prove(core.swrap(z3.Or(tbool(eq(p, 0)), tbool(cmp((want - 1) * se + k, n + p - 1, ">")))), "widths are minimal")
    return fn


def h_raise(e, L):
    m = L.load("torchimage.padding.utils")
    k, s = e.input_int("k", 1), e.input_int("s", 2)
    expect_raises(e, ValueError, lambda: m.same_padding_width(k, s, None), "stride != 1 without in_size raises ValueError")
    expect_raises(e, ValueError, lambda: m.same_padding_width(k, None, None), "stride None without in_size raises ValueError")


def h_conv(e, L):
    c = L.load("torchimage.shapes.conv_like")
    n, k, s, d = e.input_int("n", 1), e.input_int("k", 1), e.input_int("s", 1), e.input_int("d", 1)
    e.assume(cmp(d * (k - 1) + 1, n, "<="))
    out = c.conv_1d(n, k, s, d)
    span = d * (k - 1) + 1
    e.prove(cmp(out, 1, ">="), "at least one output")
    e.prove(cmp((out - 1) * s + span, n, "<="), "the last window lies inside")
    e.prove(cmp(out * s + span, n, ">"), "one more window would not")


def h_to_same(form):
    def fn(e, L):
        gp = L.load("torchimage.padding.generic_pad")
        u = L.load("torchimage.padding.utils")
        k0, k1 = e.input_int("k0", 1), e.input_int("k1", 1)
        s0, s1 = e.input_int("s0", 1), e.input_int("s1", 1)
        n0, n1 = e.input_int("n0", 1), e.input_int("n1", 1)
        p = gp.Padder(mode="zeros")
        if form == "two":
            q = p.to_same([k0, k1], [s0, s1], [n0, n1])
            want = [(k0, s0, n0), (k1, s1, n1)]
        elif form == "mixed":
            q = p.to_same(k0, [s0, s1], [n0, n1])
            want = [(k0, s0, n0), (k0, s1, n1)]
        else:
            q = p.to_same([k0, k1])
            want = [(k0, 1, None), (k1, 1, None)]
        e.prove(q is p, "to_same returns the padder")
        e.prove(p.ndim == 2, "ndim follows the widths")
        for i, (k, s, n) in enumerate(want):
            for j, i2 in ((i, i), (i - 2, i)):
                pw = p.pad_width[j]
                st = s if not core.is_num(s) else int(s)
                a = pw[0]
                b = pw[1]
                e.prove(len(pw) == 2, "pair")
                # the contract of same_padding_width, restated on the stored widths
                nn = n if n is not None else e.input_int(f"any{i}", 1)
                w = ceil_div(nn, st)
                pt = a + b
                e.prove(cmp(a - b, 0, ">=") & cmp(a - b, 1, "<=") & cmp(b, 0, ">="), f"axis {i}: balanced")
                e.prove(cmp((w - 1) * st + k, nn + pt, "<="), f"axis {i}: last window fits")
                e.prove(core.swrap(z3.Or(tbool(eq(pt, 0)), tbool(cmp((w - 1) * st + k, nn + pt - 1, ">")))), f"axis {i}: minimal")
                break
    return fn


def case(m, h):
    if "k" in m:
        return {"k": m["k"], "s": m.get("s", 1 if "one" in h else None), "n": m.get("n", 5), "d": m.get("d", 1)}
    if "k0" in m:
        return {"k": m["k0"], "s": m["s0"], "n": m["n0"], "d": 1}


def harnesses(tier):
    return [H("same_padding_width[stride int]", h_formula("int"), to_case=case),
            H("same_padding_width[stride one]", h_formula("one"), to_case=case),
            H("same_padding_width[stride none]", h_formula("none"), to_case=case),
            H("same_padding_width[raises]", h_raise, to_case=case),
            H("conv_1d", h_conv, to_case=case),
            H("Padder.to_same[per axis]", h_to_same("two"), to_case=case),
            H("Padder.to_same[broadcast kernel]", h_to_same("mixed"), to_case=case),
            H("Padder.to_same[stride 1]", h_to_same("stride1"), to_case=case)]
