from common import *
import poolspec
from poolspec import getter

FUNCS = ["torchimage.pooling.base.SeparablePoolNd.__init__", "torchimage.pooling.base.SeparablePoolNd._align_params", "torchimage.pooling.base.SeparablePoolNd.forward",
         "torchimage.pooling.base.BasePoolNd.pad", "torchimage.pooling.base.BasePoolNd.read_stride", "torchimage.pooling.base.BasePoolNd.to_filter",
         "torchimage.pooling.base.BasePoolNd._init_padder", "torchimage.pooling.base.move_tensor", "torchimage.padding.generic_pad.Padder.to_same",
         "torchimage.utils.validation.check_axes", "torchimage.utils.validation.check_stride", "torchimage.utils.ndspec.NdSpec"]
TRUSTED = ["Padder.forward and same_padding_width are used through their contracts (proved in C01-C05)"]
ASSUMPTIONS = ["tensor rank, number of axes/kernels and their order are enumerated; kernel lengths, weights, strides, sizes and contents are symbolic",
               "same padding in mode periodize is not covered by the contract of Padder.forward used here (bounded check only)"]


def ker(e, kind, j):
    """-> (argument, weight function, length)"""
    if kind == "sym":
        k = e.input_int(f"k{j}", 1)
        t = inp(f"ker{j}", (k,))
        return t, (lambda b: t.at(core.wrap(b) if isinstance(b, z3.ExprRef) else b)), k
    if kind == "empty":
        return [], None, 0
    n = int(kind)
    ws = [e.input_real(f"w{j}_{q}") for q in range(n)]
    from dv.tensor import pick
    return list(ws), (lambda b: pick([lambda v=v: v for v in ws], core.wrap(b) if isinstance(b, z3.ExprRef) else b)), n


def h_pool(rank, axes, kinds, stride, pad=None, single=False, to_filter=None, dtype=FLOAT64):
    """kinds: kernel kind per entry; stride: None | 'one' (single symbolic) | list of 'sym'/None per entry"""
    def fn(e, L):
        poolspec.use_contracts(e, L)
        m = L.load("torchimage.pooling.base")
        gp = L.load("torchimage.padding.generic_pad")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n, dtype)
        ks = [ker(e, kd, j) for j, kd in enumerate(kinds)]
        arg = ks[0][0] if single else [q[0] for q in ks]
        if stride is None:
            sarg, ss = None, [q[2] for q in ks]
        elif stride == "one":
            s = e.input_int("s0", 1)
            sarg, ss = s, [s] * len(ks)
        else:
            vals = [None if v is None else e.input_int(f"s{j}", 1) for j, v in enumerate(stride)]
            sarg, ss = vals, [q[2] if v is None else v for v, q in zip(vals, ks)]
        padarg, pk = None, None
        if pad == "str":
            padarg, pk = "reflect", lambda i: ("reflect", [])
        elif pad == "padder":
            c = [(e.input_real(f"c{j}a"), e.input_real(f"c{j}b")) for j in range(len(axes))]
            padarg = gp.Padder(pad_width=5, mode=["constant"] * len(axes), constant_values=c)
            pk = lambda i: ("constant", [treal(v) for v in c[i]])
        ss = [1 if (core.is_num(k[2]) and int(k[2]) == 0 and core.is_num(s) and int(s) == 0) else s for k, s in zip(ks, ss)]
        p = m.SeparablePoolNd(kernel=arg, stride=sarg, same_padder=None if to_filter else padarg)
        if to_filter:
            q = p.to_filter(padder=padarg)
            e.prove(q is p, "to_filter returns the module")
            ss = [1] * len(ks)
        full = poolspec.norm_axes(x, axes)
        if single:
            ks, ss = ks * len(full), ss * len(full)
        if padarg is None:  # without padding the window must fit
            for ax, (_, _, k) in zip(full, ks):
                if full.count(ax) == 1:
                    e.assume(cmp(k, n[ax], "<="))
        for (_, _, k), s in zip(ks, ss):
            e.assume(cmp(s, 1, ">="))
        if full != [a for i, a in enumerate(full) if a not in full[:i]]:  # repeated axes: assume each step fits
            cur = list(n)
            for i, ax in enumerate(full):
                e.assume(cmp(ks[i][2], cur[ax], "<="))
                cur[ax] = core.floordiv(cur[ax] - ks[i][2], ss[i]) + 1
        y = p.forward(x, axes=axes) if axes != "default" else p.forward(x)
        want, shape = poolspec.separable(e, getter(x), n, full, [(w, k) for _, w, k in ks], ss, pk)
        same_shape(e, y, shape, "output")
        if to_filter and padarg is not None:
            same_shape(e, y, n, "to_filter keeps the shape")
        if padarg is not None and not to_filter:
            for i, ax in enumerate(full):
                if not (core.is_num(ks[i][2]) and int(ks[i][2]) == 0):
                    e.prove(eq(y.shape[ax], core.floordiv(n[ax] + ss[i] - 1, ss[i])), f"same padding: ceil(n/stride) outputs on axis {ax}")
        e.prove(y.dtype is x.dtype, "dtype")
        i = idx_fresh(e, y.shape)
        e.prove(treal(y.at(*i)) == want([tint(v) for v in i]), "strided correlation along each axis in turn")
        unchanged(e, x, "input unchanged")
    return fn


def h_stride(e, L):
    m = L.load("torchimage.pooling.base")
    s = e.input_int("s0", None, 0)
    expect_raises(e, ValueError, lambda: m.SeparablePoolNd(kernel=[1.0, 2.0], stride=s), "a stride below 1 raises ValueError")


def case(rank, axes, kinds, stride, pad, single, to_filter):
    def f(m, name):
        ks = []
        for j, kd in enumerate(kinds):
            k = min(m.get(f"k{j}", 2), 9) if kd == "sym" else 0 if kd == "empty" else int(kd)
            ks.append(k)
        st = None if stride is None else [m["s0"]] if stride == "one" else [None if v is None else m[f"s{j}"] for j, v in enumerate(stride)]
        return {"shape": [max(1, min(m[f"n{d}"], 12)) for d in range(rank)], "axes": list(axes), "ks": ks, "single": single, "stride": st, "stride_one": stride == "one",
                "pad": {None: None, "str": "reflect", "padder": "constant"}[pad], "filter": bool(to_filter), "seed": 1}
    return f


def harnesses(tier):
    hs = []

    def add(rank, axes, kinds, stride, pad=None, single=False, to_filter=None, tiers=("quick", "thorough"), budget=60, **kw):
        nm = f"forward[rank{rank} axes={axes} kernels={'/'.join(kinds)}{' (one)' if single else ''} stride={stride} pad={pad}{' to_filter' if to_filter else ''}{''.join(' ' + str(v) for v in kw.values())}]"
        hs.append(H(nm, h_pool(rank, axes, kinds, stride, pad, single, to_filter, **kw), to_case=case(rank, axes, kinds, stride, pad, single, to_filter), tiers=tiers, budget=budget))
    T = ("thorough",)
    for ax in ([0], [1], [2], [-1], [-3]):
        add(3, ax, ["sym"], ["sym"])
    add(2, [1], ["sym"], None)
    add(2, [0, 1], ["sym", "sym"], ["sym", "sym"])
    add(2, [1, 0], ["sym", "sym"], ["sym", "sym"])
    add(3, [2, 0], ["sym", "3"], [None, "sym"])
    add(3, [-1, -2], ["2", "3"], "one")
    add(3, [2, 1, 0], ["sym", "sym", "sym"], None)
    add(2, [0, 0], ["sym", "sym"], ["sym", "sym"])
    add(2, [1, 0], ["sym"], "one", single=True)
    add(3, [0, 1, 2], ["3"], None, single=True)
    add(3, [1, 2], ["empty", "sym"], None)
    add(3, [2, 1], ["empty", "sym"], ["sym", "sym"], pad="str")
    add(3, [1, 2], ["sym", "empty"], None, pad="str")
    add(2, [0, 1], ["empty"], None, single=True)
    add(2, [0, 1], ["empty"], None, single=True, pad="str")
    for pad in ("str", "padder"):
        add(2, [0], ["sym"], ["sym"], pad=pad)
        add(2, [1, 0], ["sym", "sym"], ["sym", "sym"], pad=pad)
        add(3, [2, 0], ["sym", "3"], [None, "sym"], pad=pad)
        add(3, [1, 2], ["sym", "sym"], None, pad=pad)
        add(2, [0, 1], ["sym", "sym"], None, pad=pad, to_filter=True)
        add(3, [2, 1], ["sym", "sym"], ["sym", "sym"], pad=pad, to_filter=True)
        add(2, [1, 0], ["3"], None, pad=pad, single=True, to_filter=True)
    add(2, [1, 0], ["3", "4"], "one", pad="str")
    add(2, [0, 1], ["sym", "sym"], ["sym", None], to_filter=True)
    add(2, [1, 0], ["sym", "sym"], ["sym", "sym"], pad="str", dtype=FLOAT32)
    add(4, [2, 3], ["sym", "sym"], ["sym", "sym"], pad="str")
    add(4, [3, 2, 1], ["sym", "sym", "sym"], ["sym", "sym", "sym"], pad="str", tiers=T)
    hs.append(H("stride below 1", h_stride, budget=20))
    return hs
