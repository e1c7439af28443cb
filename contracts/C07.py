from common import *
import poolspec
from poolspec import getter

FUNCS = ["torchimage.pooling.uniform.AvgPoolNd.__init__", "torchimage.pooling.uniform.AvgPoolNd._get_kernel", "torchimage.pooling.uniform.AvgPoolNd.forward",
         "torchimage.pooling.base.SeparablePoolNd.forward", "torchimage.pooling.base.BasePoolNd.pad", "torchimage.pooling.base.BasePoolNd.read_stride", "torchimage.padding.generic_pad.Padder.to_same"]
TRUSTED = ["Padder.forward, same_padding_width and n_original_elements_nd are used through their contracts (proved in C01-C05, C08)"]
ASSUMPTIONS = ["tensor rank, number and order of axes enumerated; kernel sizes, strides, sizes, contents symbolic"]


def count(n, b, k, s, t):
    """number of positions of window t that fall on the original elements [b, b+n)"""
    lo, hi = core.smax(t * s, b), core.smin(t * s + k, b + n)
    return core.smax(hi - lo, 0)


def counts_stub(e):
    def n_original_elements_nd(in_size, pad_width, kernel_size, stride, *, device=None, dtype=None):
        from dv.tensor import SymTensor, as_dtype, ival
        ns, pws, ks, ss = list(in_size), list(pad_width), list(kernel_size), list(stride)
        m = len(ns)
        e.prove(len(pws) == m and len(ks) == m and len(ss) == m, "pre n_original_elements_nd: one entry per axis")
        shape = []
        for n, (b, a), k, s in zip(ns, pws, ks, ss):
            e.prove(cmp(n, 1, ">=") & cmp(b, 0, ">=") & cmp(a, 0, ">=") & cmp(k, 1, ">=") & cmp(s, 1, ">="), "pre n_original_elements_nd: sizes in range")
            N = n + b + a
            c = core.floordiv(N - k, s) + 1
            shape.append(core.smax(c, 0))

        def fn(i):
            r = 1
            for j in range(m):
                r = r * count(ns[j], pws[j][0], ks[j], ss[j], ival(i[j]))
            return core.SymReal(treal(r))
        return SymTensor.from_fn(tuple(shape), as_dtype(dtype) if dtype is not None else FLOAT64, fn)
    return n_original_elements_nd


def h_avg(rank, axes, single, stride, pad, include):
    def fn(e, L):
        poolspec.use_contracts(e, L)
        u = L.load("torchimage.pooling.uniform")
        cl = L.load("torchimage.shapes.conv_like")
        L.patch(cl.n_original_elements_nd, counts_stub(e))
        gp = L.load("torchimage.padding.generic_pad")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        m = len(axes)
        ks = [e.input_int(f"k{j}", 1) for j in range(1 if single else m)]
        if stride is None:
            sarg, ss = None, list(ks)
        else:
            vals = [e.input_int(f"s{j}", 1) for j in range(1 if single else m)]
            sarg, ss = (vals[0] if single else vals), vals
        pk = None
        if pad is not None:
            pk = lambda i: (pad, [])
        if pad == "zeros-constant":
            padarg = gp.Padder(mode="constant", constant_values=0)
            pk = lambda i: ("constant", [z3.RealVal(0), z3.RealVal(0)])
        else:
            padarg = pad
        p = u.AvgPoolNd(ks[0] if single else ks, sarg, same_padder=padarg, **({} if include == "default" else {"count_include_pad": include}))
        full = poolspec.norm_axes(x, axes)
        if single:
            ks, ss = ks * m, ss * m
        if pad is None:
            for ax, k in zip(full, ks):
                e.assume(cmp(k, n[ax], "<="))
        y = p.forward(x, axes=axes)
        one = lambda b: 1
        ent, b0 = [], [0] * m
        g, sh = getter(x), list(n)
        if pad is not None:
            for i, ax in enumerate(full):
                b, a = poolspec.spw(e, ks[i], ss[i], n[ax])
                b0[i] = b
                ent.append((ax, b, a) + tuple(pk(i)))
            if include is False:  # the sum of the original elements in the window
                from dv.tensor import ival
                off = {en[0]: en[1] for en in ent}

                def g(i, x=x):
                    src = [tint(v) - tint(off.get(d, 0)) for d, v in enumerate(i)]
                    ins = z3.And([z3.And(src[d] >= 0, src[d] < tint(n[d])) for d in off])
                    return z3.If(ins, treal(x.at(*[core.wrap(z3.simplify(v)) for v in src])), 0)
                for ax, b, a, _, _ in ent:
                    sh[ax] = sh[ax] + b + a
            else:
                g, sh = poolspec.padded(e, g, sh, ent)
        for i, ax in enumerate(full):
            g, sh = poolspec.conv_axis(e, g, sh, ax, one, ks[i], ss[i])
        same_shape(e, y, sh, "output")
        e.prove(y.dtype is x.dtype, "dtype")
        q = idx_fresh(e, y.shape)
        tot = g([tint(v) for v in q])
        got = treal(y.at(*q))
        if include is False:
            c = 1
            for i, ax in enumerate(full):
                ci = count(n[ax], b0[i], ks[i], ss[i], q[ax])
                e.prove(cmp(ci, 1, ">="), f"every window holds an original element (axis {ax})")
                c = c * ci
            e.prove(got == core.treal(core.elem_div(core.SymReal(tot), c)), "sum of the original elements / number of original elements")
        else:
            c = 1
            for k in ks:
                c = c * k
            e.prove(got == core.treal(core.elem_div(core.SymReal(tot), c)), "mean of the window")
        unchanged(e, x, "input unchanged")
    return fn


def case(rank, axes, single, stride, pad, include):
    def f(m, name):
        g = lambda k, j: m.get(f"{k}{0 if single else j}", 1)
        return {"shape": [max(1, min(m[f"n{d}"], 12)) for d in range(rank)], "axes": list(axes), "ks": [min(g("k", j), 10) for j in range(len(axes))], "single": single,
                "stride": None if stride is None else [g("s", j) for j in range(len(axes))], "pad": "zeros" if pad == "zeros-constant" else pad, "include": include is not False, "seed": 1}
    return f


def harnesses(tier):
    hs = []

    def add(rank, axes, single=False, stride="sym", pad=None, include=True, tiers=("quick", "thorough")):
        nm = f"AvgPoolNd[rank{rank} axes={axes}{' one size' if single else ''} stride={stride} pad={pad} include={include}]"
        hs.append(H(nm, h_avg(rank, axes, single, stride, pad, include), to_case=case(rank, axes, single, stride, pad, include), tiers=tiers, budget=60))
    for inc in (True, False):
        for pad in (None, "zeros", "zeros-constant"):
            add(2, [0], pad=pad, include=inc)
            add(2, [0, 1], pad=pad, include=inc)
            add(2, [1, 0], pad=pad, include=inc)
            add(3, [-1, 0], pad=pad, include=inc)
            add(3, [2, 1], single=True, pad=pad, include=inc)
            add(2, [1, 0], single=True, stride=None, pad=pad, include=inc)
            add(3, [2, 0, 1], pad=pad, include=inc, stride=None)
        for pad in ("reflect", "circular"):
            if inc:
                add(2, [1, 0], pad=pad, include=inc)
                add(3, [1, 2], single=True, pad=pad, include="default")
    return hs
