"""Contracts of Padder.forward and same_padding_width as seen by their callers, and the functional specification of separable pooling."""
import z3
from dv import core
from dv.core import tint, treal, tbool, cmp, eq
from dv.tensor import SymTensor, ival
from dv import seq


def wrapi(i):
    return [core.wrap(v) if isinstance(v, z3.ExprRef) else ival(v) if not core.is_num(v) else v for v in i]


def getter(t):
    """tensor -> function of an index list to a z3 real"""
    return lambda i: treal(t.at(*wrapi(i)))


# ---------------------------------------------------------------- same padding widths
def spw(e, k, s, n):
    """(before, after) of same padding: the contract proved in C05 (balanced, minimal, ceil(n/s) windows), as functions of (k, s, n)"""
    if core.is_num(k) and core.is_num(s):
        if int(s) == 1:
            p = max(int(k) - 1, 0)
            return p - p // 2, p // 2
    B = e.uf("spw_before", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    A = e.uf("spw_after", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    k_, s_ = tint(k), tint(s)
    one = core.is_num(s) and int(s) == 1
    n_ = z3.IntVal(0) if one else tint(n)
    args = [z3.simplify(v, som=True) for v in (k_, s_, n_)]
    b, a = B(*args), A(*args)
    key = ("spw",) + tuple(v.get_id() for v in args)
    seen = e.__dict__.setdefault("_spw_seen", {})
    if seen.get(key) is not e.pc:
        seen[key] = e.pc
        e._spw_keep = getattr(e, "_spw_keep", []) + [args]
        e.assume(z3.And(a >= 0, b >= a, b <= a + 1))
        if one:
            e.assume(a + b == z3.If(k_ >= 1, k_ - 1, 0))
        else:
            w = core.floordiv(core.wrap(n_) + s - 1, s)
            t = tint((w - 1) * s + k - core.wrap(n_))
            e.assume(a + b == z3.If(t > 0, t, 0))
    return core.wrap(b), core.wrap(a)


def spw_stub(e, pre=True):
    def same_padding_width(kernel_size, stride=1, in_size=None):
        if stride is None:
            stride = kernel_size
        if pre:
            e.prove(cmp(kernel_size, 0, ">=") & cmp(stride, 1, ">="), "pre same_padding_width: kernel_size >= 0, stride >= 1")
        if in_size is None:
            if not e.decide(tint(stride) == 1):
                raise ValueError("in_size is required")
            in_size = 0
        return spw(e, kernel_size, stride, in_size)
    return same_padding_width


# ---------------------------------------------------------------- the padder
def pad_key(p, i):
    """identity of the padder's specification at entry i: a string and numeric parameters"""
    mode = p.mode[i]
    s = mode if isinstance(mode, str) else "fn%d" % getattr(mode, "tag", id(mode))
    ps = []
    if mode == "constant":
        ps = [treal(v) for v in p.constant_values[i]]
    elif mode == "linear_ramp":
        ps = [treal(v) for v in p.end_values[i]]
    elif mode in ("maximum", "minimum", "mean", "median"):
        for v in p.stat_length[i]:
            s += ":N" if v is None else ":v"
            if v is not None:
                ps.append(treal(v))
    elif mode == "periodize":
        raise core.Unsupported("periodize in the contract of Padder.forward")
    return s, ps


def zero_fill(key, params):
    return key == "zeros" or key == "constant" and all(z3.is_rational_value(v) and v.as_fraction() == 0 for v in params)


def padded(e, get, shape, entries):
    """contract of Padder.forward: entries = [(axis, before, after, key, params)]; returns (get', shape').
    The result is a function of the tensor, the widths and the specification; inside the original block it is the tensor."""
    entries = [en for en in entries if not (core.is_num(en[1]) and core.is_num(en[2]) and en[1] == 0 and en[2] == 0)]
    if not entries:
        return get, list(shape)
    out = list(shape)
    off = [0] * len(shape)
    for ax, b, a, _, _ in entries:
        out[ax] = out[ax] + b + a
        off[ax] = off[ax] + b
    kind = "pad:" + "/".join(f"{ax}:{k}" for ax, _, _, k, _ in entries)
    ps0 = [tint(v) for en in entries for v in (en[1], en[2])] + [v for en in entries for v in en[4]]

    def g(i):
        i = [tint(ival(v) if not isinstance(v, z3.ExprRef) else v) for v in i]
        ins = z3.simplify(z3.And([z3.And(i[ax] >= tint(off[ax]), i[ax] < tint(off[ax] + shape[ax])) for ax, *_ in entries]))
        kn = True if z3.is_true(ins) else e.known_cached(ins)
        src = [z3.simplify(i[d] - tint(off[d])) for d in range(len(shape))]
        if kn is True:
            return get(src)
        if all(zero_fill(k, ps) for _, _, _, k, ps in entries):
            v = z3.RealVal(0)
        else:
            v = e.node(kind, i + ps0, [([tint(s) for s in shape], lambda *b: get(list(b)))])
        return v if kn is False else z3.If(ins, get(src), v)
    return g, out


def norm_axes(x, axes):
    r = x.ndim
    if axes is None:
        return list(range(r))
    if isinstance(axes, slice):
        return list(range(r))[axes]
    if core.is_num(axes):
        axes = [axes]
    out = []
    for a in axes:
        a = int(a)
        if not -r <= a < r:
            raise ValueError("axis out of range")
        out.append(a % r)
    return out


def padder_stub(e):
    def forward(self, x, axes=slice(2, None)):
        axes = norm_axes(x, axes)
        if not axes:
            return x
        nd = self.ndim
        m = len(axes) if nd == 0 else min(len(axes), nd)
        ent = []
        for i in range(-m, 0):
            pw = self.pad_width[i]
            b, a = pw[0], pw[1]
            k, ps = pad_key(self, i)
            ent.append((axes[i], b, a, k, ps))
        e.prove(len({en[0] for en in ent}) == len(ent), "pre Padder.forward: axes are distinct")
        if all(core.is_num(en[1]) and core.is_num(en[2]) and en[1] == 0 and en[2] == 0 for en in ent):
            return x
        keep = x.clone()  # the value at the time of the call
        g, sh = padded(e, getter(keep), list(x.shape), ent)
        if x.dtype.kind != 2:
            raise core.Unsupported("contract of Padder.forward for an integer tensor")
        return x.new(tuple(sh), x.dtype, lambda i: core.SymReal(g(list(i))))
    return forward


def flat_lists(L):
    """contracts of get_ragged_ndarray / _recursive_expand for a flat list of numbers of symbolic length (C22): shape (n,), data unchanged"""
    r = L.load("torchimage.utils.ragged")
    g0, x0 = r.get_ragged_ndarray, r._recursive_expand

    def flat(d):
        return isinstance(d, seq.SymList) and d.sym is not None and isinstance(d.sym[1](z3.Int("b!probe")), (core.SymReal, core.SymInt, core.Fraction, float, int))

    def get_ragged_ndarray(data, strict=True):
        if flat(data):
            return data, (data.length(),)
        return g0(data, strict=strict)

    def _recursive_expand(arr, target_shape):
        if flat(arr) and len(target_shape) == 1 and core.is_num(target_shape[0]) and target_shape[0] == -1:
            return arr, (arr.length(),), False
        return x0(arr, target_shape)
    L.patch(g0, get_ragged_ndarray)
    L.patch(x0, _recursive_expand)


def use_contracts(e, L, pre=True):
    """calls of Padder.forward and same_padding_width are replaced by their contracts"""
    flat_lists(L)
    u = L.load("torchimage.padding.utils")
    gp = L.load("torchimage.padding.generic_pad")
    L.patch(u.same_padding_width, spw_stub(e, pre))
    gp.Padder.forward = padder_stub(e)
    return gp


# ---------------------------------------------------------------- separable correlation
def conv_axis(e, get, shape, ax, w, k, s):
    """correlation of one axis with weights w(0..k-1) at stride s"""
    out = list(shape)
    out[ax] = core.floordiv(shape[ax] - k, s) + 1

    def g(i):
        i = [tint(ival(v) if not isinstance(v, z3.ExprRef) else v) for v in i]

        def body(b):
            j = list(i)
            j[ax] = i[ax] * tint(s) + b
            return get(j) * treal(w(b))
        return e.sum_([tint(k)], body)
    return g, out


def separable(e, get, shape, axes, kernels, strides, pad=None):
    """kernels: [(w, k)] per entry; pad: function(i) -> (key, params) of entry i or None.  Zero-length kernels leave the axis alone."""
    if pad is not None:
        ent = []
        for i, ax in enumerate(axes):
            b, a = spw(e, kernels[i][1], strides[i], shape[ax])
            ent.append((ax, b, a) + tuple(pad(i)))
        get, shape = padded(e, get, shape, ent)
    for i, ax in enumerate(axes):
        w, k = kernels[i]
        if core.is_num(k) and int(k) == 0:
            continue
        get, shape = conv_axis(e, get, shape, ax, w, k, strides[i])
    return get, shape
