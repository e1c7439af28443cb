"""torch, for symbolic tensors (CPU, real arithmetic).  Unknown attributes raise Unsupported."""
import itertools, types
import numpy as _np
import z3
from fractions import Fraction
from . import core, seq
from .core import Sym, SymInt, SymReal, SymBool, Unsupported, is_num, tint, treal, eng, ite, cmp
from . import tensor as T
from .tensor import (SymTensor, Size, FLOAT64, FLOAT32, INT64, INT32, UINT8, BOOL, DType, as_tensor, conv_int, size_eq, prod, ival,
                     wrap, broadcast_getter, broadcast_shape, size_eq_known)


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self.__name__}.{name}")


class _TensorMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymTensor) and x.lib == "torch"

    def __getattr__(cls, n):
        return getattr(SymTensor, n)


class Tensor(metaclass=_TensorMeta):
    pass


torch = _Mod("torch")
torch.Tensor = Tensor
torch.Size = Size
for _d in (T.BOOL, T.UINT8, T.INT8, T.INT16, T.INT32, T.INT64, T.FLOAT16, T.BFLOAT16, T.FLOAT32, T.FLOAT64):
    setattr(torch, _d.name, _d)
torch.float, torch.double, torch.int, torch.long, torch.half = T.FLOAT32, T.FLOAT64, T.INT32, T.INT64, T.FLOAT16
torch.dtype = DType
torch.is_tensor = lambda x: isinstance(x, SymTensor) and x.lib == "torch"
torch.is_floating_point = lambda x: x.dtype.kind == 2
torch.device = lambda *a: T.CPU
torch.get_default_dtype = lambda: T.DEFAULT
torch.contiguous_format = None
torch.float32_ = None


class Generator:
    def __init__(self, *a, **k):
        self.draws = []

    def manual_seed(self, s):
        return self


torch.Generator = Generator


def _sizes(a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = tuple(a[0])
    out = []
    for s in a:
        if isinstance(s, (float, Fraction, SymReal)):
            raise TypeError("empty(): argument 'size' must be tuple of ints")
        s = conv_int(s)
        if eng().decide(tint(s) < 0):
            raise RuntimeError("Trying to create tensor with negative dimension")
        out.append(s)
    return tuple(out)


def _dt(dtype):
    return T.DEFAULT if dtype is None else dtype


def empty(*size, dtype=None, device=None, requires_grad=False, size_=None, memory_format=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    sh = _sizes(size)
    dt = _dt(dtype)
    f = eng().fresh_fn("uninit", len(sh), T.sort_of(dt))
    t = SymTensor.from_fn(sh, dt, lambda idx: T.apply_fn(f, idx, dt), label="uninit")
    return t


def _fulls(sh, v, dt):
    v = T.cast(v, dt)
    return SymTensor.from_fn(sh, dt, lambda idx: v)


torch.empty = empty
torch.zeros = lambda *s, dtype=None, device=None, requires_grad=False, size=None: _fulls(_sizes(s if size is None else (size,)), 0, _dt(dtype))
torch.ones = lambda *s, dtype=None, device=None, requires_grad=False, size=None: _fulls(_sizes(s if size is None else (size,)), 1, _dt(dtype))


def full(size, fill_value, dtype=None, device=None, requires_grad=False):
    v = fill_value.item() if isinstance(fill_value, SymTensor) else fill_value
    dt = dtype or {0: BOOL, 1: INT64, 2: T.DEFAULT}[T.scalar_kind(v)]
    return _fulls(_sizes((size,)), v, dt)


torch.full = full
torch.zeros_like = lambda x, dtype=None, device=None, **k: _fulls(x._shape, 0, dtype or x.dtype)
torch.ones_like = lambda x, dtype=None, device=None, **k: _fulls(x._shape, 1, dtype or x.dtype)
torch.full_like = lambda x, v, dtype=None, device=None, **k: _fulls(x._shape, v, dtype or x.dtype)
torch.empty_like = lambda x, dtype=None, device=None, **k: empty(*x._shape, dtype=dtype or x.dtype)
SymTensor.new_empty = lambda self, *s, dtype=None, device=None: empty(*s, dtype=dtype or self.dtype)
SymTensor.new_zeros = lambda self, *s, dtype=None, device=None: _fulls(_sizes(s), 0, dtype or self.dtype)
SymTensor.new_ones = lambda self, *s, dtype=None, device=None: _fulls(_sizes(s), 1, dtype or self.dtype)
SymTensor.new_full = lambda self, s, v, dtype=None, device=None: _fulls(_sizes((s,)), v, dtype or self.dtype)
SymTensor.new_tensor = lambda self, d, dtype=None, device=None: as_tensor(d, dtype or self.dtype)


def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, _np.ndarray) and data.dtype == object and dtype is None:
        pass
    t = as_tensor(data, dtype, "torch")
    t.lib = "torch"
    return t.detach() if eng().hooks.get("grad") else t


torch.tensor = tensor
torch.as_tensor = lambda d, dtype=None, device=None: d.to(dtype) if torch.is_tensor(d) else (as_np(d, dtype))


def as_np(d, dtype=None):
    if isinstance(d, SymTensor):
        r = SymTensor(d.storage, d._shape, d.vmap, d.vinv, d.fac, "torch", d.contig, d.dtype)
        r.anylayout, r.strided = d.anylayout, d.strided
        return r.to(dtype) if dtype else r
    return tensor(d, dtype)


torch.from_numpy = lambda a: as_np(a) if isinstance(a, SymTensor) else as_tensor(a, FLOAT64 if any(core.realish(v) for v in a.flat) else None, "torch")


def cat(ts, dim=0, axis=None):
    dim = dim if axis is None else axis
    ts = [t for t in ts if not (t.ndim == 1 and is_num(t._shape[0]) and t._shape[0] == 0)] or list(ts)[:1]
    d = ts[0]._axis(dim)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(t.ndim):
            if k != d and not size_eq(t._shape[k], ts[0]._shape[k]):
                raise RuntimeError("Sizes of tensors must match except in dimension")
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = T.promote(dt, t.dtype)
    offs, o = [], 0
    for t in ts:
        offs.append(o)
        o = o + t._shape[d]
    gs = [t.getter() for t in ts]
    sh = ts[0]._shape[:d] + (o,) + ts[0]._shape[d + 1:]

    def fn(idx):
        i = ival(idx[d])
        r = None
        for g, f in reversed(list(zip(gs, offs))):
            j = i - f
            if is_num(j):
                if r is None or int(j) < 0:
                    if r is None and int(j) < 0:
                        continue
                if int(j) >= 0 and r is None:
                    return T.cast(g(idx[:d] + (j,) + idx[d + 1:]), dt)
                continue
            v = T.cast(g(idx[:d] + (j,) + idx[d + 1:]), dt)
            r = v if r is None else ite(cmp(i, prev, "<"), v, r)
            prev = f
        return r
    return ts[0].new(sh, dt, fn)


torch.cat = torch.concat = torch.concatenate = cat


def stack(ts, dim=0):
    ts = list(ts)
    n = ts[0].ndim + 1
    dim = int(dim)
    if not -n <= dim < n:
        raise IndexError("Dimension out of range")
    d = dim % n
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or not all(size_eq(a, b) for a, b in zip(t._shape, ts[0]._shape)):
            raise RuntimeError("stack expects each tensor to be equal size")
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = T.promote(dt, t.dtype)
    gs = [t.getter() for t in ts]
    sh = ts[0]._shape[:d] + (len(ts),) + ts[0]._shape[d:]
    return ts[0].new(sh, dt, lambda idx: T.pick([lambda g=g: T.cast(g(idx[:d] + idx[d + 1:]), dt) for g in gs], ival(idx[d])))


torch.stack = stack


def arange(start, end=None, step=1, dtype=None, device=None, requires_grad=False):
    if end is None:
        start, end = 0, start
    if any(core.realish(v) for v in (start, end, step)):
        raise Unsupported("arange of floats")
    start, end, step = conv_int(start), conv_int(end), conv_int(step)
    from .loader import SymRange
    r = SymRange(start, end, step)
    if r.neg:
        bad = eng().decide(tint(end) > tint(start))
    else:
        bad = eng().decide(tint(end) < tint(start))
    if bad:
        raise RuntimeError("upper bound and lower bound inconsistent with step sign")
    dt = dtype or INT64
    return SymTensor.from_fn((r.__symlen__(),), dt, lambda idx: T.cast(r.at(ival(idx[0])), dt))


torch.arange = arange


def linspace(start, end, steps, dtype=None, device=None, **k):
    steps = conv_int(steps)
    if eng().decide(tint(steps) < 0):
        raise RuntimeError("number of steps must be non-negative")
    dt = _dt(dtype)
    s, e_ = T.cast(start, FLOAT64), T.cast(end, FLOAT64)

    def fn(idx):
        i = ival(idx[0])
        if is_num(steps) and steps == 1:
            return s
        den = core.smax(steps - 1, 1)
        return s + core.elem_div(T.cast(i, FLOAT64) * (e_ - s), T.cast(den, FLOAT64))
    return SymTensor.from_fn((steps,), dt, fn)


torch.linspace = linspace
torch.flip = lambda x, dims: x.flip(dims)
torch.mean = lambda x, dim=None, keepdim=False, **k: x.mean(dim, keepdim, **k)
torch.sum = lambda x, dim=None, keepdim=False, **k: x.sum(dim, keepdim, **k)
torch.max = lambda x, dim=None, keepdim=False: x.max(dim, keepdim)
torch.min = lambda x, dim=None, keepdim=False: x.min(dim, keepdim)
torch.amax = lambda x, dim=None, keepdim=False: x.amax(dim, keepdim)
torch.amin = lambda x, dim=None, keepdim=False: x.amin(dim, keepdim)
torch.median = lambda x, dim=None, keepdim=False: x.median(dim, keepdim)
torch.prod = lambda x, dim=None, keepdim=False: x.prod(dim, keepdim)
torch.maximum = lambda a, b: a.max(b)
torch.minimum = lambda a, b: a.min(b)
torch.any = lambda x, dim=None, **k: x.any(dim)
torch.all = lambda x, dim=None, **k: x.all(dim)
torch.abs = lambda x: abs(x)
torch.sqrt = lambda x: x.sqrt()
torch.exp = lambda x: x.exp()
torch.log = lambda x: x.log()
torch.log10 = lambda x: x.log10()
torch.floor = lambda x: x.floor()
torch.ceil = lambda x: x.ceil()
torch.square = lambda x: x.square()
torch.neg = lambda x: -x
torch.sign = lambda x: x.sign()
torch.clamp = lambda x, min=None, max=None: x.clamp(min, max)
torch.clip = torch.clamp
torch.pow = lambda a, b: a ** b
torch.add = lambda a, b, alpha=1: a.add(b, alpha=alpha) if isinstance(a, SymTensor) else b * alpha + a
torch.sub = lambda a, b, alpha=1: a.sub(b, alpha=alpha)
torch.mul = lambda a, b: a * b
torch.div = lambda a, b: a / b
torch.matmul = T.matmul
torch.where = T.where
torch.clone = lambda x, **k: x.clone()
torch.unsqueeze = lambda x, d: x.unsqueeze(d)
torch.squeeze = lambda x, d=None: x.squeeze(d)
torch.reshape = lambda x, s: x.reshape(s)
torch.transpose = lambda x, a, b: x.transpose(a, b)
torch.movedim = lambda x, a, b: x.movedim(a, b)
torch.permute = lambda x, d: x.permute(d)
torch.flatten = lambda x, start_dim=0, end_dim=-1: x.flatten(start_dim, end_dim)
torch.narrow = lambda x, d, s, n: x.narrow(d, s, n)
torch.numel = lambda x: x.numel()
torch.logical_and = lambda a, b: a & b
torch.logical_or = lambda a, b: a | b
torch.logical_not = lambda a: ~a
torch.eq = lambda a, b: a == b
torch.ne = lambda a, b: a != b
torch.lt = lambda a, b: a < b
torch.le = lambda a, b: a <= b
torch.gt = lambda a, b: a > b
torch.ge = lambda a, b: a >= b
torch.masked_fill = lambda x, m, v: x.masked_fill(m, v)
torch.broadcast_to = lambda x, s: x.broadcast_to(s)
torch.expand_copy = lambda x, s: x.expand(*s).clone()
torch.result_type = lambda a, b: T.result_dtype(a, b)
torch.promote_types = lambda a, b: T.promote(a, b)
torch.trunc = lambda x: x._un(lambda a: T.cast(core.trunc_real(a), FLOAT64) if core.realish(a) else a)
torch.frac = lambda x: x - torch.trunc(x)
torch.einsum = lambda *a: (_ for _ in ()).throw(Unsupported("einsum"))


def mean_stat(x, dim, keepdim):
    return x.mean(dim, keepdim)


def broadcast_tensors(*ts):
    sh = broadcast_shape(*[t._shape for t in ts])
    return [t if t.ndim == len(sh) and all(size_eq_known(a, b) for a, b in zip(t._shape, sh)) else t.expand(*sh) for t in ts]


torch.broadcast_tensors = broadcast_tensors
torch.broadcast_shapes = lambda *s: Size(broadcast_shape(*s))
torch.equal = lambda a, b: bool((a == b).all())


# ---------------------------------------------------------------- random
def _draw(kind, gen):
    e = eng()
    lst = gen.draws if gen is not None else e.__dict__.setdefault("global_draws", [])
    lst.append(kind)
    return lst


def randint(*args, size=None, generator=None, dtype=None, device=None, low=None, high=None, **k):
    a = list(args)
    if size is None and a and isinstance(a[-1], (tuple, list)):
        size = a.pop()
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else (low or 0, high)
    e = eng()
    lo, hi = conv_int(lo), conv_int(hi)
    if e.decide(tint(hi) <= tint(lo)):
        raise RuntimeError("random_ expects 'from' to be less than 'to'")
    sh = tuple(size)
    f = e.fresh_fn("draw_int", len(sh), z3.IntSort())
    rec = ("randint", lo, hi, sh, f)
    _draw(rec, generator)
    dt = dtype or INT64
    if not sh:
        e.assume(z3.And(f >= tint(lo), f < tint(hi)))
        rec_t = f
        return SymTensor.from_fn((), dt, lambda idx: SymInt(f))
    e.assume_quant(core.Quant(f, lambda *j: z3.And(f(*j) >= tint(lo), f(*j) < tint(hi)), "randint"))
    return SymTensor.from_fn(sh, dt, lambda idx: T.apply_fn(f, idx, INT64))


def _randf(kind):
    def g(*size, dtype=None, device=None, generator=None, requires_grad=False, **k):
        sh = _sizes(size if "size" not in k else (k["size"],))
        f = eng().fresh_fn("draw_" + kind, len(sh), z3.RealSort())
        _draw((kind, sh, f, dtype), generator)
        dt = _dt(dtype)
        return SymTensor.from_fn(sh, dt, lambda idx: T.apply_fn(f, idx, FLOAT64))
    return g


def poisson(rate, generator=None):
    e = eng()
    f = e.fresh_fn("draw_poisson", rate.ndim, z3.RealSort())
    _draw(("poisson", rate._shape, f, rate.clone()), generator)
    return SymTensor.from_fn(rate._shape, rate.dtype, lambda idx: T.apply_fn(f, idx, FLOAT64))


torch.randint = randint
torch.randn = _randf("randn")
torch.rand = _randf("rand")
torch.poisson = poisson
torch.randn_like = lambda x, dtype=None, device=None, **k: torch.randn(*x._shape, dtype=dtype or x.dtype, **k)
torch.rand_like = lambda x, dtype=None, device=None, **k: torch.rand(*x._shape, dtype=dtype or x.dtype, **k)


def normal(mean=0.0, std=1.0, size=None, generator=None, dtype=None, device=None):
    if size is None:
        raise Unsupported("torch.normal with tensors")
    return torch.randn(*size, dtype=dtype, generator=generator) * std + mean


torch.normal = normal
torch.manual_seed = lambda s: None


class _NoGrad:
    delta = 1

    def __init__(self, mode=True):
        self.mode = mode

    def __enter__(self):
        e = eng()
        self.old = e.nograd
        e.nograd = self.delta if self.mode else 0

    def __exit__(self, *a):
        eng().nograd = self.old
        return False

    def __call__(self, f):
        def g(*a, **k):
            with type(self)(self.mode):
                return f(*a, **k)
        return g


class _Grad(_NoGrad):
    delta = 0


class _SetGrad(_NoGrad):
    """also takes effect when called without `with`"""

    def __init__(self, mode):
        self.old = eng().nograd
        eng().nograd = 0 if mode else 1
        self.mode = not mode

    def __enter__(self):
        pass


torch.no_grad = _NoGrad
torch.enable_grad = _Grad
torch.inference_mode = _NoGrad
torch.set_grad_enabled = _SetGrad


# ---------------------------------------------------------------- nn
nn = _Mod("torch.nn")
F = _Mod("torch.nn.functional")
torch.nn = nn
nn.functional = F


class Module:
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def register_buffer(self, n, t, persistent=True):
        setattr(self, n, t)

    def register_parameter(self, n, t):
        setattr(self, n, t)

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def to(self, *a, **k):
        return self

    def parameters(self):
        return iter([])


class _ParamMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymTensor) and getattr(x, "is_param", False)

    def __call__(cls, data=None, requires_grad=True):
        t = SymTensor(data.storage, data._shape, data.vmap, data.vinv, data.fac, "torch", data.contig, data.dtype)
        t.anylayout, t.strided = data.anylayout, data.strided
        t.is_param = True
        return t


class Parameter(metaclass=_ParamMeta):
    pass


class ModuleDict(Module, dict):
    def __init__(self, d=()):
        dict.__init__(self, d)

    __call__ = None


class ModuleList(Module, list):
    def __init__(self, d=()):
        list.__init__(self, d)


class Sequential(Module):
    def __init__(self, *ms):
        self.ms = ms

    def forward(self, x):
        for m in self.ms:
            x = m(x)
        return x


class Identity(Module):
    def forward(self, x):
        return x


nn.Module, nn.Parameter, nn.ModuleDict, nn.ModuleList, nn.Sequential, nn.Identity = Module, Parameter, ModuleDict, ModuleList, Sequential, Identity


def _pair(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


def _convnd(x, w, bias, stride, padding, dilation, groups, nd):
    e = eng()
    if isinstance(padding, str) or any(not (is_num(p) and p == 0) for p in padding):
        if isinstance(padding, str):
            raise Unsupported("string padding")
        pads = []
        for p in padding[::-1]:
            pads += [p, p]
        x = pad(x, pads)
    if not (is_num(groups) and groups == 1):
        raise Unsupported("grouped convolution")
    squeeze = False
    if x.ndim == nd + 1:
        x = x.unsqueeze(0)
        squeeze = True
    if x.ndim != nd + 2 or w.ndim != nd + 2:
        raise RuntimeError("Expected batched input to conv")
    if not size_eq(x._shape[1], w._shape[1]):
        raise RuntimeError("Given groups=1, weight and input channels do not match")
    if x.dtype is not w.dtype:
        raise RuntimeError("Input type and weight type should be the same")
    out = []
    for d in range(nd):
        n, k, s, dl = x._shape[2 + d], w._shape[2 + d], stride[d], dilation[d]
        if e.decide(tint(s) <= 0) or e.decide(tint(dl) <= 0):
            raise RuntimeError("non-positive stride / dilation is not supported")
        span = dl * (k - 1) + 1
        if e.decide(tint(span) > tint(n)):
            raise RuntimeError("Kernel size can't be greater than actual input size")
        if e.decide(tint(k) <= 0):
            raise RuntimeError("kernel size should be positive")
        out.append(core.floordiv(n - span, s) + 1)
    gx, gw = x.getter(), w.getter()
    gb = bias.getter() if bias is not None else None
    sizes = [w._shape[1]] + [w._shape[2 + d] for d in range(nd)]
    wr = lambda p: wrap(p) if isinstance(p, z3.ExprRef) else p

    plain = [is_num(w._shape[2 + d]) and w._shape[2 + d] == 1 and is_num(stride[d]) and stride[d] == 1 for d in range(nd)]

    def fn(idx):
        def body(c, *ks):
            ks = [wr(k) for k in ks]
            c = wr(c)
            pos = tuple(idx[2 + d] if plain[d] else (ival(idx[2 + d]) if is_num(stride[d]) and stride[d] == 1 else ival(idx[2 + d]) * stride[d]) + ks[d] * dilation[d] for d in range(nd))
            return gx((idx[0], c) + pos) * gw((idx[1], c) + tuple(ks))
        r = T.sum_elem(sizes, body, FLOAT64)
        return r if gb is None else r + gb((idx[1],))
    fac = [x.fac[0], None] + [x.fac[2 + d] if plain[d] else None for d in range(nd)]
    r = x.new((x._shape[0], w._shape[0]) + tuple(out), x.dtype, fn, fac=fac)
    return r.squeeze(0) if squeeze else r


def conv1d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    one = lambda v: (tuple(v) if isinstance(v, (tuple, list)) else (v,))
    return _convnd(input, weight, bias, one(stride), padding if isinstance(padding, str) else one(padding), one(dilation), groups, 1)


def conv2d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    return _convnd(input, weight, bias, _pair(stride), padding if isinstance(padding, str) else _pair(padding), _pair(dilation), groups, 2)


F.conv1d, F.conv2d = conv1d, conv2d
torch.conv1d, torch.conv2d = conv1d, conv2d


def pad(input, pad, mode="constant", value=None):
    x = input
    pads = list(pad)
    n = len(pads) // 2
    dims = [x.ndim - 1 - k for k in range(n)]
    e = eng()
    sh = list(x._shape)
    lo = {}
    for k, d in enumerate(dims):
        lo[d] = pads[2 * k]
        if mode == "reflect":
            for q in pads[2 * k: 2 * k + 2]:
                if e.decide(tint(q) >= tint(x._shape[d])):
                    raise RuntimeError("Argument #4: Padding size should be less than the corresponding input dimension")
        sh[d] = pads[2 * k] + x._shape[d] + pads[2 * k + 1]
    g = x.getter()
    if mode == "constant":
        v = T.cast(0 if value is None else value, x.dtype)

        def fn(idx):
            c = []
            src = list(idx)
            for d in dims:
                j = ival(idx[d]) - lo[d]
                c += [core.tbool(cmp(j, 0, ">=")), core.tbool(cmp(j, x._shape[d], "<"))]
                src[d] = j
            return ite(core.swrap(z3.And(*c)), g(tuple(src)), v)
    else:
        def fn(idx):
            src = list(idx)
            for d in dims:
                j = ival(idx[d]) - lo[d]
                L = x._shape[d]
                if mode == "reflect":
                    j = ite(cmp(j, 0, "<"), -j, ite(cmp(j, L, ">="), 2 * L - 2 - j, j))
                elif mode == "replicate":
                    j = ite(cmp(j, 0, "<"), 0, ite(cmp(j, L, ">="), L - 1, j))
                elif mode == "circular":
                    j = ite(cmp(j, 0, "<"), j + L, ite(cmp(j, L, ">="), j - L, j))
                else:
                    raise NotImplementedError(mode)
                src[d] = j
            return g(tuple(src))
    return x.new(sh, x.dtype, fn, fac=[x.fac[d] if d not in dims else None for d in range(x.ndim)])


F.pad = pad


class _RefPad(Module):
    def __init__(self, padding):
        self.padding = tuple(padding) if isinstance(padding, (tuple, list)) else (padding,) * 4

    def forward(self, x):
        if x.ndim not in (3, 4):
            raise RuntimeError("Expected 3D or 4D tensor")
        return pad(x, self.padding, mode=self.mode)


nn.ReflectionPad2d = type("ReflectionPad2d", (_RefPad,), {"mode": "reflect"})
nn.ReplicationPad2d = type("ReplicationPad2d", (_RefPad,), {"mode": "replicate"})
nn.ZeroPad2d = type("ZeroPad2d", (_RefPad,), {"mode": "constant"})
nn.CircularPad2d = type("CircularPad2d", (_RefPad,), {"mode": "circular"})


class Conv2d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        e = eng()
        k = _pair(kernel_size)
        n = e.obj_counter if e is not None else 0
        self.in_channels, self.out_channels, self.kernel_size = in_channels, out_channels, k
        self.stride, self.padding, self.dilation, self.groups = _pair(stride), padding, _pair(dilation), groups
        sh = (out_channels, in_channels // groups) + k
        f = z3.Function(f"convw!{n}", *([z3.IntSort()] * 4), z3.RealSort())
        self.weight = SymTensor.from_fn(sh, FLOAT32, lambda idx: T.apply_fn(f, idx, FLOAT64))
        self.weight.is_param = True
        self.bias = None
        if bias:
            h = z3.Function(f"convb!{n}", z3.IntSort(), z3.RealSort())
            self.bias = SymTensor.from_fn((out_channels,), FLOAT32, lambda idx: T.apply_fn(h, idx, FLOAT64))

    def forward(self, x):
        return conv2d(x, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


nn.Conv2d = Conv2d


def pixel_unshuffle(x, r):
    c, h, w = x._shape[-3:]
    lead = x._shape[:-3]
    g = x.getter()
    L = len(lead)
    e = eng()
    if not e.decide(tint(h) % r == 0) or not e.decide(tint(w) % r == 0):
        raise RuntimeError("pixel_unshuffle expects height and width to be divisible by downscale_factor")

    def fn(idx):
        k = ival(idx[L])
        return g(idx[:L] + (core.floordiv(k, r * r), ival(idx[L + 1]) * r + core.mod(core.floordiv(k, r), r), ival(idx[L + 2]) * r + core.mod(k, r)))
    return x.new(lead + (c * r * r, core.floordiv(h, r), core.floordiv(w, r)), x.dtype, fn)


F.pixel_unshuffle = pixel_unshuffle


def _loss(f):
    def g(a, b, reduction="mean"):
        d = f(a - b)
        return d.mean() if reduction == "mean" else d.sum() if reduction == "sum" else d
    return g


F.mse_loss = _loss(lambda d: d * d)
F.l1_loss = _loss(lambda d: abs(d))


class L1Loss(Module):
    def __init__(self, reduction="mean"):
        self.reduction = reduction

    def forward(self, a, b):
        return F.l1_loss(a, b, self.reduction)


nn.L1Loss = L1Loss
F.relu = lambda x: x.clamp(min=0)
