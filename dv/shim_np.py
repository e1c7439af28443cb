"""numpy, for symbolic values: object arrays when the shape is concrete, SymTensor(lib='np') otherwise"""
import types
import numpy as _np
import z3
from fractions import Fraction
from . import core, seq
from .core import Sym, SymInt, SymReal, SymBool, Unsupported, is_num, tint, treal, eng
from . import tensor as T
from .tensor import SymTensor, as_dtype, FLOAT64, INT64


class _Np(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"numpy.{name}")


np = _Np("numpy")
for _n in ("number", "bool_", "integer", "floating", "int64", "int32", "float32", "float64", "uint8", "inf", "pi", "newaxis", "generic", "dtype"):
    setattr(np, _n, getattr(_np, _n))


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.ndarray) or (isinstance(x, SymTensor) and x.lib == "np")


class ndarray(metaclass=_NdMeta):
    pass


np.ndarray = ndarray


class NdArray(_np.ndarray):
    """object array of integers whose quotients stay exact"""

    def __truediv__(self, o):
        return _ratio(self, o)

    def __rtruediv__(self, o):
        return _ratio(o, self)


def _ratio(a, b):
    if isinstance(a, SymTensor) or isinstance(b, SymTensor):
        return NotImplemented
    a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    out = _np.empty(a.shape, dtype=object)
    for i, v in _np.ndenumerate(a):
        out[i] = core.elem_div(v, b[i])
    return out


def _obj(data):
    """object ndarray of a nested list (elements: numbers / Sym)"""
    def shape(d):
        if isinstance(d, (list, tuple)) and not (isinstance(d, seq.SymList) and d.sym):
            if len(d) == 0:
                return (0,)
            return (len(d),) + shape(d[0])
        if isinstance(d, _np.ndarray):
            return d.shape
        return ()
    sh = shape(data)
    a = _np.empty(sh, dtype=object)

    def fill(d, pre):
        if len(pre) == len(sh):
            a[pre] = d
            return
        for i, x in enumerate(d):
            fill(x, pre + (i,))
    fill(data, ())
    return a


def _has(d, pred):
    if isinstance(d, (list, tuple)):
        return any(_has(x, pred) for x in d)
    if isinstance(d, _np.ndarray):
        return any(pred(x) for x in d.flat)
    return pred(d)


def exact(a):
    """float arrays -> object arrays of Fractions"""
    if isinstance(a, _np.ndarray) and a.dtype.kind == "f":
        out = _np.empty(a.shape, dtype=object)
        for i, v in _np.ndenumerate(a):
            out[i] = core.frac(v)
        return out
    return a


def array(data, dtype=None, copy=True):
    if isinstance(data, SymTensor):
        t = data.clone() if data.lib == "np" else data.detach().clone()
        t.lib = "np"
        return t if dtype is None else t.astype(dtype)
    if isinstance(data, seq.SymList) and data.sym:
        return T.as_tensor(data, None if dtype is None else as_dtype(dtype), lib="np")
    if isinstance(data, (Sym,)):
        a = _np.empty((), dtype=object)
        a[()] = data
        return a
    if _has(data, lambda x: isinstance(x, SymTensor)):
        raise Unsupported("numpy array of tensors")
    if isinstance(data, _np.ndarray):
        data = data.tolist()
    isf = _has(data, lambda x: isinstance(x, (float, Fraction, SymReal)))
    if _has(data, lambda x: isinstance(x, str) or not (is_num(x) or isinstance(x, Sym))):
        return _np.array(data, dtype=object)
    if _has(data, lambda x: isinstance(x, Sym)) or isf or dtype is object:
        a = _obj(data)
        if isf or (dtype is not None and as_dtype(dtype) is FLOAT64):
            for i, v in _np.ndenumerate(a):
                a[i] = T.cast(v, FLOAT64)
        if dtype is not None and as_dtype(dtype) is INT64:
            for i, v in _np.ndenumerate(a):
                a[i] = T.cast(v, INT64)
        return a
    if dtype is not None and as_dtype(dtype) is FLOAT64:
        a = _obj(data)
        for i, v in _np.ndenumerate(a):
            a[i] = core.frac(v)
        return a
    return _obj(data).view(NdArray)


def _shape(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(sh)
    return (sh,)


def _full(sh, v, dtype):
    sh = _shape(sh)
    dt = FLOAT64 if dtype is None else as_dtype(dtype)
    v = T.cast(v, dt) if dt is not object else v
    if any(isinstance(s, Sym) for s in sh):
        try:
            sh = tuple(s if is_num(s) else eng().unique_int(tint(s)) for s in sh)
        except Unsupported:
            return SymTensor.from_fn(sh, dt, lambda idx: v, lib="np")
    a = _np.empty(tuple(int(s) for s in sh), dtype=object)
    a.fill(v)
    return a


np.array = array
np.asarray = array
np.zeros = lambda sh, dtype=None: _full(sh, 0, dtype)
np.ones = lambda sh, dtype=None: _full(sh, 1, dtype)
np.full = lambda sh, v, dtype=None: _full(sh, v, dtype or (FLOAT64 if core.realish(v) else INT64))
np.zeros_like = lambda a: _full(a.shape, 0, None)
np.ones_like = lambda a: _full(a.shape, 1, None)


def empty(sh, dtype=None):
    if dtype is object:
        return _np.empty(tuple(int(s) for s in _shape(sh)), dtype=object)
    sh = _shape(sh)
    if all(is_num(s) for s in sh):
        a = _np.empty(tuple(int(s) for s in sh), dtype=object)
        for i in _np.ndindex(a.shape):
            a[i] = SymReal(eng().fresh("uninit", z3.RealSort()))
        return a
    f = eng().fresh_fn("uninit", len(sh), z3.RealSort())
    return SymTensor.from_fn(sh, FLOAT64, lambda idx: T.apply_fn(f, idx, FLOAT64), lib="np")


np.empty = empty


def arange(*a, dtype=None):
    from .loader import range_, SymRange
    if any(core.realish(x) for x in a):
        raise Unsupported("np.arange of floats")
    r = range_(*a)
    if isinstance(r, SymRange):
        n = r.__symlen__()
        try:
            k = n if is_num(n) else eng().unique_int(tint(n))
            return _obj([r.at(i) for i in range(int(k))])
        except Unsupported:
            return SymTensor.from_fn((n,), INT64, lambda idx: r.at(T.ival(idx[0])), lib="np")
    return _obj(list(r))


np.arange = arange


def _map(name, f):
    def g(x):
        if isinstance(x, SymTensor):
            return x._un(f, dt=FLOAT64)
        if isinstance(x, _np.ndarray):
            out = _np.empty(x.shape, dtype=object)
            for i, v in _np.ndenumerate(x):
                out[i] = f(v)
            return out
        if hasattr(x, "__dv_item__"):
            x = x.__dv_item__()
        return f(x)
    setattr(np, name, g)


_map("exp", lambda v: core.unary("exp", v))
_map("log10", lambda v: core.unary("log10", v))
_map("log", lambda v: core.unary("log", v))
_map("log2", lambda v: core.unary("log2", v))
_map("sqrt", core.sqrt)
_map("square", lambda v: v * v)
_map("abs", lambda v: T.elem_abs(v))
np.absolute = np.abs
_map("floor", lambda v: T.elem_floor(T.cast(v, FLOAT64)))
_map("ceil", lambda v: -T.elem_floor(-T.cast(v, FLOAT64)))


def prod(a, dtype=None, axis=None):
    if isinstance(a, _np.ndarray):
        a = list(a.flat)
    if isinstance(a, SymTensor):
        return a.prod()
    a = list(a)
    if not a:
        return Fraction(1) if dtype is None else T.cast(1, as_dtype(dtype))
    r = a[0]
    for x in a[1:]:
        r = r * x
    return r


np.prod = prod


def sum_(a, axis=None):
    if isinstance(a, SymTensor):
        return a.sum(dim=axis)
    return array(a).sum(axis=axis)


np.sum = sum_
np.cumsum = lambda a: _np.cumsum(array(a))
np.cumprod = lambda a: _np.cumprod(array(a))
np.argsort = lambda a: _obj([i for i, _ in sorted(enumerate(int(x) for x in a), key=lambda p: p[1])])
np.diag = lambda a, k=0: _diag(a, k)


def _diag(a, k):
    a = a if isinstance(a, _np.ndarray) else _obj(list(a))
    if a.ndim != 1:
        return _np.diag(a, k)
    n = len(a) + abs(k)
    out = _np.empty((n, n), dtype=object)
    out.fill(0)
    for i in range(len(a)):
        out[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
    return out


def issubdtype(a, b):
    if isinstance(a, T.DType):
        if b is _np.number:
            return a.kind > 0
        if b is _np.bool_:
            return a.kind == 0
        raise Unsupported("issubdtype")
    return _np.issubdtype(a, b)


np.issubdtype = issubdtype


def stack(xs, axis=0):
    if any(isinstance(x, SymTensor) for x in xs):
        from .shim_torch import torch
        t = torch.stack(list(xs), dim=axis)
        t.lib = "np"
        return t
    return _np.stack([x for x in xs], axis=axis)


np.stack = stack
np.concatenate = lambda xs, axis=0: _np.concatenate(list(xs), axis=axis)
np.transpose = lambda a, *k: _np.transpose(a, *k)
np.outer = lambda a, b: _np.outer(a, b)
np.flip = lambda a, axis=None: a[::-1] if axis is None else _np.flip(a, axis)
np.dot = lambda a, b: a.dot(b)


def broadcast_to(a, shape, subok=False):
    if isinstance(a, SymTensor):
        return a.broadcast_to(shape)
    return _np.broadcast_to(a, tuple(shape))


np.broadcast_to = broadcast_to
np.isscalar = lambda x: is_num(x) or isinstance(x, Sym)
np.ndim = lambda x: x.ndim if hasattr(x, "ndim") else _np.ndim(x)
np.all = lambda x, **k: x.all() if hasattr(x, "all") else all(x)
np.any = lambda x, **k: x.any() if hasattr(x, "any") else any(x)
np.array_equal = lambda a, b: bool((array(a) == array(b)).all()) if array(a).shape == array(b).shape else False
np.maximum = lambda a, b: T.where(a >= b, a, b) if isinstance(a, SymTensor) else (core.smax(a, b) if not isinstance(a, _np.ndarray) else _vec2(core.smax, a, b))
np.minimum = lambda a, b: T.where(a <= b, a, b) if isinstance(a, SymTensor) else (core.smin(a, b) if not isinstance(a, _np.ndarray) else _vec2(core.smin, a, b))


def _vec2(f, a, b):
    a, b = _np.broadcast_arrays(array(a), array(b))
    out = _np.empty(a.shape, dtype=object)
    for i, v in _np.ndenumerate(a):
        out[i] = f(v, b[i])
    return out
