"""Symbolic n-d tensors: a storage (element function) plus a view map, of concrete rank and symbolic sizes."""
import itertools, weakref
import numpy as _np
import z3
from . import core, seq
from .core import (Sym, SymInt, SymReal, SymBool, Unsupported, eng, is_num, tint, treal, tbool, ite, cmp, frac, wrap, swrap)
from fractions import Fraction


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name, kind, order):
        self.name, self.kind, self.order = name, kind, order

    def __repr__(self):
        return f"torch.{self.name}"

    @property
    def is_floating_point(self):
        return self.kind == 2

    @property
    def is_complex(self):
        return False


BOOL = DType("bool", 0, 0)
UINT8 = DType("uint8", 1, 1)
INT8 = DType("int8", 1, 2)
INT16 = DType("int16", 1, 3)
INT32 = DType("int32", 1, 4)
INT64 = DType("int64", 1, 5)
FLOAT16 = DType("float16", 2, 6)
BFLOAT16 = DType("bfloat16", 2, 6.5)
FLOAT32 = DType("float32", 2, 7)
FLOAT64 = DType("float64", 2, 8)
DEFAULT = FLOAT32


def as_dtype(d):
    from .loader import int_, float_, bool_
    if isinstance(d, DType) or d is None:
        return d
    if d is int_ or d is int or d is _np.int64:
        return INT64
    if d is float_ or d is float or d is _np.float64:
        return FLOAT64
    if d is bool_ or d is bool or d is _np.bool_:
        return BOOL
    if d is object:
        return d
    k = _np.dtype(d)
    return {"f": FLOAT64, "i": INT64, "u": UINT8, "b": BOOL}.get(k.kind) or unsup(f"dtype {d}")


def unsup(msg):
    raise Unsupported(msg)


def promote(a, b):
    return a if a.order >= b.order else b


def scalar_kind(v):
    if isinstance(v, (bool, SymBool, _np.bool_)):
        return 0
    if isinstance(v, (int, SymInt, _np.integer)):
        return 1
    return 2


def result_dtype(*xs):
    """torch promotion: dimensioned tensors, then 0-d tensors, then python numbers - a higher category wins"""
    dims = [x.dtype for x in xs if isinstance(x, SymTensor) and x.ndim > 0]
    zero = [x.dtype for x in xs if isinstance(x, SymTensor) and x.ndim == 0]
    nums = [scalar_kind(x) for x in xs if not isinstance(x, SymTensor)]
    d = None
    for t in dims:
        d = t if d is None else promote(d, t)
    z = None
    for t in zero:
        z = t if z is None else promote(z, t)
    if d is None:
        d = z
    elif z is not None and z.kind > d.kind:
        d = z
    for k in nums:
        t = {0: BOOL, 1: INT64, 2: DEFAULT}[k]
        if d is None or k > d.kind:
            d = t
    return d


def cast(v, dt):
    """element v to dtype dt"""
    if dt is object or dt is None:
        return v
    if dt.kind == 2:
        if isinstance(v, SymReal) or isinstance(v, Fraction):
            return v
        if isinstance(v, Sym):
            return SymReal(treal(v))
        return frac(v)
    if dt.kind == 1:
        if isinstance(v, SymInt) or (isinstance(v, int) and not isinstance(v, bool)):
            return v
        if isinstance(v, SymReal):
            # trunc without path facts is not needed on the float path; keep it exact
            return core.trunc_real(v)
        if isinstance(v, SymBool):
            return v._i()
        return int(frac(v))
    if isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, Sym):
        return swrap(v.t != 0)
    return bool(v)


class Size(tuple):
    def numel(self):
        return prod(self)

    def __getitem__(self, k):
        r = tuple.__getitem__(self, int(k) if isinstance(k, _np.integer) else k)
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


# ---------------------------------------------------------------- indices
class FlatIdx:
    """a row-major index into a group of merged dimensions, kept unmerged"""
    __slots__ = ("parts", "sizes")

    def __init__(self, parts, sizes):
        self.parts, self.sizes = tuple(parts), tuple(sizes)

    def value(self):
        r = 0
        for p, s in zip(self.parts, self.sizes):
            r = r * s + ival(p)
        return r


def ival(i):
    return i.value() if isinstance(i, FlatIdx) else i


def ikey(i, keep):
    if isinstance(i, FlatIdx):
        return ("f",) + tuple(ikey(p, keep) for p in i.parts) + tuple(ikey(s, keep) for s in i.sizes)
    if isinstance(i, Sym):
        keep.append(i.t)
        return ("s", i.t.get_id())
    return int(i)


def same_size(a, b):
    if is_num(a) and is_num(b):
        return int(a) == int(b)
    return eng().known(tint(a) == tint(b)) is True


def unflat(i, sizes):
    """index parts of i in a group of the given sizes"""
    if len(sizes) == 1:
        return (i,)
    if isinstance(i, FlatIdx) and len(i.sizes) == len(sizes) and all(same_size(a, b) for a, b in zip(i.sizes[1:], sizes[1:])):
        return i.parts
    if isinstance(i, FlatIdx):
        # regroup when possible: drop/insert unit sizes
        ps = [(p, s) for p, s in zip(i.parts, i.sizes) if not (is_num(s) and s == 1)]
        ns = [k for k, s in enumerate(sizes) if not (is_num(s) and s == 1)]
        if len(ps) == len(ns) and all(same_size(ps[k][1], sizes[ns[k]]) for k in range(1, len(ps))):
            out = [0] * len(sizes)
            for (p, s), k in zip(ps, ns):
                out[k] = p
            return tuple(out)
        i = i.value()
    out = []
    rest = i
    inner = prod(sizes[1:])
    for k in range(len(sizes) - 1):
        if is_num(inner) and int(inner) == 1:
            out.append(rest)
            rest = 0
        elif is_num(rest) and is_num(inner):
            out.append(int(rest) // int(inner))
            rest = int(rest) % int(inner)
        elif is_num(inner):
            t = tint(rest)
            out.append(swrap(t / z3.IntVal(int(inner))))
            rest = swrap(t % z3.IntVal(int(inner)))
        else:
            if eng().free(tint(rest)):
                raise Unsupported("splitting a bound index by a symbolic size")
            q = eng().floordiv(tint(rest), tint(inner))
            out.append(wrap(q))
            rest = rest - wrap(q) * inner
        inner = prod(sizes[k + 2:])
    out.append(rest)
    return tuple(out)


# ---------------------------------------------------------------- storage
class Storage:
    kind = "storage"

    def __init__(self, shape, dtype, fn, label=None):
        e = eng()
        self.oid = e.obj_counter
        e.obj_counter += 1
        e.objs[self.oid] = weakref.ref(self)
        self.shape, self.dtype, self.label = tuple(shape), dtype, label
        self.set(fn)
        self.original = self._get
        self.writes = 0
        if label not in (None, "uninit") and e.frame_inputs is not None:
            e.frame_inputs.append(self)

    def set(self, fn):
        cache, keep = {}, []

        def get(idx):
            k = tuple(ikey(i, keep) for i in idx)
            r = cache.get(k)
            if r is None:
                r = fn(idx)
                cache[k] = r
            return r
        self._get = get

    def current(self):
        return self._get

    def write(self, cond_view, value):
        """cond_view(base idx) -> (list of conditions, view idx); value(view idx) -> element"""
        e = eng()
        e.note_write(self)
        self.writes += 1
        old = self._get
        dt = self.dtype
        if e.nograd:
            value = (lambda v, value=value: detached(value(v)))

        def fn(idx):
            conds, v = cond_view(idx)
            c = z3.simplify(z3.And(*[tbool(x) for x in conds])) if conds else z3.BoolVal(True)
            if z3.is_true(c):
                return cast(value(v), dt)
            if z3.is_false(c):
                return old(idx)
            kn = e.known_cached(c)
            if kn is True:
                return cast(value(v), dt)
            if kn is False:
                return old(idx)
            return ite(SymBool(c), cast(value(v), dt), old(idx))
        self.set(fn)

    def havoc(self, name):
        f = eng().fresh_fn(name, len(self.shape), sort_of(self.dtype))
        self.decl = f
        self.set(lambda idx: apply_fn(f, idx, self.dtype))


def sort_of(dt):
    return {2: z3.RealSort(), 1: z3.IntSort(), 0: z3.BoolSort()}[dt.kind]


def apply_fn(f, idx, dt):
    if not idx:
        t = f if not isinstance(f, z3.FuncDeclRef) else f()
    else:
        t = f(*[tint(ival(i)) for i in idx])
    return {2: SymReal, 1: SymInt, 0: SymBool}[dt.kind](t)


# ---------------------------------------------------------------- tensors
class Device:
    def __init__(self, name="cpu"):
        self.type = name
        self.index = None

    def __repr__(self):
        return f"device({self.type})"


CPU = Device()


class SymTensor:
    __array_ufunc__ = None
    __array_priority__ = 10000
    is_cuda = False
    __hash__ = object.__hash__

    def __init__(self, storage, shape, vmap=None, vinv="id", fac=None, lib="torch", contig=True, dtype=None):
        self.storage = storage
        self._shape = tuple(int(s) if isinstance(s, (_np.integer,)) else s for s in shape)
        self.vmap, self.vinv = vmap, vinv
        self.fac = tuple(fac) if fac is not None else (None,) * len(self._shape)
        self.lib = lib
        self.contig = contig
        self.strided = False
        self.anylayout = False      # an input of the caller's: any strides
        self.dtype = dtype or storage.dtype
        self.device = CPU
        self.requires_grad = False
        self.is_view = vmap is not None

    # ---- construction helpers
    @classmethod
    def from_fn(cls, shape, dtype, fn, lib="torch", fac=None, label=None):
        e = eng()
        if e.nograd and lib == "torch":
            fn = (lambda idx, fn=fn: detached(fn(idx)))
        return cls(Storage(shape, dtype, fn, label), shape, lib=lib, fac=fac)

    @classmethod
    def input(cls, name, shape, dtype=FLOAT64):
        e = eng()
        n = len(shape)
        e.new_input((name, n, str(sort_of(dtype))), False)
        f = z3.Function(name, *([z3.IntSort()] * n), sort_of(dtype)) if n else z3.Const(name, sort_of(dtype))
        t = cls.from_fn(shape, dtype, lambda idx: apply_fn(f, idx, dtype), label=name)
        t.decl = f
        t.requires_grad = True
        if n > 1:
            t.contig, t.anylayout = False, True
        e.images.add(name)
        return t

    # ---- basics
    @property
    def shape(self):
        return Size(self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    def size(self, d=None):
        return self.shape if d is None else self._shape[d]

    def numel(self):
        return prod(self._shape)

    nelement = numel

    def __symlen__(self):
        if not self._shape:
            raise TypeError("len() of a 0-d tensor")
        return self._shape[0]

    def __len__(self):
        n = self.__symlen__()
        return n if is_num(n) else eng().unique_int(tint(n))

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic tensor to a numpy array")

    def is_contiguous(self, memory_format=None):
        # a view whose layout is not known here may be contiguous (a moved or cut axis of size 1, a leading slice): both are explored
        if not self.contig and not self.strided:
            if eng().choose(2) == 0:
                self.contig = True
            else:
                self.strided = True
        return self.contig

    def is_floating_point(self):
        return self.dtype.kind == 2

    def __repr__(self):
        return f"SymTensor(shape={self._shape}, dtype={self.dtype})"

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.clone()

    def getter(self):
        """element function of the present contents"""
        g, vm = self.storage._get, self.vmap
        if vm is None:
            return g
        return lambda idx: g(vm(idx))

    def at(self, *idx):
        return self.getter()(idx)

    def decl_ok(self):
        return True

    def new(self, shape, dtype, fn, fac=None, contig=True):
        t = SymTensor.from_fn(shape, dtype, fn, lib=self.lib, fac=fac)
        t.contig = contig
        return t

    def havoc_copy(self, name):
        f = eng().fresh_fn(name, self.ndim, sort_of(self.dtype))
        dt = self.dtype
        t = self.new(self._shape, dt, lambda idx: apply_fn(f, idx, dt), fac=self.fac)
        t.storage.decl = f
        return t

    def view_of(self, shape, f, inv, fac=None, contig=False):
        """a view: f maps view idx -> idx of self; inv maps idx of self -> (conds, view idx) or None"""
        vm0 = self.vmap
        vmap = f if vm0 is None else (lambda idx: vm0(f(idx)))
        vi0 = self.vinv
        if inv is None or vi0 is None:
            vinv = None
        elif vi0 == "id":
            vinv = inv
        else:
            def vinv(b):
                c0, i0 = vi0(b)
                c1, i1 = inv(i0)
                return c0 + c1, i1
        t = SymTensor(self.storage, shape, vmap, vinv, fac=fac, lib=self.lib, contig=contig, dtype=self.dtype)
        return t

    # ---- element extraction
    def item(self):
        if self.ndim and not all(same_size(s, 1) for s in self._shape):
            raise RuntimeError("a Tensor with several elements cannot be converted to Scalar")
        v = self.at(*([0] * self.ndim))
        return detached(v) if self.lib == "torch" else v

    __dv_item__ = item

    def __bool__(self):
        v = self.at(*([0] * self.ndim)) if all(same_size(s, 1) for s in self._shape) else None
        if v is None:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return eng().decide(tbool(v))

    def __float__(self):
        v = self.item()
        return float(v)

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        g = self.getter()
        if self.ndim == 1:
            d = detached if self.lib == "torch" else (lambda v: v)
            return seq.SymList.make(self._shape[0], lambda i: d(g((wrap(i) if isinstance(i, z3.ExprRef) else i,))))
        n = self._shape[0]
        n = int(n) if is_num(n) else eng().unique_int(tint(n))
        return seq.SymList([self[i].tolist() for i in range(n)])

    def numpy(self):
        t = self.detach()
        t.lib = "np"
        return t

    def __iter__(self):
        n = self.__symlen__()
        n = int(n) if is_num(n) else eng().unique_int(tint(n))
        return iter([self[i] for i in range(n)])

    # ---- copies
    def clone(self, memory_format=None):
        g = self.getter()
        return self.new(self._shape, self.dtype, g, fac=self.fac)

    copy = clone

    def contiguous(self, memory_format=None):
        if self.is_contiguous():
            return self
        return self.clone()

    def detach(self):
        e = eng()
        if e.hooks.get("grad"):
            g = self.getter()
            t = self.new(self._shape, self.dtype, lambda idx: detached(g(idx)), fac=self.fac)
            return t
        t = SymTensor(self.storage, self._shape, self.vmap, self.vinv, self.fac, self.lib, self.contig, self.dtype)
        t.anylayout, t.strided = self.anylayout, self.strided
        return t

    @property
    def data(self):
        return self.detach()

    def detach_(self):
        if eng().hooks.get("grad"):
            old = self.storage._get
            self.storage.set(lambda idx: detached(old(idx)))
        return self

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def to(self, *args, dtype=None, device=None, copy=False, non_blocking=False):
        for a in args:
            if isinstance(a, SymTensor):
                dtype = a.dtype
            elif isinstance(a, DType):
                dtype = a
        return self.astype_(dtype, copy)

    def astype_(self, dtype, copy=False):
        if dtype is None or dtype is self.dtype:
            return self.clone() if copy else self
        g = self.getter()
        return self.new(self._shape, dtype, lambda idx: cast(g(idx), dtype), fac=self.fac)

    def astype(self, dtype):
        return self.astype_(as_dtype(dtype), True)

    def type_as(self, o):
        return self.astype_(o.dtype)

    def float(self):
        return self.astype_(FLOAT32)

    def double(self):
        return self.astype_(FLOAT64)

    def long(self):
        return self.astype_(INT64)

    def int(self):
        return self.astype_(INT32)

    def bool(self):
        return self.astype_(BOOL)

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    # ---- views
    def _axis(self, d):
        if isinstance(d, SymInt):
            d = eng().unique_int(d.t)
        d = int(d)
        n = max(self.ndim, 1)
        if not -n <= d < n:
            raise IndexError(f"Dimension out of range (expected to be in range of [{-n}, {n - 1}], but got {d})")
        return d % n

    def __getitem__(self, key):
        r = self._index(key)
        return r

    def _expand_key(self, key):
        key = list(key) if isinstance(key, (tuple, list)) and not (isinstance(key, list) and not self._is_slices(key)) else [key]
        n_used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, SymTensor) and k.dtype is BOOL:
                n_used += k.ndim
            else:
                n_used += 1
        if n_used > self.ndim:
            raise IndexError(f"too many indices for tensor of dimension {self.ndim}")
        if not any(k is Ellipsis for k in key):
            key.append(Ellipsis)
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        if sum(1 for k in key if k is Ellipsis) > 1:
            raise IndexError("an index can only have a single ellipsis")
        key[i:i + 1] = [slice(None)] * (self.ndim - n_used)
        return key

    @staticmethod
    def _is_slices(key):
        return any(isinstance(k, (slice, type(None), type(Ellipsis))) for k in key)

    def _index(self, key):
        if isinstance(key, SymTensor) and key.dtype is BOOL:
            return MaskedSelect(self, key)
        if isinstance(key, _np.ndarray):
            key = key.tolist()
        if isinstance(key, (list,)) and not self._is_slices(key):
            return self._gather_list(0, key)
        if isinstance(key, seq.SymList):
            key = list(key)
        key = self._expand_key(key)
        shape, fac, spec = [], [], []   # spec per source dim
        d = 0
        lists = []
        for k in key:
            if k is None:
                shape.append(1)
                fac.append(None)
                spec.append(("new",))
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and (k.step is None or (is_num(k.step) and k.step == 1)):
                    spec.append(("all", d))
                    shape.append(n)
                    fac.append(self.fac[d])
                else:
                    k = slice(*[conv_int(v) for v in (k.start, k.stop, k.step)])
                    st = k.step
                    if self.lib == "torch" and st is not None and is_num(st) and st < 0:
                        raise ValueError("step must be greater than zero")
                    start, stop, step, cnt = seq.slice_norm(k, n)
                    if is_num(start) and start == 0 and is_num(step) and step == 1 and same_size(cnt, n):
                        spec.append(("all", d))
                        shape.append(n)
                        fac.append(self.fac[d])
                    else:
                        spec.append(("sl", d, start, step, cnt))
                        shape.append(cnt)
                        fac.append(None)
            elif isinstance(k, (list, tuple)) or (isinstance(k, SymTensor) and k.ndim == 1 and k.dtype.kind == 1):
                lists.append((len(spec), d, k))
                spec.append(("all", d))
                shape.append(n)
                fac.append(self.fac[d])
            elif isinstance(k, SymTensor) and k.dtype is BOOL:
                raise Unsupported("boolean mask inside a multi-dimensional index")
            elif isinstance(k, (int, SymInt, _np.integer)) or (isinstance(k, SymTensor) and k.ndim == 0):
                i = conv_int(k)
                e = eng()
                oob = z3.Or(tint(i) >= tint(n), tint(i) < -tint(n))
                if e.decide(oob):
                    raise IndexError(f"index {k} is out of bounds for dimension {d} with size {n}")
                if e.decide(tint(i) < 0):
                    i = i + n
                spec.append(("pt", d, i))
            else:
                raise IndexError(f"unsupported index {type(k).__name__}") if isinstance(k, (str, float)) else Unsupported(f"index of type {type(k).__name__}")
            d += 1
        nd = self.ndim

        def f(idx):
            out = [None] * nd
            it = iter(idx)
            for s in spec:
                if s[0] == "new":
                    next(it)
                elif s[0] == "all":
                    out[s[1]] = next(it)
                elif s[0] == "sl":
                    i = ival(next(it))
                    out[s[1]] = i * s[3] + s[2] if not (is_num(s[3]) and s[3] == 1) else i + s[2]
                else:
                    out[s[1]] = s[2]
            return tuple(out)

        def inv(b):
            conds, out = [], []
            for s in spec:
                if s[0] == "new":
                    out.append(0)
                elif s[0] == "all":
                    out.append(b[s[1]])
                elif s[0] == "sl":
                    _, d, start, step, cnt = s
                    o = ival(b[d]) - start
                    if is_num(step) and step == 1:
                        i = o
                    elif is_num(step) and step > 0:
                        conds.append(cmp(core.mod(o, int(step)), 0, "=="))
                        i = core.floordiv(o, int(step))
                    elif is_num(step) and step == -1:
                        i = -o
                    else:
                        raise Unsupported("write through a symbolic step")
                    conds.append(cmp(i, 0, ">="))
                    conds.append(cmp(i, cnt, "<"))
                    out.append(i)
                else:
                    conds.append(cmp(ival(b[s[1]]), s[2], "=="))
            return conds, tuple(out)
        r = self.view_of(shape, f, inv, fac=fac)
        if self.contig and all(s[0] in ("all", "new") for s in spec):
            r.contig = True
        for pos, d, k in lists:
            dd = sum(1 for s in spec[:pos] if s[0] != "pt")
            if len(lists) > 1:
                raise Unsupported("several index lists")
            r = r._gather_list(dd, k)
        return r

    def _gather_list(self, d, k):
        """advanced indexing with a list of ints along one dim: a copy for reads, but usable as a write target for
        single-element lists"""
        ks = k if isinstance(k, SymTensor) else list(k)
        n = self._shape[d]
        if isinstance(ks, SymTensor):
            gk = ks.getter()
            m = ks._shape[0]
            g = self.getter()
            sh = self._shape[:d] + (m,) + self._shape[d + 1:]
            return self.new(sh, self.dtype, lambda idx: g(idx[:d] + (ite_neg(gk((ival(idx[d]),)), n),) + idx[d + 1:]))
        if any(isinstance(q, (bool, SymBool)) for q in ks):
            raise Unsupported("boolean index list")
        vals = []
        for q in ks:
            q = conv_int(q)
            e = eng()
            if e.decide(z3.Or(tint(q) >= tint(n), tint(q) < -tint(n))):
                raise IndexError("index out of range")
            if e.decide(tint(q) < 0):
                q = q + n
            vals.append(q)
        if len(vals) == 1:
            v = vals[0]
            sh = self._shape[:d] + (1,) + self._shape[d + 1:]
            fac = self.fac[:d] + (None,) + self.fac[d + 1:]
            r = self.view_of(sh, lambda idx: idx[:d] + (v,) + idx[d + 1:],
                             lambda b: ([cmp(ival(b[d]), v, "==")], b[:d] + (0,) + b[d + 1:]), fac=fac)
            r.gathered = True
            return r
        lst = seq.SymList(vals)
        g = self.getter()
        sh = self._shape[:d] + (len(vals),) + self._shape[d + 1:]
        return self.new(sh, self.dtype, lambda idx: g(idx[:d] + (lst.at(ival(idx[d])),) + idx[d + 1:]))

    def __setitem__(self, key, value):
        if isinstance(key, SymTensor) and key.dtype is BOOL:
            return self._mask_set(key, value)
        v = self._index(key)
        if isinstance(v, MaskedSelect):
            raise Unsupported("masked assignment")
        if v.storage is not self.storage:
            raise Unsupported("assignment through a gathered index")
        v._assign(value)

    def _assign(self, value):
        if isinstance(value, _np.ndarray) or isinstance(value, (list, tuple)):
            value = as_tensor(value)
        if isinstance(value, MaskedSelect):
            raise Unsupported("assignment from a masked selection")
        if isinstance(value, SymTensor):
            # leading unit dims of the value may be dropped
            b = value
            while b.ndim > self.ndim:
                if not size_is(b._shape[0], 1):
                    raise RuntimeError("expand: shape mismatch in assignment")
                b = b[0]
            sh = broadcast_shape(self._shape, b._shape)
            if len(sh) != self.ndim or not all(size_eq(x, y) for x, y in zip(sh, self._shape)):
                raise RuntimeError(f"The expanded size of the tensor {self._shape} must match the existing size {b._shape}")
            g = broadcast_getter(b, self._shape)
        else:
            g = lambda idx: value
        vinv = self.vinv
        if vinv is None:
            raise Unsupported("write through a non-invertible view")
        if vinv == "id":
            self.storage.write(lambda idx: ([], idx), g)
        else:
            self.storage.write(vinv, g)

    def _mask_set(self, mask, value):
        if isinstance(value, SymTensor) and value.ndim == 0:
            gv = value.getter()
            val = lambda idx: gv(())
        elif isinstance(value, MaskedSelect):
            if value.mask is not mask and value.mask.storage is not mask.storage:
                raise Unsupported("masked assignment with a different mask")
            val = value.fn
        elif isinstance(value, SymTensor):
            raise Unsupported("masked assignment from a tensor")
        else:
            val = lambda idx: value
        if mask.ndim != self.ndim:
            raise Unsupported("mask of lower rank")
        for a, b in zip(mask._shape, self._shape):
            if not size_eq(a, b):
                raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
        gm, gs = mask.getter(), self.getter()
        dt = self.dtype
        self._assign_fn(lambda idx: ite(gm(idx), cast(val(idx), dt), gs(idx)))

    def _assign_fn(self, fn):
        vinv = self.vinv
        if vinv is None:
            raise Unsupported("write through a non-invertible view (e.g. an expanded tensor)")
        if vinv == "id":
            self.storage.write(lambda idx: ([], idx), fn)
        else:
            self.storage.write(vinv, fn)

    def flip(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = tuple(dims[0])
        ds = [self._axis(d) for d in dims]
        g, sh = self.getter(), self._shape
        return self.new(sh, self.dtype, lambda idx: g(tuple(sh[k] - 1 - ival(i) if k in ds else i for k, i in enumerate(idx))))

    def unsqueeze(self, d):
        n = self.ndim + 1
        d = int(d)
        if not -n <= d < n:
            raise IndexError("Dimension out of range")
        d %= n
        sh = self._shape[:d] + (1,) + self._shape[d:]
        fac = self.fac[:d] + (None,) + self.fac[d:]
        return self.view_of(sh, lambda idx: idx[:d] + idx[d + 1:], lambda b: ([], b[:d] + (0,) + b[d:]), fac=fac, contig=self.contig)

    def squeeze(self, d=None):
        ds = [k for k in range(self.ndim) if size_is(self._shape[k], 1)] if d is None else [k for k in [self._axis(d)] if size_is(self._shape[k], 1)]
        keep = [k for k in range(self.ndim) if k not in ds]
        nd = self.ndim

        def f(idx):
            out = [0] * nd
            for k, i in zip(keep, idx):
                out[k] = i
            return tuple(out)
        return self.view_of([self._shape[k] for k in keep], f, lambda b: ([], tuple(b[k] for k in keep)), fac=[self.fac[k] for k in keep], contig=self.contig)

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = tuple(dims[0])
        ds = [self._axis(d) for d in dims]
        if sorted(ds) != list(range(self.ndim)):
            raise RuntimeError("permute: bad dims")
        inv = [ds.index(k) for k in range(self.ndim)]
        return self.view_of([self._shape[d] for d in ds], lambda idx: tuple(idx[inv[k]] for k in range(len(inv))),
                            lambda b: ([], tuple(b[d] for d in ds)), fac=[self.fac[d] for d in ds], contig=ds == list(range(self.ndim)) and self.contig)

    def transpose(self, a, b):
        a, b = self._axis(a), self._axis(b)
        ds = list(range(self.ndim))
        ds[a], ds[b] = ds[b], ds[a]
        return self.permute(*ds)

    swapaxes = transpose

    def movedim(self, a, b):
        a, b = self._axis(a), self._axis(b)
        ds = list(range(self.ndim))
        ds.remove(a)
        ds.insert(b, a)
        return self.permute(*ds)

    moveaxis = movedim

    @property
    def T(self):
        return self.permute(*range(self.ndim)[::-1])

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def narrow(self, dim, start, length):
        dim = self._axis(dim)
        return self[(slice(None),) * dim + (slice(start, start + length),)]

    def select(self, dim, index):
        dim = self._axis(dim)
        return self[(slice(None),) * dim + (index,)]

    def index_select(self, dim, index):
        return self._gather_list(self._axis(dim), index)

    def take_along_dim(self, *a):
        raise Unsupported("take_along_dim")

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (list, tuple)):
            sizes = tuple(sizes[0])
        k = len(sizes) - self.ndim
        if k < 0:
            raise RuntimeError("expand: too few sizes")
        shape, rep = [], []
        for j, s in enumerate(sizes):
            s = conv_int(s)
            if j < k:
                if is_num(s) and s == -1:
                    raise RuntimeError("expand: -1 is not allowed in a leading dimension")
                shape.append(s)
                rep.append(True)
                continue
            n = self._shape[j - k]
            if is_num(s) and s == -1:
                shape.append(n)
                rep.append(False)
            elif size_eq_known(s, n):
                shape.append(n)
                rep.append(False)
            elif self.lib == "torch" and not is_num(s) and eng().known(tint(s) >= 0) is not True and eng().decide(tint(s) < 0):
                if eng().decide(tint(s) != -1):
                    raise RuntimeError("expand: negative size")
                shape.append(n)
                rep.append(False)
            elif size_is(n, 1):
                shape.append(s)
                rep.append(True)
            elif size_eq(s, n):
                shape.append(n)
                rep.append(False)
            else:
                raise RuntimeError(f"The expanded size of the tensor ({s}) must match the existing size ({n})")
        fac = [self.fac[j - k] if j >= k and not rep[j] else None for j in range(len(shape))]
        changed = any(rep)
        return self.view_of(shape, lambda idx: tuple(0 if rep[j] else idx[j] for j in range(k, len(shape))),
                            None if changed else (lambda b: ([], b)), fac=fac, contig=self.contig and not changed)

    def expand_as(self, o):
        return self.expand(*o._shape)

    def broadcast_to(self, shape):
        return self.expand(*shape)

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (list, tuple)):
            reps = tuple(reps[0])
        t = self
        while t.ndim < len(reps):
            t = t.unsqueeze(0)
        g = t.getter()
        sh = t._shape
        new = tuple(s * r for s, r in zip(sh, reps))

        def f(idx):
            out = []
            for i, s, r in zip(idx, sh, reps):
                if is_num(r) and r == 1:
                    out.append(i)
                elif is_num(s) and s == 1:
                    out.append(0)
                elif is_num(s):
                    out.append(core.mod(ival(i), s))
                else:
                    raise Unsupported("repeat of a symbolic size")
            return g(tuple(out))
        return self.new(new, self.dtype, f)

    def view(self, *shape):
        return self._reshape(shape, True)

    def view_as(self, o):
        return self._reshape(o._shape, True)

    def reshape(self, *shape):
        return self._reshape(shape, False)

    def ravel(self):
        return self._reshape((-1,), False)

    def flatten(self, start_dim=0, end_dim=-1):
        if self.ndim == 0:
            return self.reshape(1)
        a, b = self._axis(start_dim), self._axis(end_dim)
        n = prod(self._shape[a:b + 1])
        return self._reshape(self._shape[:a] + (n,) + self._shape[b + 1:], False)

    def unflatten(self, dim, sizes):
        d = self._axis(dim)
        return self._reshape(self._shape[:d] + tuple(sizes) + self._shape[d + 1:], True)

    def _reshape(self, shape, must_view):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = tuple(shape[0])
        shape = [conv_int(s) for s in shape]
        src = list(self._shape)
        # factor sizes of source dims (merged dims stay split)
        sfac = []
        for d, s in enumerate(src):
            for p in (self.fac[d] or (s,)):
                sfac.append((d, p))
        sfac_nz = [(k, p) for k, (d, p) in enumerate(sfac) if not (is_num(p) and p == 1)]
        e = eng()
        neg = [j for j, s in enumerate(shape) if is_num(s) and s == -1]
        if len(neg) > 1:
            raise RuntimeError("only one dimension can be inferred")

        def consume(targets, facs):
            """match target sizes with consecutive factors; returns list of lists of factor positions or None"""
            out, p = [], 0
            for t in targets:
                if is_num(t) and t == 1:
                    out.append([])
                    continue
                acc, grp = 1, []
                if p < len(facs) and not is_num(t) and False:
                    pass
                ok = False
                while p < len(facs):
                    acc = acc * facs[p][1]
                    grp.append(facs[p][0])
                    p += 1
                    if size_eq_known(acc, t):
                        ok = True
                        break
                if not ok:
                    if not grp and size_eq_known(1, t):
                        ok = True
                    else:
                        return None, p
                out.append(grp)
            return out, p

        if neg:
            j = neg[0]
            left, p = consume(shape[:j], sfac_nz)
            right, q = consume(shape[j + 1:][::-1], sfac_nz[p:][::-1]) if left is not None else (None, 0)
            if left is not None and right is not None:
                mid = sfac_nz[p:len(sfac_nz) - q]
                groups = left + [[k for k, _ in mid]] + [g[::-1] for g in right[::-1]]
                shape[j] = prod([p_ for _, p_ in mid])
            else:
                groups = None
                rest = prod([s for k, s in enumerate(shape) if k != j])
                tot = prod(src)
                if all(is_num(s) for s in src) and is_num(rest):
                    if int(rest) == 0 or int(tot) % int(rest):
                        raise RuntimeError(f"shape '{shape}' is invalid for input of size {tot}")
                    shape[j] = int(tot) // int(rest)
                else:
                    shape[j] = core.floordiv(tot, rest)
        else:
            groups, p = consume(shape, sfac_nz)
            if groups is not None and p != len(sfac_nz):
                if all(size_eq(x[1], 1) for x in sfac_nz[p:]):
                    pass
                else:
                    raise RuntimeError(f"shape '{shape}' is invalid for input of size {src}")
            if groups is None:
                if not size_eq(prod(shape), prod(src)):
                    raise RuntimeError(f"shape '{shape}' is invalid for input of size {src}")
        merging = groups is None or any(len([k for k in g if not size_eq_known(sfac[k][1], 1)]) > 1 for g in groups)
        contig_ok = self.is_contiguous() if merging and self.anylayout else self.contig
        if must_view and not contig_ok and merging:
            if self.anylayout and groups is not None:
                raise RuntimeError("view size is not compatible with input tensor's size and stride (at least one dimension spans across two contiguous subspaces). Use .reshape(...) instead.")
            # torch: views of non-contiguous tensors work only if no merged group crosses a stride break
            if groups is None or any(len(g) > 1 for g in groups):
                raise Unsupported("view() of a possibly non-contiguous tensor")
        nd = self.ndim
        if groups is not None:
            newfac = [tuple(sfac[k][1] for k in g) if len(g) > 1 else None for g in groups]
            nf = len(sfac)
            loc = {}
            for j, g in enumerate(groups):
                for r, k in enumerate(g):
                    loc[k] = (j, r, len(g))
            gs = [tuple(sfac[k][1] for k in g) for g in groups]

            def f(idx):
                parts = {}
                fv = [0] * nf
                for k in range(nf):
                    if k in loc:
                        j, r, n = loc[k]
                        if n == 1:
                            fv[k] = idx[j]
                        else:
                            if j not in parts:
                                parts[j] = unflat(idx[j], gs[j])
                            fv[k] = parts[j][r]
                out = []
                for d in range(nd):
                    ks = [k for k in range(nf) if sfac[k][0] == d]
                    if len(ks) == 1:
                        out.append(fv[ks[0]])
                    else:
                        out.append(FlatIdx([fv[k] for k in ks], [sfac[k][1] for k in ks]))
                return tuple(out)

            def inv(b):
                fv = [0] * nf
                for d in range(nd):
                    ks = [k for k in range(nf) if sfac[k][0] == d]
                    ps = unflat(b[d], tuple(sfac[k][1] for k in ks))
                    for k, p_ in zip(ks, ps):
                        fv[k] = p_
                out = []
                for j, g in enumerate(groups):
                    if len(g) == 0:
                        out.append(0)
                    elif len(g) == 1:
                        out.append(fv[g[0]])
                    else:
                        out.append(FlatIdx([fv[k] for k in g], gs[j]))
                return [], tuple(out)
            if must_view or contig_ok:
                return self.view_of(shape, f, inv, fac=newfac, contig=True)
            r = self.view_of(shape, f, None, fac=newfac, contig=True)
            return r.clone() if any(len(g) > 1 for g in groups) else self.view_of(shape, f, inv, fac=newfac)
        # generic: through the flat index
        ss = tuple(src)
        sh = tuple(shape)

        def f(idx):
            v = FlatIdx(idx, sh).value() if len(sh) else 0
            return unflat(v, ss) if len(ss) else ()

        def inv(b):
            v = FlatIdx(b, ss).value() if len(ss) else 0
            return [], (unflat(v, sh) if len(sh) else ())
        return self.view_of(shape, f, inv, contig=True)

    def unfold(self, dimension, size, step):
        d = self._axis(dimension)
        n = self._shape[d]
        size, step = conv_int(size), conv_int(step)
        e = eng()
        if e.decide(tint(size) > tint(n)):
            raise RuntimeError("maximum size for tensor at dimension is smaller than size")
        if e.decide(tint(step) <= 0):
            raise RuntimeError("step must be > 0")
        cnt = core.floordiv(n - size, step) + 1
        sh = self._shape[:d] + (cnt,) + self._shape[d + 1:] + (size,)
        fac = self.fac[:d] + (None,) + self.fac[d + 1:] + (None,)
        return self.view_of(sh, lambda idx: idx[:d] + (ival(idx[d]) * step + ival(idx[-1]),) + idx[d + 1:-1], None, fac=fac)

    # ---- elementwise
    def _bin(self, o, fn, dt=None, rev=False):
        if isinstance(o, _np.ndarray) or (isinstance(o, (list, tuple)) and self.lib == "np"):
            o = as_tensor(o, lib=self.lib)
        if isinstance(o, MaskedSelect) or not (isinstance(o, (SymTensor, Sym)) or is_num(o)):
            return NotImplemented
        if self.lib == "np" and isinstance(o, SymTensor) and o.lib == "torch":
            pass
        rdt = dt or result_dtype(self, o)
        if isinstance(o, SymTensor):
            sh = broadcast_shape(self._shape, o._shape)
            ga, gb = broadcast_getter(self, sh), broadcast_getter(o, sh)
            fac = merge_fac(self, o, sh)
            f = (lambda idx: fn(gb(idx), ga(idx))) if rev else (lambda idx: fn(ga(idx), gb(idx)))
            return self.new(sh, rdt, f, fac=fac)
        g = self.getter()
        f = (lambda idx: fn(o, g(idx))) if rev else (lambda idx: fn(g(idx), o))
        return self.new(self._shape, rdt, f, fac=self.fac)

    def _un(self, fn, dt=None):
        g = self.getter()
        return self.new(self._shape, dt or self.dtype, lambda idx: fn(g(idx)), fac=self.fac)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, rev=True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, rev=True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, rev=True)

    def _divdt(self, o):
        d = result_dtype(self, o) if not isinstance(o, _np.ndarray) else FLOAT64
        return d if d.kind == 2 else (FLOAT64 if self.lib == "np" else DEFAULT)

    def __truediv__(self, o):
        return self._bin(o, core.elem_div, dt=self._divdt(o))

    def __rtruediv__(self, o):
        return self._bin(o, core.elem_div, dt=self._divdt(o), rev=True)

    def __floordiv__(self, o):
        return self._bin(o, elem_floordiv)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: core.mod(a, b))

    def __pow__(self, o):
        return self._bin(o, core.power)

    def __rpow__(self, o):
        return self._bin(o, core.power, rev=True)

    def pow(self, o):
        return self ** o

    def __neg__(self):
        return self._un(lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._un(elem_abs)

    abs = __abs__

    def _cmp(self, o, op):
        r = self._bin(o, lambda a, b: eq_elem(a, b) if op == "==" else (not_elem(eq_elem(a, b)) if op == "!=" else cmp(a, b, op)), dt=BOOL)
        return r

    def __eq__(self, o):
        if o is None or isinstance(o, (str,)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str,)):
            return True
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def _logic(self, o, fn):
        return self._bin(o, fn, dt=BOOL)

    def __and__(self, o):
        return self._logic(o, lambda a, b: swrap(z3.And(tbool(a), tbool(b))))

    def __or__(self, o):
        return self._logic(o, lambda a, b: swrap(z3.Or(tbool(a), tbool(b))))

    __rand__, __ror__ = __and__, __or__

    def __xor__(self, o):
        return self._logic(o, lambda a, b: swrap(z3.Xor(tbool(a), tbool(b))))

    def __invert__(self):
        return self._un(lambda a: swrap(z3.Not(tbool(a))), dt=BOOL)

    logical_not = __invert__
    logical_and = __and__
    logical_or = __or__

    def mul(self, o):
        return self * o

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    def div(self, o):
        return self / o

    def add(self, o, alpha=1):
        return self + (o if is_num(alpha) and alpha == 1 else o * alpha)

    def square(self):
        return self._un(lambda a: a * a)

    def neg(self):
        return -self

    def sqrt(self):
        return self._un(core.sqrt, dt=fdt(self))

    def exp(self):
        return self._un(lambda a: core.unary("exp", a), dt=fdt(self))

    def log(self):
        return self._un(lambda a: core.unary("log", a), dt=fdt(self))

    def log10(self):
        return self._un(lambda a: core.unary("log10", a), dt=fdt(self))

    def floor(self):
        return self._un(lambda a: elem_floor(a))

    def ceil(self):
        return self._un(lambda a: -elem_floor(-a))

    def sign(self):
        return self._un(lambda a: ite(cmp(a, 0, ">"), 1, ite(cmp(a, 0, "<"), -1, 0)))

    def reciprocal(self):
        return 1 / self

    def clamp(self, min=None, max=None):
        def f(a, lo=None, hi=None):
            if lo is not None:
                a = ite(cmp(a, lo, "<"), lo, a)
            if hi is not None:
                a = ite(cmp(a, hi, ">"), hi, a)
            return a
        r = self
        if isinstance(min, SymTensor) or isinstance(max, SymTensor):
            if min is not None:
                r = r._bin(min, lambda a, b: ite(cmp(a, b, "<"), b, a))
            if max is not None:
                r = r._bin(max, lambda a, b: ite(cmp(a, b, ">"), b, a))
            return r
        return self._un(lambda a: cast(f(a, min, max), self.dtype))

    clip = clamp

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def clamp_(self, min=None, max=None):
        return self._inplace(self.clamp(min, max))

    def masked_fill(self, mask, value):
        sh = broadcast_shape(self._shape, mask._shape)
        ga, gm = broadcast_getter(self, sh), broadcast_getter(mask, sh)
        gv = value.getter() if isinstance(value, SymTensor) else None
        dt = self.dtype
        return self.new(sh, dt, lambda idx: ite(gm(idx), cast(gv(()) if gv else value, dt), ga(idx)))

    def masked_scatter(self, mask, src):
        if isinstance(src, MaskedSelect):
            if src.mask is not mask and src.mask.storage is not mask.storage:
                raise Unsupported("masked_scatter with a different mask")
            sh = broadcast_shape(self._shape, mask._shape)
            ga, gm = broadcast_getter(self, sh), broadcast_getter(mask, sh)
            f = src.fn
            dt = self.dtype
            return self.new(sh, dt, lambda idx: ite(gm(idx), cast(f(idx), dt), ga(idx)))
        raise Unsupported("masked_scatter")

    def masked_select(self, mask):
        return MaskedSelect(self, mask)

    def where(self, cond, other):
        return where(cond, self, other)

    # ---- in place
    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if r.ndim != self.ndim or not all(size_eq(a, b) for a, b in zip(r._shape, self._shape)):
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        if r.dtype.kind > self.dtype.kind:
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {self.dtype}")
        g = r.getter()
        self._assign_fn(g)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def add_(self, o, alpha=1):
        return self._inplace(self.add(o, alpha=alpha))

    def sub_(self, o, alpha=1):
        return self._inplace(self.sub(o, alpha=alpha))

    def mul_(self, o):
        return self._inplace(self * o)

    def div_(self, o):
        return self._inplace(self / o)

    def pow_(self, o):
        return self._inplace(self ** o)

    def neg_(self):
        return self._inplace(-self)

    def abs_(self):
        return self._inplace(abs(self))

    def copy_(self, o, non_blocking=False):
        self._assign(o)
        return self

    def fill_(self, v):
        self._assign(v)
        return self

    def zero_(self):
        self._assign(0)
        return self

    def masked_fill_(self, mask, v):
        return self._inplace(self.masked_fill(mask, v))

    # ---- reductions
    def _red_axes(self, dim):
        if dim is None:
            return list(range(self.ndim))
        if isinstance(dim, (list, tuple)):
            ds = [self._axis(d) for d in dim]
            if len(set(ds)) != len(ds):
                raise RuntimeError("dim appears multiple times in the list of dims")
            return ds if ds else list(range(self.ndim))
        return [self._axis(dim)]

    def _reduce(self, dim, keepdim, mk, dt, empty_all=True):
        axes = sorted(self._red_axes(dim))
        rest = [d for d in range(self.ndim) if d not in axes]
        g = self.getter()
        nd = self.ndim
        facs = [self.fac[a] or (self._shape[a],) for a in axes]
        sizes = [s for f in facs for s in f]

        def fn(idx):
            base = [None] * nd
            if keepdim:
                for d in rest:
                    base[d] = idx[d]
            else:
                for d, i in zip(rest, idx):
                    base[d] = i

            def body(*bv):
                full = list(base)
                it = iter(bv)
                for a, f in zip(axes, facs):
                    ps = [next(it) for _ in f]
                    ps = [wrap(p) if isinstance(p, z3.ExprRef) else p for p in ps]
                    full[a] = ps[0] if len(ps) == 1 else FlatIdx(ps, f)
                return g(tuple(full))
            return mk(sizes, body)
        shape = tuple(1 if d in axes else self._shape[d] for d in range(nd)) if keepdim else tuple(self._shape[d] for d in rest)
        fac = None if keepdim else [self.fac[d] for d in rest]
        return self.new(shape, dt, fn, fac=fac)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None, keepdims=None):
        dim = axis if axis is not None else dim
        keepdim = keepdim if keepdims is None else keepdims
        dt = self.dtype if self.dtype.kind == 2 else INT64
        return self._reduce(dim, keepdim, lambda sizes, body: sum_elem(sizes, body, dt), dtype or dt)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None, keepdims=None):
        dim = axis if axis is not None else dim
        keepdim = keepdim if keepdims is None else keepdims
        if self.dtype.kind != 2 and dtype is None and self.lib == "torch":
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
        n = prod([self._shape[a] for a in self._red_axes(dim)])
        return self._reduce(dim, keepdim, lambda sizes, body: core.elem_div(sum_elem(sizes, body, FLOAT64), n), dtype or self.dtype)

    def _node_reduce(self, kind, dim, keepdim):
        def mk(sizes, body):
            return SymReal(eng().node(kind, [], [([tint(s) for s in sizes], lambda *b: treal(body(*b)))]))
        if self.dtype.kind != 2:
            raise Unsupported(f"{kind} of an integer tensor")
        # unit reductions
        axes = self._red_axes(dim)
        if all(is_num(self._shape[a]) for a in axes) and kind in ("max", "min", "prod"):
            op = {"max": lambda a, b: ite(cmp(a, b, ">="), a, b), "min": lambda a, b: ite(cmp(a, b, "<="), a, b), "prod": lambda a, b: a * b}[kind]

            def mk(sizes, body):
                r = None
                for c in itertools.product(*[range(int(s)) for s in sizes]):
                    v = body(*c)
                    r = v if r is None else op(r, v)
                return r
        return self._reduce(dim, keepdim, mk, self.dtype)

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, SymTensor):
            return self._bin(dim, lambda a, b: ite(cmp(a, b, ">="), a, b))
        r = self._node_reduce("max", dim, keepdim)
        return r if dim is None else ValInd(r)

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, SymTensor):
            return self._bin(dim, lambda a, b: ite(cmp(a, b, "<="), a, b))
        r = self._node_reduce("min", dim, keepdim)
        return r if dim is None else ValInd(r)

    def amax(self, dim=None, keepdim=False):
        return self._node_reduce("max", dim, keepdim)

    def amin(self, dim=None, keepdim=False):
        return self._node_reduce("min", dim, keepdim)

    def median(self, dim=None, keepdim=False):
        r = self._node_reduce("median", dim, keepdim)
        return r if dim is None else ValInd(r)

    def std(self, dim=None, keepdim=False, unbiased=True):
        return self._node_reduce("std", dim, keepdim)

    def var(self, dim=None, keepdim=False, unbiased=True):
        return self._node_reduce("var", dim, keepdim)

    def quantile(self, q, dim=None, keepdim=False):
        return self._node_reduce(f"quantile{q}", dim, keepdim)

    def prod(self, dim=None, keepdim=False):
        return self._node_reduce("prod", dim, keepdim)

    def _quantified(self, universal):
        """any()/all(): a fork with a witness on one side and a quantified fact on the other"""
        e = eng()
        g = self.getter()
        if all(is_num(s) for s in self._shape) and prod(self._shape) <= 64:
            ts = [tbool(g(i)) for i in itertools.product(*[range(int(s)) for s in self._shape])]
            t = (z3.And(*ts) if universal else z3.Or(*ts)) if ts else z3.BoolVal(universal)
            return swrap(t)
        d = e.bound_depth
        bv = [z3.Int(f"b!{d}!{i}") for i in range(self.ndim)]
        body = z3.simplify(tbool(g(tuple(SymInt(b) for b in bv))))
        if z3.is_true(body) or z3.is_false(body):
            if z3.is_true(body) == universal:
                return universal
            return swrap(prod_pos(self._shape) if not universal else z3.Not(prod_pos(self._shape)))
        b = e.fresh("anyall", z3.BoolSort())
        holds = e.decide(b)
        npc, nq = len(e.pc), len(e.quants)
        witness_side = holds != universal
        if witness_side:   # exists idx in range with body (any=True) / not body (all=False)
            w = [e.fresh("wit") for _ in bv]
            for x, s in zip(w, self._shape):
                e.assume(z3.And(x >= 0, x < tint(s)))
            inst = z3.simplify(tbool(g(tuple(SymInt(x) for x in w))))
            e.assume(inst if not universal else z3.Not(inst))
        else:
            decls = {}
            st, seen = [body], set()
            while st:
                u = st.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_app(u):
                    if u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        decls[u.decl().name()] = u
                    st.extend(u.children())
            done = False
            shape = self._shape
            for n, u in decls.items():
                args = [u.arg(i) for i in range(u.num_args())]
                pos = {}
                for k, v in enumerate(bv):
                    for j, a in enumerate(args):
                        if a.eq(v):
                            pos[k] = j
                if len(pos) == len(bv):
                    def bodyf(*aa, pos=pos):
                        rng = [z3.And(aa[pos[k]] >= 0, aa[pos[k]] < tint(shape[k])) for k in range(len(bv))]
                        t = tbool(g(tuple(SymInt(aa[pos[k]]) for k in range(len(bv)))))
                        return z3.Implies(z3.And(*rng), t if universal else z3.Not(t))
                    e.assume_quant(core.Quant(u.decl(), bodyf, "anyall"))
                    done = True
            if not bv:
                e.assume(body if universal else z3.Not(body))
            for h in e.hooks.get("hints", ()):      # index tuples the harness is going to look at
                if bv and len(h) == len(bv):
                    t = tbool(g(tuple(h)))
                    rng = [z3.And(tint(x) >= 0, tint(x) < tint(s)) for x, s in zip(h, self._shape)]
                    e.assume(z3.Implies(z3.And(*rng), t if universal else z3.Not(t)))
                    done = True
            if bv and not done:
                e.path_notes.append("unused quantified fact")
        e.decs += e.pc[npc:]      # what the branch means
        for q in e.quants[nq:]:
            q.proved = True
        if not e.feasible():
            raise core.PathEnd("infeasible any/all")
        return holds

    def any(self, dim=None, keepdim=False):
        if dim is not None:
            raise Unsupported("any(dim)")
        v = self._quantified(False)
        return self.new((), BOOL, lambda idx: v)

    def all(self, dim=None, keepdim=False):
        if dim is not None:
            raise Unsupported("all(dim)")
        v = self._quantified(True)
        return self.new((), BOOL, lambda idx: v)

    # ---- products
    def __matmul__(self, o):
        return matmul(self, o)

    def matmul(self, o):
        return matmul(self, o)

    def dot(self, o):
        if isinstance(o, _np.ndarray):
            o = as_tensor(o, lib=self.lib)
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(as_tensor(o, lib=self.lib), self)

    def mv(self, o):
        return matmul(self, o)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("gathered", "decl", "_abc_impl", "length", "is_param", "grad", "t", "dtype_"):
            raise AttributeError(name)
        raise Unsupported(f"Tensor.{name}")

    def __contains__(self, x):
        raise Unsupported("in on a tensor")


class ValInd:
    def __init__(self, values):
        self.values = values

    def __getitem__(self, i):
        return self.values if i == 0 else self.indices

    def __iter__(self):
        return iter((self.values, None))

    @property
    def indices(self):
        raise Unsupported("indices of a reduction")


class MaskedSelect:
    """x[mask]: values live at the positions where the mask holds"""

    def __init__(self, x, mask, fn=None):
        self.mask = mask
        if fn is None:
            if mask.ndim != x.ndim:
                raise Unsupported("mask of lower rank")
            for a, b in zip(mask._shape, x._shape):
                if not size_eq(a, b):
                    raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
            fn = x.getter()
        self.fn = fn

    def _m(self, f):
        g = self.fn
        return MaskedSelect(None, self.mask, lambda idx: f(g(idx)))

    def _b(self, o, f):
        if isinstance(o, MaskedSelect):
            if o.mask is not self.mask:
                raise Unsupported("different masks")
            g, h = self.fn, o.fn
            return MaskedSelect(None, self.mask, lambda idx: f(g(idx), h(idx)))
        if isinstance(o, SymTensor):
            if o.ndim:
                raise Unsupported("masked arithmetic with a tensor")
            v = o.getter()
            return self._m(lambda a: f(a, v(())))
        return self._m(lambda a: f(a, o))

    def __neg__(self):
        return self._m(lambda a: -a)

    def __abs__(self):
        return self._m(elem_abs)

    abs = __abs__

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__
    __iadd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    __isub__ = __sub__

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__
    __imul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, core.elem_div)

    def __pow__(self, o):
        return self._b(o, core.power)

    pow = __pow__

    def __getattr__(self, n):
        raise Unsupported(f"x[mask].{n}")


# ---------------------------------------------------------------- helpers
def detached(v):
    """the value v cut off from back-propagation: an unknown function of it, so that no contract can depend on it (only in
    gradient mode, and only if v depends on an image argument: kernels and other parameters may be cut off)"""
    e = eng()
    if not e.hooks.get("grad") or not isinstance(v, SymReal) or not depends_on_image(e, v.t):
        return v
    return SymReal(e.uf("detached", z3.RealSort(), z3.RealSort())(z3.simplify(v.t, som=True)))


def depends_on_image(e, t):
    return bool(image_uses(e, t) & {"image", "havoc"})


def image_uses(e, t):
    """which kinds of image-dependent values occur in a term: "image" (an element of an image argument), "havoc" (a value
    known only through a loop invariant), or detached ones"""
    st, seen, out = [t], set(), set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            st.append(u.body())
        elif z3.is_app(u):
            st.extend(u.children())
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = u.decl().name()
                node = e.nodes.get(n)
                if node is not None:
                    st.extend(node.params)
                    st.extend(node.bodies)
                elif n == "detached":
                    out.add("detached")
                elif n in e.images and not e.hooks["grad"](n) or n.startswith("component:"):
                    out.add("image")
                elif "!" in n and not n.startswith("b!") and (u.num_args() or u.sort_kind() == z3.Z3_REAL_SORT):
                    out.add("havoc")
    return out


def conv_int(v):
    if v is None or isinstance(v, (int, SymInt)):
        return v
    if isinstance(v, SymBool):
        return v._i()
    if isinstance(v, _np.integer):
        return int(v)
    if isinstance(v, SymTensor):
        return v.item()
    if isinstance(v, (float, Fraction, SymReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if hasattr(v, "__index__"):
        return v.__index__()
    raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")


def ite_neg(i, n):
    return ite(cmp(i, 0, "<"), i + n, i)


def prod_pos(shape):
    return z3.And(*[tint(s) > 0 for s in shape]) if shape else z3.BoolVal(True)


def size_is(n, k):
    if is_num(n):
        return int(n) == k
    return eng().decide(tint(n) == k)


def size_eq_known(a, b):
    if is_num(a) and is_num(b):
        return int(a) == int(b)
    c = z3.simplify(tint(a) == tint(b), som=True)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return eng().known_cached(c) is True


def size_eq(a, b):
    if is_num(a) and is_num(b):
        return int(a) == int(b)
    return eng().decide(tint(a) == tint(b))


def broadcast_shape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        r = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            v = s[j]
            if is_num(v) and v == 1:
                continue
            if is_num(r) and r == 1:
                r = v
            elif size_eq_known(r, v):
                pass
            elif size_eq(r, v):
                pass
            elif size_is(v, 1):
                pass
            elif size_is(r, 1):
                r = v
            else:
                raise RuntimeError("The size of tensor a must match the size of tensor b")
        out.append(r)
    return tuple(out)


def broadcast_getter(t, shape):
    g = t.getter()
    k = len(shape) - t.ndim
    if k == 0 and all(x is y or size_eq_known(x, y) for x, y in zip(shape, t._shape)):
        return g
    one = []
    for j in range(t.ndim):
        v, s = t._shape[j], shape[j + k]
        if is_num(v) and v == 1:
            one.append(True)
        elif size_eq_known(v, s):
            one.append(False)
        else:
            one.append(True if size_is(v, 1) else False)
    return lambda idx: g(tuple(0 if one[j] else idx[j + k] for j in range(len(one))))


def merge_fac(a, b, shape):
    out = []
    for j in range(len(shape)):
        f = None
        for t in (a, b):
            k = j - (len(shape) - t.ndim)
            if k >= 0 and t.fac[k] is not None and (f is None) and size_eq_known(t._shape[k], shape[j]):
                f = t.fac[k]
        out.append(f)
    return out


def fdt(t):
    return t.dtype if t.dtype.kind == 2 else DEFAULT


def elem_abs(a):
    if is_num(a):
        return abs(a)
    return ite(cmp(a, 0, ">="), a, -a)


def eq_elem(a, b):
    return core.eq(a, b)


def not_elem(a):
    return (not a) if isinstance(a, bool) else ~a


def elem_floor(a):
    if isinstance(a, SymReal):
        r = core.floor_real(a)
        return cast(r, FLOAT64)
    if isinstance(a, Fraction):
        return Fraction(a.numerator // a.denominator)
    return a


def elem_floordiv(a, b):
    return core.floordiv(a, b)


def sum_elem(sizes, body, dt):
    e = eng()
    if all(is_num(s) for s in sizes):
        n = prod([int(s) for s in sizes])
        if n <= 256:
            r = None
            for c in itertools.product(*[range(int(s)) for s in sizes]):
                v = body(*c)
                r = v if r is None else r + v
            if r is None:
                r = Fraction(0) if dt.kind == 2 else 0
            return cast(r, dt) if not is_num(r) or True else r
    if dt.kind != 2:
        raise Unsupported("integer sum of symbolic length")
    return SymReal(e.sum_([tint(s) for s in sizes], lambda *b: treal(body(*b))))


def where(c, a, b):
    ts = [t for t in (c, a, b) if isinstance(t, SymTensor)]
    sh = broadcast_shape(*[t._shape for t in ts])
    gc = broadcast_getter(c, sh) if isinstance(c, SymTensor) else (lambda i: c)
    ga = broadcast_getter(a, sh) if isinstance(a, SymTensor) else (lambda i: a)
    gb = broadcast_getter(b, sh) if isinstance(b, SymTensor) else (lambda i: b)
    dt = result_dtype(a, b)
    return ts[0].new(sh, dt, lambda idx: ite(gc(idx), cast(ga(idx), dt), cast(gb(idx), dt)))


def matmul(a, b):
    if isinstance(a, _np.ndarray):
        a = as_tensor(a)
    if isinstance(b, _np.ndarray):
        b = as_tensor(b)
    dt = promote(a.dtype, b.dtype)
    if a.lib == "torch" and a.dtype is not b.dtype:
        raise RuntimeError("expected both tensors to have the same dtype")
    if b.ndim == 1:
        if not size_eq(a._shape[-1], b._shape[0]):
            raise RuntimeError("size mismatch in matmul")
        ga, gb = a.getter(), b.getter()
        n = a._shape[-1]
        w = lambda p: wrap(p) if isinstance(p, z3.ExprRef) else p
        return a.new(a._shape[:-1], dt, lambda idx: sum_elem([n], lambda k: ga(idx + (w(k),)) * gb((w(k),)), dt), fac=a.fac[:-1])
    if a.ndim == 1 and b.ndim == 2:
        return matmul(b.transpose(0, 1), a)
    if a.ndim == 2 and b.ndim == 2:
        if not size_eq(a._shape[1], b._shape[0]):
            raise RuntimeError("size mismatch in matmul")
        ga, gb = a.getter(), b.getter()
        n = a._shape[1]
        w = lambda p: wrap(p) if isinstance(p, z3.ExprRef) else p
        return a.new((a._shape[0], b._shape[1]), dt, lambda idx: sum_elem([n], lambda k: ga((idx[0], w(k))) * gb((w(k), idx[1])), dt))
    raise Unsupported("matmul of these ranks")


def as_tensor(data, dtype=None, lib="torch", float_dt=None):
    if isinstance(data, SymTensor):
        g = data.getter()
        dt = dtype or data.dtype
        h = (lambda idx: detached(g(idx))) if lib == "torch" else g
        return SymTensor.from_fn(data._shape, dt, lambda idx: cast(h(idx), dt), lib=lib, fac=data.fac)
    if isinstance(data, (Sym,)) or is_num(data):
        dt = dtype or {0: BOOL, 1: INT64, 2: float_dt or (FLOAT64 if lib == "np" else DEFAULT)}[scalar_kind(data)]
        v = cast(data, dt)
        return SymTensor.from_fn((), dt, lambda idx: v, lib=lib)
    if isinstance(data, _np.ndarray):
        if data.dtype == object:
            return as_tensor(data.tolist(), dtype, lib)
        kdt = {"f": FLOAT64, "i": INT64, "u": UINT8, "b": BOOL}[data.dtype.kind]
        dt = dtype or kdt
        arr = data

        def fn(idx):
            return lookup(arr, idx, dt)
        return SymTensor.from_fn(data.shape, dt, fn, lib=lib)
    if isinstance(data, seq.SymList) and data.sym:
        n, f = data.sym
        kinds = scalar_kind(f(z3.Int("b!probe")))
        dt = dtype or {0: BOOL, 1: INT64, 2: FLOAT64 if lib == "np" else DEFAULT}[kinds]
        return SymTensor.from_fn((n,), dt, lambda idx: cast(f(ival(idx[0])), dt), lib=lib)
    if isinstance(data, (list, tuple)):
        items = [x if isinstance(x, (Sym,)) or is_num(x) else as_tensor(x, lib=lib) for x in data]
        if all(not isinstance(x, SymTensor) for x in items):
            k = max([scalar_kind(x) for x in items], default=2)
            dt = dtype or {0: BOOL, 1: INT64, 2: FLOAT64 if lib == "np" else DEFAULT}[k]
            lst = seq.SymList([cast(x, dt) for x in items])
            return SymTensor.from_fn((len(items),), dt, lambda idx: lst.at(ival(idx[0])), lib=lib)
        items = [x if isinstance(x, SymTensor) else as_tensor(x, lib=lib) for x in items]
        sh = items[0]._shape
        for x in items[1:]:
            if x.ndim != len(sh) or not all(size_eq(p, q) for p, q in zip(x._shape, sh)):
                raise ValueError("expected sequence of equal length")
        dt = dtype
        if dt is None:
            dt = items[0].dtype
            for x in items[1:]:
                dt = promote(dt, x.dtype)
        gs = [x.getter() for x in items]
        return SymTensor.from_fn((len(items),) + sh, dt, lambda idx: pick([lambda r=idx[1:], g=g: cast(g(r), dt) for g in gs], ival(idx[0])), lib=lib)
    if isinstance(data, (str, type(None))):
        raise TypeError(f"cannot create a tensor from {type(data).__name__}")
    if type(data).__name__ == "SymRange" or isinstance(data, range):
        return as_tensor(seq.SymList(list(data)), dtype, lib)
    raise Unsupported(f"tensor from {type(data).__name__}")


def pick(thunks, i):
    """element i of a concrete list of thunks"""
    if isinstance(i, SymInt):
        s = z3.simplify(i.t)
        if z3.is_int_value(s):
            i = s.as_long()
    if is_num(i):
        return thunks[int(i)]()
    r = thunks[-1]()
    for k in range(len(thunks) - 2, -1, -1):
        r = ite(cmp(i, k, "=="), thunks[k](), r)
    return r


def lookup(arr, idx, dt):
    if not idx:
        return cast(frac(arr.item()) if arr.dtype.kind == "f" else arr.item(), dt)
    i = ival(idx[0])
    return pick([lambda k=k: lookup(_np.asarray(arr[k]), idx[1:], dt) for k in range(arr.shape[0])], i)
