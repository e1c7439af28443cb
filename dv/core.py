"""Verification engine: path-complete symbolic execution of the real code with an SMT back end.

The code under verification is run by CPython itself; the values it handles are the Sym* classes of this
module (z3 terms) and the tensors of shim.py.  A branch on an undecided condition forks (the run is repeated with
the other decision); a loop whose condition is undecided is cut at its head with inferred invariants (loops.py).
Every proof obligation goes through Engine.prove, which asks z3 (and cvc5 when z3 gives up).
"""
import itertools, os, subprocess, sys, tempfile, time
from fractions import Fraction
import z3

z3.set_param("auto_config", True)
CVC5 = "/usr/bin/cvc5"


class PathEnd(BaseException):
    """The current path is finished (infeasible or cut)."""


class Unsupported(BaseException):
    """The code left the fragment the engine has semantics for."""


class Restart(BaseException):
    """A loop's candidate set or havoc set changed: explore again."""


E = None  # current engine (one per process)


def set_engine(e):
    global E
    E = e


def eng():
    return E


# ---------------------------------------------------------------- terms
def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        return Fraction(repr(v))
    if type(v).__module__ == "numpy":
        return frac(v.item())
    raise Unsupported(f"number of type {type(v)}")


def is_num(v):
    if isinstance(v, (int, float, Fraction)):
        return True
    return type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "ndim", 0) == 0 and not hasattr(v.item(), "t")


def is_sym(v):
    return isinstance(v, Sym)


def tint(v):
    """z3 Int term of an integer-like value"""
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    if type(v).__module__ == "numpy":
        return tint(v.item())
    if isinstance(v, (float, Fraction)) and v == int(v):
        return z3.IntVal(int(v))
    raise Unsupported(f"not an integer: {type(v)}")


def treal(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, (SymInt, SymBool)):
        t = tint(v)
        return z3.ToReal(t)
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    return z3.RealVal(str(frac(v)))


def tbool(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, (bool,)):
        return z3.BoolVal(v)
    if type(v).__module__ == "numpy":
        return tbool(v.item())
    if isinstance(v, (SymInt, SymReal)):
        return v.t != 0
    if isinstance(v, (int, float, Fraction)):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported(f"not a boolean: {type(v)}")


def term(v):
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    return treal(v)


def wrap(t):
    """Sym (or Python number) for a z3 term"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_bool(t):
        return SymBool(t)
    if z3.is_int(t):
        return SymInt(t)
    return SymReal(t)


def swrap(t):
    return wrap(z3.simplify(t))


def realish(v):
    return isinstance(v, (SymReal, float, Fraction)) or (type(v).__module__ == "numpy" and "float" in type(v).__name__)


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    __hash__ = None

    def __repr__(self):
        return f"<{str(self.t)[:200]}>"

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _other(o):
    return isinstance(o, Sym) or is_num(o)


def _arith(a, b, op):
    """+ - * on symbolic numbers (either may be a Python number)"""
    if realish(a) or realish(b):
        if op == "+":
            if is_num(a) and frac(a) == 0 and isinstance(b, SymReal):
                return b
            if is_num(b) and frac(b) == 0 and isinstance(a, SymReal):
                return a
            return SymReal(treal(a) + treal(b))
        if op == "-":
            if is_num(b) and frac(b) == 0 and isinstance(a, SymReal):
                return a
            return SymReal(treal(a) - treal(b))
        for u, v in ((a, b), (b, a)):
            if is_num(u):
                f = frac(u)
                if f == 0:
                    return Fraction(0)
                if f == 1 and isinstance(v, SymReal):
                    return v
        return SymReal(treal(a) * treal(b))
    ta, tb = tint(a), tint(b)
    if op == "+":
        return wrap(z3.simplify(ta + tb))
    if op == "-":
        return wrap(z3.simplify(ta - tb))
    return wrap(z3.simplify(ta * tb))


def _nparr(o):
    return type(o).__module__ == "numpy" and getattr(o, "ndim", 0) > 0


def _npmap(f, arr):
    import numpy
    out = numpy.empty(arr.shape, dtype=object)
    for i in numpy.ndindex(*arr.shape):
        v = arr[i]
        out[i] = f(v if isinstance(v, (Sym, Fraction)) else frac(v) if isinstance(v, float) else v.item() if hasattr(v, "item") else v)
    return out


class SymNum(Sym):
    __slots__ = ()

    def __add__(self, o):
        if _nparr(o):
            return _npmap(lambda v: self + v, o)
        return _arith(self, o, "+") if _other(o) else NotImplemented

    def __radd__(self, o):
        if _nparr(o):
            return _npmap(lambda v: v + self, o)
        return _arith(o, self, "+") if _other(o) else NotImplemented

    def __sub__(self, o):
        if _nparr(o):
            return _npmap(lambda v: self - v, o)
        return _arith(self, o, "-") if _other(o) else NotImplemented

    def __rsub__(self, o):
        if _nparr(o):
            return _npmap(lambda v: v - self, o)
        return _arith(o, self, "-") if _other(o) else NotImplemented

    def __mul__(self, o):
        if _nparr(o):
            return _npmap(lambda v: self * v, o)
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return _arith(self, o, "*") if _other(o) else NotImplemented

    def __rmul__(self, o):
        if _nparr(o):
            return _npmap(lambda v: v * self, o)
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return _arith(o, self, "*") if _other(o) else NotImplemented

    def __neg__(self):
        return _arith(0, self, "-")

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __truediv__(self, o):
        if _nparr(o):
            return _npmap(lambda v: div(self, v), o)
        return div(self, o) if _other(o) else NotImplemented

    def __rtruediv__(self, o):
        if _nparr(o):
            return _npmap(lambda v: div(v, self), o)
        return div(o, self) if _other(o) else NotImplemented

    def __floordiv__(self, o):
        return floordiv(self, o) if _other(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if _other(o) else NotImplemented

    def __mod__(self, o):
        return mod(self, o) if _other(o) else NotImplemented

    def __rmod__(self, o):
        return mod(o, self) if _other(o) else NotImplemented

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o):
        if _nparr(o):
            return _npmap(lambda v: power(self, v), o)
        return power(self, o) if _other(o) else NotImplemented

    def __rpow__(self, o):
        if _nparr(o):
            return _npmap(lambda v: power(v, self), o)
        return power(o, self) if _other(o) else NotImplemented

    def __eq__(self, o):
        return cmp(self, o, "==") if _other(o) else False

    def __ne__(self, o):
        return cmp(self, o, "!=") if _other(o) else True

    def __lt__(self, o):
        return cmp(self, o, "<") if _other(o) else NotImplemented

    def __le__(self, o):
        return cmp(self, o, "<=") if _other(o) else NotImplemented

    def __gt__(self, o):
        return cmp(self, o, ">") if _other(o) else NotImplemented

    def __ge__(self, o):
        return cmp(self, o, ">=") if _other(o) else NotImplemented

    __hash__ = None

    def __bool__(self):
        return E.decide(self.t != 0)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return E.unique_int(self.t)

    def __int__(self):
        return E.unique_int(self.t)

    def __float__(self):
        return float(E.unique_int(self.t))

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def item(self):
        return self

    def _bits(self, o):
        raise Unsupported("bit operation on symbolic int")

    __or__ = __ror__ = __xor__ = __rlshift__ = __rrshift__ = _bits

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0:      # a mask of low bits
            return self % (o + 1)
        return self._bits(o)

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self // (1 << o)
        return self._bits(o)

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self * (1 << o)
        return self._bits(o)

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        raise Unsupported("bit_length")


class SymReal(SymNum):
    __slots__ = ("ratio",)

    def __init__(self, t, ratio=None):
        self.t = t
        self.ratio = ratio

    def __float__(self):
        raise Unsupported("float() of a symbolic real outside the code under verification")

    def __floor__(self):
        return floor_real(self)

    def __ceil__(self):
        return -floor_real(-self)

    def __trunc__(self):
        return trunc_real(self)

    def is_integer(self):
        return wrap(z3.IsInt(self.t))

    def __neg__(self):
        r = None if self.ratio is None else (-self.ratio[0], self.ratio[1])
        return SymReal(-self.t, r)

    def item(self):
        return self

    def __round__(self, n=None):
        """round half to even, at n decimal digits"""
        sc = 10 ** int(n or 0)
        if self.ratio is not None:
            y = SymReal(self.t * sc, (self.ratio[0] * sc, self.ratio[1]))
            up = floordiv(2 * sc * self.ratio[0] + self.ratio[1], 2 * self.ratio[1])  # floor(y + 1/2)
        else:
            y = self * sc
            up = floor_real(y + Fraction(1, 2))
        tie = z3.And(treal(up) - treal(y) == z3.RealVal("1/2"), tint(up) % 2 == 1)
        r = wrap(z3.If(tie, tint(up) - 1, tint(up)))
        if n is None:
            return r
        return SymReal(treal(r) / sc, (r, sc)) if int(n) >= 0 else div(r, Fraction(sc))


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return E.decide(self.t)

    def __and__(self, o):
        return swrap(z3.And(self.t, tbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return swrap(z3.Or(self.t, tbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return swrap(z3.Xor(self.t, tbool(o)))

    def __invert__(self):
        return swrap(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return swrap(self.t == tbool(o))
        if _other(o):
            return cmp(self._i(), o, "==")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__
    __hash__ = None

    def item(self):
        return self


def seq_repeat(seq, n):
    from .seq import SymList
    return SymList.repeat(seq, n)


def cmp(a, b, op):
    if isinstance(a, SymBool):
        a = a._i()
    if isinstance(b, SymBool):
        b = b._i()
    if realish(a) or realish(b):
        ta, tb = treal(a), treal(b)
    else:
        ta, tb = tint(a), tint(b)
    c = {"==": lambda: ta == tb, "!=": lambda: ta != tb, "<": lambda: ta < tb, "<=": lambda: ta <= tb,
         ">": lambda: ta > tb, ">=": lambda: ta >= tb}[op]()
    return swrap(c)


def eq(a, b):
    """symbolic equality of two elements"""
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return swrap(tbool(a) == tbool(b))
    return cmp(a, b, "==")


def ite(c, a, b):
    if isinstance(c, z3.BoolRef):
        c = swrap(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return swrap(z3.If(c.t, tbool(a), tbool(b)))
    if realish(a) or realish(b):
        ta, tb = treal(a), treal(b)
    else:
        ta, tb = tint(a), tint(b)
    if ta.eq(tb):
        return a
    # decided under the path?  cheap syntactic check only
    return wrap(z3.If(c.t, ta, tb))


def div(a, b):
    """true division over the reals; division by zero yields an unspecified real (torch: inf/nan)"""
    if is_num(a) and is_num(b):
        return frac(a) / frac(b)
    if is_num(b):
        f = frac(b)
        if f == 0:
            raise ZeroDivisionError("division by zero")
        if isinstance(a, SymReal):
            return SymReal(a.t * z3.RealVal(str(1 / f)))
    ratio = None
    if not realish(a) and not realish(b):
        ratio = (a, b)
    if ratio is not None and isinstance(b, SymInt):
        if E.decide(b.t == 0):
            raise ZeroDivisionError("division by zero")
    return SymReal(_over(treal(a), treal(b)), ratio)


def _over(r, tb):
    """r / tb, one factor at a time: expanding a product hides its factors (see rat.factors)"""
    for f in (tb.children() if z3.is_mul(tb) else [tb]):
        r = r / f
    return r


def elem_div(a, b):
    """element division (tensors): never raises"""
    if is_num(b) and frac(b) == 0:
        return SymReal(E.uf("divzero", z3.RealSort(), z3.RealSort())(treal(a)))
    if is_num(a) and is_num(b):
        return frac(a) / frac(b)
    if is_num(b):
        return SymReal(treal(a) * z3.RealVal(str(1 / frac(b))))
    return SymReal(_over(treal(a), treal(b)))


def floordiv(a, b):
    if realish(a) or realish(b):
        if is_num(a) and is_num(b):
            return frac(a) // frac(b)
        r = floor_real(div(a, b))
        return SymReal(treal(r)) if is_sym(r) else Fraction(r)
    if is_num(a) and is_num(b):
        return a // b
    if is_num(b):
        b = int(b)
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            return floordiv(-a, -b)
        return swrap(tint(a) / z3.IntVal(b))
    tb = tint(b)
    if E.decide(tb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if not E.decide(tb > 0):
        return floordiv(-a, -b)
    return wrap(E.floordiv(tint(a), tb))


def mod(a, b):
    if is_num(a) and is_num(b):
        return a % b
    if not realish(a) and is_num(b) and int(b) > 0:
        return swrap(tint(a) % z3.IntVal(int(b)))
    return a - b * floordiv(a, b)


def floor_real(x):
    if is_num(x):
        f = frac(x)
        return f.numerator // f.denominator
    if isinstance(x, (SymInt,)):
        return x
    if x.ratio is not None:
        return floordiv(*x.ratio)
    return wrap(E.floor(x.t))


def trunc_real(x):
    if is_num(x):
        f = frac(x)
        return int(f)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    f = floor_real(x)
    return ite(cmp(x, 0, ">="), f, -floor_real(-x))


def ceil_(x):
    return -floor_real(-x)


def power(a, b):
    """a ** b over the reals: exact for integer constants, sqrt for 1/2, otherwise the uninterpreted pow"""
    if is_num(a) and is_num(b):
        fa, fb = frac(a), frac(b)
        if fb.denominator == 1 and abs(fb) <= 64:
            if fa == 0 and fb < 0:
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            r = fa ** int(fb)
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return int(r)
            return r
    if is_num(b):
        fb = frac(b)
        if fb.denominator == 1 and abs(fb) <= 12:
            n = int(fb)
            if n == 0:
                return 1 if not (realish(a) or realish(b)) else Fraction(1)
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            if realish(b) and not realish(r):
                r = SymReal(treal(r))
            return r if n > 0 else elem_div(1, r)
        if fb == Fraction(1, 2):
            return sqrt(a)
        if fb == Fraction(-1, 2):
            return elem_div(1, sqrt(a))
    return SymReal(E.pow(treal(a), treal(b)))


def sqrt(a):
    if is_num(a):
        f = frac(a)
        if f >= 0:
            from math import isqrt
            n, d = isqrt(f.numerator), isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    return SymReal(E.unary("sqrt", treal(a)))


def unary(name, a):
    return SymReal(E.unary(name, treal(a)))


def smin(*args):
    return _minmax(args, True)


def smax(*args):
    return _minmax(args, False)


def _minmax(args, is_min):
    r = args[0]
    for a in args[1:]:
        if is_num(r) and is_num(a):
            r = min(r, a) if is_min else max(r, a)
        else:
            c = cmp(r, a, "<=") if is_min else cmp(r, a, ">=")
            if isinstance(c, bool):
                r = r if c else a
            else:
                d = E.known(c.t)
                r = (r if d else a) if d is not None else ite(c, r, a)
    return r


# ---------------------------------------------------------------- opaque functionals
class Node:
    """An application of an uninterpreted functional (sum, median, pad extension, ...) to parameters and to
    functions given by a body over bound integer variables in [0, size)."""
    __slots__ = ("kind", "params", "sizes", "bodies", "const", "free", "bound", "facts")

    def __init__(self, kind, params, sizes, bodies, const, bound):
        self.kind, self.params, self.sizes, self.bodies, self.const, self.bound = kind, params, sizes, bodies, const, bound


class Quant:
    """forall j1..jn. body(j...) with instantiation trigger on applications of the function decl"""
    __slots__ = ("decl", "body", "name", "pick", "proved")

    def __init__(self, decl, body, name="", pick=None):
        self.decl, self.body, self.name, self.pick = decl, body, name, pick


def consts_of(t, cache={}):
    """names of 0-ary uninterpreted constants in a term"""
    k = t.get_id()
    r = cache.get(k)
    if r is not None and r[1].eq(t):
        return r[0]
    seen, out, st = set(), set(), [t]
    while st:
        u = st.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
        else:
            st.extend(u.children())
    cache[k] = (frozenset(out), t)
    return cache[k][0]


def apps_of(terms, decl_names):
    seen, out, st = set(), {}, list(terms)
    while st:
        u = st.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(u):
            if u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = u.decl().name()
                if n in decl_names:
                    out.setdefault(n, {})[i] = u
            st.extend(u.children())
    return {k: list(v.values()) for k, v in out.items()}


class Obl:
    def __init__(self, name, status, **kw):
        self.name, self.status = name, status
        self.info = kw


_LIFT = {}


def lift_ite(t):
    """x * If(c, a, b)  ->  If(c, x*a, x*b), everywhere"""
    k = t.get_id()
    h = _LIFT.get(k)
    if h is not None and h[0].eq(t):
        return h[1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [lift_ite(c) for c in t.children()]
        if z3.is_mul(t):
            r = _mulite(ch)
        elif any(not o.eq(n) for o, n in zip(t.children(), ch)):
            r = z3.Sum(ch) if z3.is_add(t) else z3.And(ch) if z3.is_and(t) else z3.Or(ch) if z3.is_or(t) else t.decl()(*ch)
    _LIFT[k] = (t, r)
    return r


def _mulite(ch, n=0):
    for i, c in enumerate(ch):
        if z3.is_app_of(c, z3.Z3_OP_ITE) and len(ch) > 1 and n < 6:
            a, b = list(ch), list(ch)
            a[i], b[i] = c.arg(1), c.arg(2)
            return z3.If(c.arg(0), _mulite(a, n + 1), _mulite(b, n + 1))
        if z3.is_add(c) and any(z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_mul(x) and any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in x.children()) for x in c.children()) and n < 6:
            parts = []
            for x in c.children():
                a = list(ch)
                a[i:i + 1] = x.children() if z3.is_mul(x) else [x]
                parts.append(_mulite(a, n + 1))
            return z3.Sum(parts)
    r = ch[0]
    for c in ch[1:]:
        r = r * c
    return r


class Engine:
    def __init__(self, timeout_ms=4000, budget_s=60.0, max_paths=4000, log=None):
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.log = log
        self.obls = []               # all obligations over all paths (final exploration)
        self.solver_time = 0.0
        self.queries = 0
        self.timeouts, self.patience, self.retries = 0, 1, 0
        self.backends = {}
        self.loop_state = {}         # persists over restarts
        self.paths = 0
        self.path_kinds = {}
        self.restarts = 0
        self.notes = set()
        self.cut_loops = set()
        self.trusted = set()
        self._eqcache = {}
        self.hooks = {}
        self.max_rounds = 3
        self.covers = self.vacuous = 0
        self.inputs = {}             # named input parameters for counter-models
        self.reset_path([])

    # ---- exploration
    def reset_path(self, prefix):
        self.pc = []
        self.quants = []
        self.prefix = list(prefix)
        self.trail = []
        self.decs = []
        self.pins = {}
        self.ctr = itertools.count()
        self.nodes = {}
        self.images, self.nograd = set(), 0     # gradient mode (contracts/C30.py)
        self.node_keys = {}
        self.divs = {}
        self.unaries = {}
        self.pows = {}
        self.floors = {}
        self.writes = []
        self.loop_seq = 0
        self.cutdepth = 0
        self.is_cut_path = False
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.uf_cache = {}
        self.bound_depth = 0
        self.path_notes = []
        self._eqcache = {}
        self.input_terms = {}
        self.input_tensors = set()
        self.in_sub = 0
        self.houdini = False
        self.lazy = []
        self.keep = []
        self.keepd = {}
        self.eqdepth = 0

    def explore(self, fn):
        """run fn on every path"""
        work = [[]]
        results = []                  # (trail, obligations, kind, covers, vacuous)
        while work:
            prefix = work.pop()
            if len(results) >= self.max_paths:
                self._collect(results)
                raise Unsupported("path limit")
            if time.time() > self.deadline:
                self._collect(results)
                raise Unsupported("time budget exhausted")
            self.reset_path(prefix)
            self.alternatives = []
            self.obls = []
            self.covers = self.vacuous = 0
            kind = "done"
            try:
                try:
                    fn()
                    self.path_cover()
                except PathEnd as e:
                    kind = "cut:" + (e.args[0] if e.args else "")
                except Unsupported:
                    results.append((self.trail, self.obls, "unsupported", 0, 0))
                    self._collect(results)
                    raise
                except Exception as ex:
                    self.path_exception(ex)
                    kind = "exception"
            except Restart as r:
                # only the paths through this loop head are explored again
                self.restarts += 1
                if self.restarts > 600 or time.time() > self.deadline:
                    self._collect(results)
                    raise Unsupported("loop invariant inference did not converge")
                t = list(r.args[0])
                n = len(t)
                results = [x for x in results if list(x[0][:n]) != t]
                work = [w for w in work if list(w[:n]) != t]
                # alternatives opened before the loop head stay
                work.extend(w for w in self.alternatives if list(w[:n]) != t)
                work.append(t)
                continue
            results.append((list(self.trail), self.obls, kind, self.covers, self.vacuous))
            work.extend(self.alternatives)
        self._collect(results)

    def _collect(self, results):
        self.paths = len(results)
        self.path_kinds = {}
        self.obls = []
        self.covers = self.vacuous = 0
        for t, o, k, c, v in results:
            self.obls += o
            self.path_kinds[k] = self.path_kinds.get(k, 0) + 1
            self.covers += c
            self.vacuous += v

    def path_cover(self):
        """vacuity guard: the assumptions of a completed path are satisfiable"""
        r = self._check(timeout=1500)
        if r == z3.unsat or (self.quants or self.lazy) and self._prove_nomodel(z3.BoolVal(False), False)[0] == "proved":
            # an infeasible combination of branches (fine), or contradictory assumptions (not)?
            dec = {c.get_id() for c in self.decs}
            self.pc = [c for c in self.pc if c.get_id() not in dec]
            self.quants = [q for q in self.quants if not getattr(q, "proved", False)]
            self.solver = z3.Solver()
            self.solver.add(*self.pc)
            if self._prove_nomodel(z3.BoolVal(False), False)[0] == "proved":
                self.vacuous += 1
        elif r == z3.sat or self.divs or self.unaries:
            self.covers += 1

    def path_exception(self, ex):
        """an exception left the code under verification where the contract promises a result"""
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        last = tb[-1].filename if tb else ""
        repo = [f for f in tb if "/torchimage/" in f.filename]
        own = "/torchimage/" not in last
        if own and (not repo or isinstance(ex, (AttributeError, TypeError, NameError, NotImplementedError, KeyError, z3.Z3Exception))):
            if self.log:
                traceback.print_exception(ex, file=self.log)
            raise Unsupported(f"{type(ex).__name__}: {str(ex)[:200]} at {os.path.basename(last)}:{tb[-1].lineno if tb else 0}")
        if not self.feasible():
            return
        self.obls.append(Obl(f"no exception ({type(ex).__name__} at {os.path.basename(repo[-1].filename)})", "refuted", cut=self.is_cut_path, exact=not self.is_cut_path and not self.quants,
                             model=self._model([], z3.BoolVal(True)), exc=f"{type(ex).__name__}: {str(ex)[:200]}"))

    def fresh(self, base, sort=None):
        n = f"{base}!{next(self.ctr)}"
        sort = z3.IntSort() if sort is None else sort
        return z3.Const(n, sort)

    def fresh_int(self, base="n", lo=None, hi=None):
        v = self.fresh(base)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SymInt(v)

    frame_only, frame_inputs = False, None

    def new_input(self, name, scalar=True):
        if not scalar:
            if name in self.input_tensors:
                raise SystemError(f"harness error: input tensor {name} declared twice on one path")
            self.input_tensors.add(name)
            return
        if name in self.input_terms:
            raise SystemError(f"harness error: input {name} declared twice on one path")

    def input_int(self, name, lo=None, hi=None):
        self.new_input(name)
        v = z3.Int(name)
        self.input_terms[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SymInt(v)

    def input_real(self, name):
        self.new_input(name)
        v = z3.Real(name)
        self.input_terms[name] = v
        return SymReal(v)

    def input_bool(self, name):
        self.new_input(name)
        v = z3.Bool(name)
        self.input_terms[name] = v
        return SymBool(v)

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf_cache:
            self.uf_cache[k] = z3.Function(name, *sorts)
        return self.uf_cache[k]

    def fresh_fn(self, base, rank, sort):
        n = f"{base}!{next(self.ctr)}"
        return z3.Function(n, *([z3.IntSort()] * rank), sort) if rank else z3.Const(n, sort)

    # ---- path condition
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd("infeasible")
            return
        if isinstance(c, Sym):
            c = tbool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd("infeasible")
        self.pc.append(c)
        self.solver.add(c)

    def assume_quant(self, q):
        self.quants.append(q)

    def _check(self, *conds, solver=None, timeout=None):
        s = solver or self.solver
        t0 = time.time()
        s.set("timeout", int((timeout or 2000) * self.patience))
        try:
            r = s.check(*conds)
        except z3.Z3Exception as ex:
            r = z3.unknown
        if r == z3.unknown:
            self.timeouts += 1
        self.solver_time += time.time() - t0
        self.queries += 1
        return r

    def known(self, c):
        """True/False if the path condition decides c, else None (no fork)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self._check(z3.Not(c), timeout=500) == z3.unsat:
            return True
        if self._check(c, timeout=500) == z3.unsat:
            return False
        return None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        pos = len(self.trail)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            forced = d in ("T!", "F!", "T*", "F*")
            v = d[0] == "T"
            self.trail.append(d)
        else:
            ft = self._check(c)
            ff = self._check(z3.Not(c))
            mark = "!"
            if self.lazy and ft != z3.unsat and ff != z3.unsat:
                s = z3.Solver()
                s.add(*self._linear(self.pc + self.lazy + self._nl_lemmas([c]) + [c]))
                ft = self._check(solver=s, timeout=500)
                s = z3.Solver()
                s.add(*self._linear(self.pc + self.lazy + self._nl_lemmas([c]) + [z3.Not(c)]))
                ff = self._check(solver=s, timeout=500)
                mark = "*"
            if ft == z3.unsat and ff == z3.unsat:
                raise PathEnd("infeasible")
            if ff == z3.unsat:
                d, v, forced = "T" + mark, True, True
            elif ft == z3.unsat:
                d, v, forced = "F" + mark, False, True
            else:
                d, v, forced = "T", True, False
                self.alternatives.append(self.trail + ["F"])
            self.trail.append(d)
        cc = c if v else z3.Not(c)
        if not forced or d[-1] == "*":   # (a choice implied by the lemmas about products is kept as a fact)
            self.pc.append(cc)
            self.solver.add(cc)
            self.decs.append(cc)
            k = c if v else (c.arg(0) if z3.is_not(c) else None)
            if k is not None and z3.is_eq(k):  # a path on which a size has a literal value
                for a, b in ((k.arg(0), k.arg(1)), (k.arg(1), k.arg(0))):
                    if z3.is_int_value(b) and z3.is_const(a) and a.sort() == z3.IntSort() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        self.pins[a.decl().name()] = b
        return v

    def choose(self, n):
        """nondeterministic choice among n alternatives (an unconstrained fork)"""
        for i in range(n - 1):
            v = self.fresh("choice", z3.BoolSort())
            if self.decide(v):
                return i
        return n - 1

    def unique_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self._check() != z3.sat:
            raise Unsupported("symbolic value used where CPython needs a concrete integer")
        v = self.solver.model().eval(t, model_completion=True)
        if not z3.is_int_value(v):
            raise Unsupported("symbolic value used where CPython needs a concrete integer")
        if self._check(t != v) == z3.unsat:
            return v.as_long()
        raise Unsupported("symbolic value used where CPython needs a concrete integer")

    def feasible(self):
        return self._check(timeout=3000) != z3.unsat

    # ---- special functions
    def floordiv(self, a, b):
        a, b = z3.simplify(a, som=True), z3.simplify(b, som=True)
        k = (a.get_id(), b.get_id())
        if k in self.divs:
            return self.divs[k][0]
        if self.free(a) or self.free(b):     # under a bound variable: a function of its operands, without facts
            return self.uf("floordivU", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        q = self.fresh("fdiv")
        self.divs[k] = (q, a, b)
        # b > 0 here.  Linear consequences go to the path condition, the defining facts are used on demand
        for c in (0, 1, 2, 3):
            self.assume((q >= c) == (a >= c * b))
        self.assume((q >= -1) == (a >= -b))
        self.lazy.append(z3.And(q * b <= a, a < q * b + b))
        return q

    def floor(self, x):
        k = z3.simplify(x, som=True)
        if z3.is_app_of(k, z3.Z3_OP_TO_REAL):
            return k.arg(0)
        i = k.get_id()
        if i in self.floors:
            return self.floors[i][0]
        if self.free(k):
            return self.uf("floorU", z3.RealSort(), z3.IntSort())(k)
        n = self.fresh("floor")
        self.floors[i] = (n, k)
        self.assume(z3.And(z3.ToReal(n) <= k, k < z3.ToReal(n) + 1))
        return n

    def unary(self, name, x):
        x = z3.simplify(x, som=True)
        k = (name, x.get_id())
        if k in self.unaries:
            return self.unaries[k][0]
        f = self.uf(name, z3.RealSort(), z3.RealSort())
        r = f(x)
        self.unaries[k] = (r, x)
        if name == "sqrt":
            self.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif name == "exp":
            self.assume(r > 0)
        return r

    def pow(self, a, b):
        a, b = z3.simplify(a, som=True), z3.simplify(b, som=True)
        f = self.uf("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        r = f(a, b)
        k = (a.get_id(), b.get_id())
        if k not in self.pows:
            self.pows[k] = (r, a, b)
            if self.bound_depth or self.hooks.get("no_pow_facts"):  # inside a sum's body: no facts, pow is just a function there
                return r
            self.assume(z3.Implies(a > 0, r > 0))
            self.assume(z3.Implies(b == 1, r == a))
            self.assume(z3.Implies(b == 0, r == 1))
            self.assume(z3.Implies(b == 2, r == a * a))
        return r

    # ---- functionals
    def node(self, kind, params, funcs, sort=None, facts=None):
        """params: list of z3 terms; funcs: list of (sizes, f(*bound vars) -> term).  Returns the z3 constant."""
        d = self.bound_depth
        sizes, bodies, bounds = [], [], []
        for szs, f in funcs:
            bvs = [z3.Int(f"b!{d}!{i}") for i in range(len(szs))]
            self.bound_depth = d + 1
            try:
                body = f(*bvs)
            finally:
                self.bound_depth = d
            bodies.append(z3.simplify(term(body), som=True))
            sizes.append([z3.simplify(tint(s) if not isinstance(s, z3.ExprRef) else s, som=True) for s in szs])
            bounds.append(bvs)
        params = [z3.simplify(p, som=True) for p in params]
        key = (kind, tuple(p.get_id() for p in params), tuple(tuple(s.get_id() for s in ss) for ss in sizes),
               tuple(b.get_id() for b in bodies))
        n = self.node_keys.get(key)
        if n is None:
            c = self.fresh("N_" + kind.split(":")[0], z3.RealSort() if sort is None else sort)
            n = Node(kind, params, sizes, bodies, c, bounds)
            fr = set()
            for p in params:
                fr |= self.free(p)
            for ss in sizes:
                for s in ss:
                    fr |= self.free(s)
            for b, bv in zip(bodies, bounds):
                fr |= self.free(b) - {v.decl().name() for v in bv}
            n.free = fr
            self.node_keys[key] = n
            self.nodes[c.decl().name()] = n
            if facts:
                facts(n)
        return n.const

    def free(self, t):
        """bound variables a term depends on (also through node constants)"""
        out = set()
        for c in consts_of(t):
            if c.startswith("b!"):
                out.add(c)
            elif c in self.nodes:
                out |= self.nodes[c].free
        return out

    def depends(self, t, names):
        return bool(self.free(t) & names)

    def sum_(self, sizes, f):
        """Sum over the box sizes of f(*idx) (z3 Real term). Constant factors are pulled out, sums split."""
        sizes = [tint(s) if not isinstance(s, z3.ExprRef) else s for s in sizes]
        sizes = [z3.simplify(s, som=True) for s in sizes]
        if self.pins:
            sizes = [self.pins.get(s.decl().name(), s) if z3.is_const(s) and not z3.is_int_value(s) else s for s in sizes]
        sizes1 = [s for s in sizes if not (z3.is_int_value(s) and s.as_long() == 1)]
        if len(sizes1) != len(sizes):
            g = f
            pos = [i for i, s in enumerate(sizes) if not (z3.is_int_value(s) and s.as_long() == 1)]

            def f(*bv, g=g, pos=pos, n=len(sizes)):
                full = [z3.IntVal(0)] * n
                for p, b in zip(pos, bv):
                    full[p] = b
                return g(*full)
            sizes = sizes1
        if not sizes:
            return f()
        conc = [i for i, s in enumerate(sizes) if z3.is_int_value(s)]
        if conc:
            tot = 1
            for i in conc:
                tot *= sizes[i].as_long()
            if tot <= 64:
                rest = [s for i, s in enumerate(sizes) if i not in conc]
                acc = None
                for combo in itertools.product(*[range(sizes[i].as_long()) for i in conc]):
                    def g(*bv, combo=combo):
                        full, it = [None] * len(sizes), iter(bv)
                        for i, c in zip(conc, combo):
                            full[i] = z3.IntVal(c)
                        for i in range(len(sizes)):
                            if full[i] is None:
                                full[i] = next(it)
                        return f(*full)
                    t = self.sum_(rest, g) if rest else g()
                    acc = t if acc is None else acc + t
                return acc if acc is not None else z3.RealVal(0)
        d = self.bound_depth
        bvs = [z3.Int(f"b!{d}!{i}") for i in range(len(sizes))]
        names = {v.decl().name() for v in bvs}
        self.bound_depth = d + 1
        try:
            body = z3.simplify(f(*bvs), som=True)
        finally:
            self.bound_depth = d
        body = self._ranged(body, bvs, sizes)
        terms = []
        for mono in (body.children() if z3.is_add(body) else [body]):
            fac = list(mono.children()) if z3.is_mul(mono) else [mono]
            out, inn = [], []
            for u in fac:
                (inn if self.depends(u, names) else out).append(u)
            coef = z3.RealVal(1)
            for u in out:
                coef = coef * u
            if not inn:
                cnt = z3.RealVal(1)
                for s in sizes:
                    cnt = cnt * z3.ToReal(z3.If(s >= 0, s, 0))
                terms.append(coef * cnt)
                continue
            den = [k for k, u in enumerate(inn) if z3.is_div(u) and not self.depends(u.arg(1), names)]
            if den:  # a denominator that does not vary: sum of u/v is (sum of u)/v
                w = coef
                num = z3.RealVal(1)
                for k, u in enumerate(inn):
                    num = num * (u.arg(0) if k in den else u)
                num = z3.simplify(num, som=True)
                w = w * self.sum_(sizes, lambda *b, num=num: z3.substitute(num, *zip(bvs, b)))
                for k in den:
                    w = w / inn[k].arg(1)
                terms.append(w)
                continue
            w = inn[0]
            for u in inn[1:]:
                w = w * u
            w = z3.simplify(w, som=True)
            c = self.node("sum", [], [(sizes, lambda *b, w=w: w)])
            terms.append(coef * c)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    # ---- proving
    def prove(self, goal, name, extra=None, record=True, light=False):
        """discharge pc |= goal; returns True/False/None and records the obligation"""
        if self.frame_only and record and not self.houdini:
            return True                     # another property's obligation (see contracts/C27.py)
        if isinstance(goal, Sym) or isinstance(goal, bool):
            goal = tbool(goal)
        grad = record and not self.houdini and self.hooks.get("grad")
        if grad:
            from .tensor import image_uses
            uses = image_uses(self, goal)
            if not uses:
                return True                 # says nothing about image values (see contracts/C30.py)
            if "detached" not in uses and "havoc" not in uses:
                self.backends["no detached value occurs"] = self.backends.get("no detached value occurs", 0) + 1
                self.obls.append(Obl(name, "proved", cut=self.is_cut_path, by="no detached value occurs"))
                return True
        g = z3.simplify(goal)
        t0 = self.timeouts
        status, info = self._prove(g, light=light)
        if status != "proved" and record and not self.houdini and not light and self.timeouts > t0 and self.retries < 4:
            # a query ran out of time (a busy machine, maybe): once more with more of it
            self.retries += 1
            self.patience = 4
            self.known_cache.clear()
            for k in [k for k, h in self._eqcache.items() if not h[0]]:
                del self._eqcache[k]
            try:
                status, info = self._prove(g, light=light)
            finally:
                self.patience = 1
        if grad and status == "refuted" and "detached" not in uses:
            status = "unknown"
        if record:
            exact = not self.is_cut_path and not self.quants and not self.pows and not [k for k in self.unaries if k[0] != "sqrt"] and not self._nodes_in([g] + self.pc)
            o = Obl(name, status, cut=self.is_cut_path, exact=exact, **info)
            self.obls.append(o)
            if self.log and status != "proved":
                print("  OBL", name, status, str(info)[:400], file=self.log, flush=True)
        return status == "proved"

    def lemma(self, goal, name):
        """prove, then use"""
        fo, self.frame_only = self.frame_only, False
        try:
            ok = self.prove(goal, name, record=not fo)
        finally:
            self.frame_only = fo
        if ok:
            n = len(self.pc)
            self.assume(goal)
            self.decs += self.pc[n:]
            return True
        return False

    def _prove(self, g, light=False):
        if z3.is_true(g):
            self.backends["simplify"] = self.backends.get("simplify", 0) + 1
            return "proved", {"by": "simplify"}
        if not self.houdini and not light and z3.is_eq(g) and z3.is_arith(g.arg(0)) and self._has_div(g):
            from . import rat
            t0 = time.time()
            ok = rat.equal(self, g)
            self.solver_time += time.time() - t0
            if ok:
                self.backends["rational normal form"] = self.backends.get("rational normal form", 0) + 1
                return "proved", {"by": "rational normal form"}
        neg = z3.Not(g)
        used_nodes = self._nodes_in([g] + self.pc)
        relevant_quants = list(self.quants)
        r = self._check(neg, timeout=1500 if (relevant_quants or used_nodes) else (800 if self.divs else self.timeout_ms))
        if r == z3.unsat:
            self.backends["z3"] = self.backends.get("z3", 0) + 1
            return "proved", {"by": "z3"}
        if light:
            return ("refuted" if r == z3.sat else "unknown"), {}
        extras = []
        if relevant_quants or used_nodes:
            rounds = self.max_rounds
            done = set()
            model_r = r
            for rd in range(rounds):
                if time.time() > self.deadline:
                    break
                new = self._instances([g] + self.pc + extras, done)
                neweq = self._node_equalities([g] + self.pc + extras)
                new += [e for e in neweq if not any(e.eq(x) for x in extras)]
                if not new and rd > 0:
                    break
                extras += new
                s = z3.Solver()
                s.add(*self.pc)
                s.add(*extras)
                s.add(neg)
                r = self._check(solver=s, timeout=self.timeout_ms)
                if r == z3.unsat:
                    self.backends["z3"] = self.backends.get("z3", 0) + 1
                    return "proved", {"by": "z3", "inst": len(extras)}
                if not new:
                    break
        if not self.houdini and z3.is_eq(g) and z3.is_arith(g.arg(0)):
            from . import rat
            t0 = time.time()
            ok = rat.equal(self, g, extras)
            self.solver_time += time.time() - t0
            if ok:
                self.backends["rational normal form"] = self.backends.get("rational normal form", 0) + 1
                return "proved", {"by": "rational normal form"}
        extras = extras + self.lazy
        if self.houdini and not self.hooks.get("nl_houdini"):
            return ("refuted" if r == z3.sat else "unknown"), {}
        lem = self._nl_lemmas([g] + extras)
        s = z3.Solver()
        lin = (lem or r == z3.unknown) and (not self.houdini or self.hooks.get("nl_houdini"))
        if lin:
            s.add(*self._linear(self.pc + extras + lem + [neg]))
        if lin and self._check(solver=s, timeout=self.timeout_ms) == z3.unsat:
            self.backends["z3"] = self.backends.get("z3", 0) + 1
            return "proved", {"by": "z3-linear"}
        if self.houdini:
            return ("refuted" if r == z3.sat else "unknown"), {}
        if lem:
            s = z3.Solver()
            s.add(*self.pc)
            s.add(*extras)
            s.add(*lem)
            s.add(neg)
            rr = self._check(solver=s, timeout=self.timeout_ms)
            if rr == z3.unsat:
                self.backends["z3"] = self.backends.get("z3", 0) + 1
                return "proved", {"by": "z3+lemmas"}
            extras = extras + lem
            if rr == z3.sat:
                r = rr
        if r == z3.unknown or lem:
            c = self._cvc5(extras + [neg])
            if c == "unsat":
                self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
                return "proved", {"by": "cvc5"}
            if r == z3.unknown:
                m = self._model(extras, neg)
                return ("refuted" if (m and c == "sat") else "unknown"), {"model": m}
        return "refuted", {"model": self._model(extras, neg)}

    @staticmethod
    def _has_div(t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
                return True
            st += x.children()
        return False

    def _cvc5(self, conds):
        s = z3.Solver()
        s.add(*self.pc)
        s.add(*conds)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        try:
            p = subprocess.run([CVC5, "--lang=smt2", f"--tlimit={int(self.timeout_ms)}", "--nl-ext-tplanes"], input=txt, capture_output=True,
                               text=True, timeout=self.timeout_ms / 1000 + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t0
            self.queries += 1

    def _model(self, extras, neg):
        """a small counter-model: values of the named inputs"""
        ins = [v for v in self.input_terms.values()]
        ints = [v for v in ins if z3.is_int(v)]
        for bound in (4, 8, 30, None):
            s = z3.Solver()
            s.add(*self.pc)
            s.add(*extras)
            s.add(neg)
            if bound is not None:
                for v in ints:
                    s.add(v <= bound, v >= -bound)
            r = self._check(solver=s, timeout=1500)
            if r == z3.sat:
                m = s.model()
                out = {}
                for k, v in self.input_terms.items():
                    x = m.eval(v, model_completion=True)
                    if z3.is_int_value(x):
                        out[k] = x.as_long()
                    elif z3.is_rational_value(x):
                        out[k] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                    elif z3.is_true(x) or z3.is_false(x):
                        out[k] = z3.is_true(x)
                    else:
                        try:
                            out[k] = float(x.approx(10).as_fraction())
                        except Exception:
                            out[k] = str(x)
                return out
        return None

    def _nodes_in(self, terms):
        out, seen, st = [], set(), list(terms)
        while st:
            t = st.pop()
            for c in sorted(consts_of(t)):
                if c in self.nodes and c not in seen:
                    seen.add(c)
                    out.append(self.nodes[c])
        return out

    def _instances(self, terms, done):
        if not self.quants:
            return []
        names = {q.decl.name() for q in self.quants}
        apps = apps_of(terms, names)
        new = []
        for qi, q in enumerate(self.quants):
            for a in apps.get(q.decl.name(), []):
                args = [z3.simplify(a.arg(i), som=True) for i in range(a.num_args())]
                k = (qi,) + tuple(x.get_id() for x in args)
                if k in done:
                    continue
                done.add(k)
                self.keep.extend(args)
                inst = q.body(*args)
                if inst is None:
                    continue
                inst = z3.simplify(inst)
                if not z3.is_true(inst):
                    new.append(inst)
                if len(new) > 400:
                    return new
        return new

    def pc_key(self):
        """identifies the current path condition"""
        ks = []
        for c in self.pc:
            k = c.get_id()
            if k not in self.keepd:
                self.keepd[k] = c
            ks.append(k)
        return tuple(ks)

    def _node_equalities(self, terms):
        ns = self._nodes_in(terms)
        out = []
        pck = self.pc_key()
        groups = {}
        for n in ns:
            groups.setdefault((n.kind, len(n.params), tuple(len(s) for s in n.sizes)), []).append(n)
        for g in groups.values():
            if len(g) > 60:
                g = g[:60]
            for a, b in itertools.combinations(g, 2):
                k = (a.const.decl().name(), b.const.decl().name(), pck, len(self.quants))
                h = self._eqcache.get(k)
                if h is None or not h[0] and h[1] > self.eqdepth:  # a failure holds for the nesting depth (or more) it was found at
                    d = self.eqdepth
                    h = self._eqcache[k] = (self._node_eq(a, b), d)
                if h[0]:
                    out.append(a.const == b.const)
        return out

    def _node_eq(self, a, b):
        if self.eqdepth > 6 or time.time() > self.deadline:
            return False
        self.eqdepth += 1
        try:
            for p, q in zip(a.params, b.params):
                if p.eq(q):
                    continue
                if p.sort() != q.sort():
                    return False
                if not self._sub(p == q, light=not (self._nodes_in([p, q]))):
                    return False
            for sa, sb in zip(a.sizes, b.sizes):
                for p, q in zip(sa, sb):
                    if not p.eq(q) and not self._sub(p == q, light=True):
                        return False
            for ba, bb, va, vb, sz in zip(a.bodies, b.bodies, a.bound, b.bound, a.sizes):
                if ba.eq(bb) and all(x.eq(y) for x, y in zip(va, vb)):
                    continue
                for x, y in zip(va, vb):
                    if not x.eq(y):
                        if self._nodes_in([bb]):
                            return False
                        bb = z3.substitute(bb, (y, x))
                rng = [z3.And(v >= 0, v < s) for v, s in zip(va, sz)]
                g1, g2 = z3.simplify(ba == bb, som=True), z3.simplify(ba == bb)
                if not self._sub(g1, hyps=rng) and (g1.eq(g2) or not self._rat_equal(g2, rng)):
                    return False
            return True
        finally:
            self.eqdepth -= 1

    def _rat_equal(self, goal, hyps):
        """field arithmetic on the unexpanded terms (expanding them loses the factors of the denominators)"""
        from . import rat
        n = len(self.pc)
        self.solver.push()
        try:
            for h in hyps:
                self.pc.append(h)
                self.solver.add(h)
            return rat.equal(self, goal, self._node_equalities([goal] + self.pc) if self._nodes_in([goal]) else ())
        finally:
            del self.pc[n:]
            self.solver.pop()

    def _sub(self, goal, hyps=(), light=False):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        n = len(self.pc)
        self.solver.push()
        self.in_sub += 1
        try:
            for h in hyps:
                self.pc.append(h)
                self.solver.add(h)
            old = self.timeout_ms
            self.timeout_ms = min(old, 2000)
            try:
                st, _ = self._prove_nomodel(goal, light)
            finally:
                self.timeout_ms = old
            return st == "proved"
        finally:
            self.in_sub -= 1
            del self.pc[n:]
            self.solver.pop()

    def _prove_nomodel(self, g, light):
        m = self._model
        self._model = lambda *a: None
        c = self._cvc5
        self._cvc5 = lambda *a: "unknown"
        try:
            return self._prove(g, light=light)
        finally:
            self._model = m
            self._cvc5 = c

    def _products(self, t):
        """[(factor, rest)] of the integer products in a term (cached)"""
        c = self.__dict__.setdefault("_prodcache", {})
        h = c.get(t.get_id())
        if h is not None and h[0].eq(t):
            return h[1]
        out, st, seen = [], [lift_ite(t)], set()
        while st:
            u = st.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_mul(u) and z3.is_int(u):
                ch = u.children()
                for i, f in enumerate(ch):
                    rest = [x for j, x in enumerate(ch) if j != i]
                    r = rest[0]
                    for x in rest[1:]:
                        r = r * x
                    out.append((f, r))
            if z3.is_app(u):
                st.extend(u.children())
        c[t.get_id()] = (t, out)
        return out

    def _nl_lemmas(self, terms):
        """multiplicative lemmas for floor divisions by symbolic divisors: t<=q <-> t*b<=a for the integer terms t
        that are multiplied by b somewhere in the goal"""
        if not self.divs:
            return []
        out = []
        cands = {}
        for u in list(terms) + self.lazy + list(self.pc):
            for f, r in self._products(u):
                cands.setdefault(f.get_id(), (f, {}))[1][r.get_id()] = r
        cache = self.__dict__.setdefault("_lemcache", {})

        def lemma(kind, mk, *key):
            k = (kind,) + tuple(x.get_id() for x in key)
            h = cache.get(k)
            if h is None:
                h = cache[k] = (mk(), key)
            out.append(h[0])
        ds = list(self.divs.values())
        for (q, a, b) in ds:
            ts = list(dict(cands.get(b.get_id(), (None, {}))[1]).values())[:12]
            for (q2, a2, b2) in ds:
                if b2.eq(b) and not q2.eq(q):
                    ts += [q2 + c for c in (-1, 0, 1)] + [c - q2 for c in (-1, 0, 1)]
            ts = ts[:40]
            for h in self.hooks.get("nl_diff", ()):   # terms a harness asks to be compared with the quotients
                ts += [h + c for c in (-1, 0, 1)] + [h - q2 + c for (q2, a2, b2) in ds if b2.eq(b) and not q2.eq(q) for c in (-1, 0, 1)]
            for t in ts:
                if t.eq(q):
                    continue
                lemma("div", lambda: z3.And(z3.Implies(b > 0, (t <= q) == (t * b <= a)), z3.Implies(b > 0, (t > q) == (t * b >= q * b + b))), t, q, a, b)
        if self.hooks.get("nl_mono"):
            for b in {d[2].get_id(): d[2] for d in ds}.values():
                ts = list(dict(cands.get(b.get_id(), (None, {}))[1]).values())[:16]
                ts = [t for t in ts if not z3.is_int_value(t)]
                for i, t in enumerate(ts):
                    lemma("sign", lambda: z3.Implies(b > 0, z3.And((t >= 0) == (t * b >= 0), (t > 0) == (t * b >= b))), t, b)
                    for u in ts[i + 1:]:
                        lemma("mono", lambda: z3.Implies(b > 0, z3.And(z3.Implies(t <= u, t * b <= u * b), z3.Implies(t < u, t * b + b <= u * b),
                                                                       z3.Implies(u <= t, u * b <= t * b), z3.Implies(u < t, u * b + b <= t * b))), t, u, b)
        return out

    def _linear(self, conds):
        """replace nonlinear monomials by fresh constants (sound for unsat); cached per conjunct"""
        st = self.__dict__.setdefault("_linst", ({}, {}, {}))
        memo, mons, cache = st
        facts = []

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k][0]
            if z3.is_app(t) and t.num_args():
                ch = [go(c) for c in t.children()]
                if z3.is_mul(t):
                    num = [c for c in ch if z3.is_int_value(c) or z3.is_rational_value(c)]
                    oth = [c for c in ch if not (z3.is_int_value(c) or z3.is_rational_value(c))]
                    if len(oth) > 1:
                        key = tuple(sorted(c.get_id() for c in oth))
                        if key not in mons:
                            mons[key] = (z3.Const(f"mon@{len(mons)}", t.sort()), oth)
                            if len(oth) == 2 and oth[0].eq(oth[1]):
                                facts.append(mons[key][0] >= 0)
                        r = mons[key][0]
                        for c in num:
                            r = c * r
                        r = r
                    else:
                        r = z3.substitute(t, *[(o, n) for o, n in zip(t.children(), ch) if not o.eq(n)]) if any(not o.eq(n) for o, n in zip(t.children(), ch)) else t
                else:
                    if any(not o.eq(n) for o, n in zip(t.children(), ch)):
                        r = t.decl()(*ch) if not (z3.is_add(t) or z3.is_and(t) or z3.is_or(t)) else (z3.Sum(ch) if z3.is_add(t) else z3.And(ch) if z3.is_and(t) else z3.Or(ch))
                    else:
                        r = t
            else:
                r = t
            memo[k] = (r, t)
            return r
        out = []
        for c in conds:
            h = cache.get(c.get_id())
            if h is None or not h[0].eq(c):
                del facts[:]
                h = cache[c.get_id()] = (c, [go(z3.simplify(lift_ite(c), som=True))])
            out += h[1]
        return out + [m >= 0 for m, oth in mons.values() if len(oth) == 2 and oth[0].eq(oth[1])]

def _init_more(self):
    import weakref
    self.obj_counter = 0
    self.objs = {}
    self.loop_stack = []
    self.known_cache = {}
    self.bounded_cut = False


_orig_reset = Engine.reset_path


def _reset_path(self, prefix):
    _orig_reset(self, prefix)
    _init_more(self)


def _note_write(self, ob):
    if getattr(ob, "untracked", False):
        raise Unsupported("write to a tensor variable that may name another object on entry of the loop")
    for lp in self.loop_stack:
        if ob.oid < lp.born and ob.oid not in lp.st["havoc"]:
            lp.st["havoc"].add(ob.oid)
            lp.st["dropped"].clear()
            raise Restart(lp.key[2])


def _live(self):
    return [o for o in (r() for r in list(self.objs.values())) if o is not None]


def _known_cached(self, c):
    if self.in_sub:
        return None
    k = (c.get_id(), self.pc_key())
    r = self.known_cache.get(k)
    if r is None:
        r = (self.known(c), c)
        self.known_cache[k] = r
    return r[0]


def _dbg(self, *a):
    if self.log:
        print("  #", *a, file=self.log, flush=True)


Engine.reset_path = _reset_path
Engine.note_write = _note_write
Engine.live_objs = _live
Engine.known_cached = _known_cached
Engine.dbg = _dbg


def _sum_pos(self, sizes, f, name, strict=True):
    """lemma: every term of the sum is positive (>= 0) and the box is not empty, hence the sum is positive (>= 0).  The premises are proved here."""
    sizes = [tint(s) if not isinstance(s, z3.ExprRef) else s for s in sizes]
    ok = True
    idx = []
    if strict:
        for s in sizes:
            ok = self.prove(s >= 1, f"{name}: the sum is not empty") and ok
    for s in sizes:
        i = self.fresh("sp", z3.IntSort())
        idx.append(i)
    g = z3.And([z3.And(i >= 0, i < s) for i, s in zip(idx, sizes)])
    t = treal(f(*idx))
    ok = self.prove(z3.Implies(g, t > 0 if strict else t >= 0), f"{name}: every term is {'positive' if strict else 'non-negative'}") and ok
    s = self.sum_(sizes, f)
    if ok:
        self.assume(s > 0 if strict else s >= 0)
    return s


Engine.sum_pos = _sum_pos


def _ranged(self, body, bvs, sizes):
    """decides the conditions of if-then-else terms in a body that the ranges of its bound variables (and the path condition) settle"""
    for _ in range(4):
        conds, seen, st = [], set(), [body]
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.decl().kind() == z3.Z3_OP_ITE:
                conds.append(t.arg(0))
            st.extend(t.children())
        if not conds or len(conds) > 40:
            return body
        rng = [z3.And(v >= 0, v < s) for v, s in zip(bvs, sizes)]
        names = {v.decl().name() for v in bvs}
        sub = []
        for c in conds:
            if not (consts_of(c) & names):
                continue
            if self._check(*rng, z3.Not(c), timeout=200) == z3.unsat:
                sub.append((c, z3.BoolVal(True)))
            elif self._check(*rng, c, timeout=200) == z3.unsat:
                sub.append((c, z3.BoolVal(False)))
        if not sub:
            return body
        body = z3.simplify(z3.substitute(body, *sub), som=True)
    return body


Engine._ranged = _ranged
