"""math, for symbolic values"""
import math as _m, types
from . import core
from .core import Sym, SymInt, SymReal, Unsupported, is_num


class _Math(types.ModuleType):
    def __getattr__(self, name):
        f = getattr(_m, name)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, Sym) or hasattr(x, "__dv_item__") for x in a):
                raise Unsupported(f"math.{name} of a symbolic value")
            return f(*a)
        return g


def _v(x):
    return x.__dv_item__() if hasattr(x, "__dv_item__") else x


math = _Math("math")
math.ceil = lambda x: core.ceil_(_v(x)) if isinstance(_v(x), Sym) else _m.ceil(x)
math.floor = lambda x: core.floor_real(_v(x)) if isinstance(_v(x), Sym) else _m.floor(x)
math.trunc = lambda x: core.trunc_real(_v(x)) if isinstance(_v(x), Sym) else _m.trunc(x)
math.sqrt = lambda x: core.sqrt(_v(x))
math.exp = lambda x: core.unary("exp", _v(x)) if isinstance(_v(x), Sym) else _m.exp(x)
math.log10 = lambda x: core.unary("log10", _v(x))
math.log = lambda x, *b: core.unary("log", _v(x)) if not b else core.elem_div(core.unary("log", _v(x)), core.unary("log", _v(b[0])))
math.prod = lambda xs, start=1: __import__("functools").reduce(lambda a, b: a * b, list(xs), start)
math.pow = lambda a, b: core.power(_v(a), _v(b))
math.fabs = lambda x: abs(_v(x))
math.isclose = lambda a, b, **k: core.eq(a, b)
