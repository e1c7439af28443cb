"""specification of one edge component"""
from common import *
import poolspec
from poolspec import getter


def component(e, get, shape, edge_axis, smooth_axes, edge, smooth, pad):
    """edge, smooth: (weight function, length); pad: i -> (key, params) of the padder's entry for one axis of its list, or None"""
    get, shape = poolspec.separable(e, get, shape, [edge_axis], [edge], [1], pad)
    axes = [a for a in smooth_axes if a != edge_axis]
    return poolspec.separable(e, get, shape, axes, [smooth] * len(axes), [1] * len(axes), pad)


def ker(e, kind, base):
    """-> (argument, (weight function, length))"""
    from dv.tensor import pick
    if kind == "sym":
        from dv.seq import SymList
        k = e.input_int(base + "_len", 1)
        f = e.uf(base, z3.IntSort(), z3.RealSort())
        return SymList.make(k, lambda i: core.SymReal(f(tint(i)))), (lambda b: f(tint(b) if not isinstance(b, z3.ExprRef) else b), k)
    vals = [e.input_real(f"{base}{j}") for j in range(kind)] if isinstance(kind, int) else list(kind)
    if not vals:
        return [], (None, 0)
    return list(vals) if isinstance(kind, int) else kind, ((lambda b: treal(pick([lambda v=v: v for v in vals], core.wrap(b) if isinstance(b, z3.ExprRef) else b))), len(vals))


def padkey(pad):
    return None if pad is None else (lambda i: (pad, []))
