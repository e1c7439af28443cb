"""Shared harness helpers."""
import z3
from dv import core
from dv.core import tint, treal, tbool, cmp, eq, wrap
from dv.tensor import SymTensor, FLOAT64, FLOAT32, INT64, UINT8, BOOL


class H:
    """one verification task: fn(e, L) is executed on every path of the code it calls"""

    def __init__(self, name, fn, budget=60, timeout_ms=4000, to_case=None, hooks=None, bounded=None, max_paths=3000, tiers=("quick", "thorough"),
                 expect_exc=False):
        self.name, self.fn, self.budget, self.timeout_ms = name, fn, budget, timeout_ms
        self.to_case, self.hooks, self.bounded, self.max_paths, self.tiers = to_case, hooks or {}, bounded, max_paths, tiers


def idx_fresh(e, shape, base="p"):
    """a fresh index tuple inside the given shape (assumed)"""
    out = []
    for s in shape:
        i = e.fresh_int(base, 0)
        e.assume(cmp(i, s, "<"))
        out.append(i)
    return tuple(out)


def same_shape(e, t, shape, name):
    e.prove(len(t.shape) == len(tuple(shape)), f"{name}: rank")
    for d, (a, b) in enumerate(zip(t.shape, shape)):
        e.prove(eq(a, b), f"{name}: size of dim {d}")


def expect_raises(e, exc, fn, name):
    try:
        fn()
    except exc:
        e.prove(True, name)
        return
    e.prove(False, name)


def same_elems(e, t, fn, name, shape=None, guard=None, where=""):
    """t[i] == fn(i) for a generic index i"""
    sh = tuple(t.shape) if shape is None else tuple(shape)
    i = idx_fresh(e, sh)
    a, b = t.at(*i), fn(*i)
    g = eq(a, b)
    if guard is not None:
        g = core.swrap(z3.Implies(tbool(guard(*i)), tbool(g)))
    e.prove(g, name)


def inp(name, shape, dtype=FLOAT64):
    return SymTensor.input(name, tuple(shape), dtype)


def unchanged(e, t, name):
    """the contents of an input tensor are what they were at the start"""
    i = idx_fresh(e, t.shape)
    f = t.decl
    from dv.tensor import apply_fn
    e.prove(eq(t.at(*i), apply_fn(f, i, t.dtype)), name)


def inpu(name, shape, dtype=FLOAT64):
    """an input tensor of its own (for harnesses that need several of one kind)"""
    from dv.core import eng
    return SymTensor.input(str(eng().fresh(name)), tuple(shape), dtype)


def takes_gradient(e, x):
    """for a stub whose result does not mention its image argument: None, or (in gradient mode, when the argument has been
    detached) the function that detaches the result"""
    if not e.hooks.get("grad"):
        return None
    from dv.tensor import image_uses, detached
    v = x.at(*[e.fresh_int("g", 0) for _ in x.shape])
    return detached if "detached" in image_uses(e, treal(v)) else None
