import itertools
import z3
from common import *
from dv.core import SymInt

V = "torchimage.utils.validation."
FUNCS = [V + f for f in ("check_axes", "check_stride", "check_pad_width")]
TRUSTED = []
ASSUMPTIONS = ["the rank (1 to 5) and the number of listed axes (0 to 4) are enumerated, the axes are symbolic integers; slices are enumerated (every start/stop within two of the range or missing, steps -3..3: all others clip to these)",
               "axes, stride and widths are integers (or, rejected, objects int() does not accept)"]


def mod(L):
    return L.load("torchimage.utils.validation")


def tensor(e, r, lib="torch"):
    x = inpu("x", tuple(e.fresh_int("n", 1) for _ in range(r)))
    x.lib = lib
    return x


def h_axes(r, k, kind):
    def fn(e, L):
        f = mod(L).check_axes
        x = tensor(e, r, "np" if k % 2 else "torch")
        ax = [e.input_int(f"a{i}") for i in range(k)]
        arg = ax[0] if kind is int else kind(ax)
        ok = z3.And([z3.BoolVal(True)] + [z3.And(tint(a) >= -r, tint(a) < r) for a in ax])
        try:
            out = f(x, arg)
        except ValueError:
            e.prove(z3.Not(ok), "ValueError only for an axis outside [-ndim, ndim)")
            return
        e.prove(ok, "an axis outside [-ndim, ndim) is rejected")
        e.prove(isinstance(out, tuple) and len(out) == k, "a tuple with one entry per axis")
        for a, o in zip(ax, out):
            e.prove(tint(o) == z3.If(tint(a) < 0, tint(a) + r, tint(a)), "the equivalent non-negative axis, in order")
        if kind is list:
            e.prove(all(p is q for p, q in zip(arg, ax)) and len(arg) == k, "the argument is not modified")
    return fn


def h_slices(r):
    def fn(e, L):
        f = mod(L).check_axes
        x = tensor(e, r)
        e.prove(f(x, None) == tuple(range(r)), "None means all axes")
        pts = [None] + list(range(-r - 2, r + 3))
        for a, b, s in itertools.product(pts, pts, (None, 1, 2, 3, -1, -2, -3)):
            want = tuple(range(r)[a:b:s])
            e.prove(tuple(f(x, slice(a, b, s))) == want, f"slice({a}, {b}, {s})")
    return fn


def h_stride(e, L):
    f = mod(L).check_stride
    e.prove(f(None) is None, "None passes through")
    s = e.input_int("s")
    try:
        r = f(s)
    except ValueError:
        e.prove(tint(s) < 1, "ValueError only below 1")
    else:
        e.prove(tint(s) >= 1, "below 1 is rejected")
        e.prove(eq(r, s), "the stride itself")
    for bad in ([1], (2,), {}, object(), "a"):
        expect_raises(e, ValueError, lambda: f(bad), "not an integer")


def h_width(e, L):
    f = mod(L).check_pad_width
    a, b = e.input_int("a"), e.input_int("b")
    ok = z3.And(tint(a) >= 0, tint(b) >= 0)
    try:
        r = f(a, b)
    except ValueError:
        e.prove(z3.Not(ok), "ValueError only for a negative width")
    else:
        e.prove(ok, "a negative width is rejected")
        e.prove(len(r) == 2, "both widths")
        e.prove(z3.And(tint(r[0]) == tint(a), tint(r[1]) == tint(b)), "the widths themselves, in order")
    for bad in ([1], None, object(), "a"):
        expect_raises(e, ValueError, lambda: f(bad, 1), "not an integer (before)")
        expect_raises(e, ValueError, lambda: f(1, bad), "not an integer (after)")


def case(r, k, kind):
    return lambda m, n: {"form": "axes", "r": r, "axes": [int(m.get(f"a{i}", 0)) for i in range(k)], "kind": kind.__name__}


def harnesses(tier):
    hs = [H("stride", h_stride, to_case=lambda m, n: {"form": "stride", "s": int(m.get("s", 0))}), H("widths", h_width, to_case=lambda m, n: {"form": "width", "a": int(m.get("a", 0)), "b": int(m.get("b", 0))})]
    for r in range(1, 6):
        hs.append(H(f"slices[rank {r}]", h_slices(r)))
        hs.append(H(f"axis[rank {r}]", h_axes(r, 1, int), to_case=case(r, 1, int)))
        for k in range(5):
            for kind in (list, tuple):
                hs.append(H(f"axes[rank {r}, {kind.__name__} of {k}]", h_axes(r, k, kind), to_case=case(r, k, kind)))
    return hs
