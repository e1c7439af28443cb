"""every integer in [-ndim-3, ndim+3] and random lists (list, tuple, range, numpy integers) of them for ranks 1-5 (tensors and arrays), random slices; strides and widths from -5 to 50 and non-integers; against python's own indexing of range(ndim)"""
from util import *
from torchimage.utils.validation import check_axes, check_stride, check_pad_width


def rand(r):
    f = r.choice(["axes"] * 4 + ["slice", "stride", "width"])
    n = r.randint(1, 5)
    wild = lambda: r.randint(-n - 3, n + 3) if r.random() < .15 else r.randint(-n, n - 1)
    if f == "axes":
        kind = r.choice(["int", "list", "tuple", "npint", "array", "none"])
        return {"form": f, "r": n, "axes": [wild() for _ in range(1 if kind == "int" else r.randint(0, 4))], "kind": kind}
    if f == "slice":
        p = lambda: r.choice([None, wild(), wild()])
        return {"form": f, "r": n, "s": [p(), p(), r.choice([None, 1, 2, -1, -2])]}
    if f == "stride":
        return {"form": f, "s": r.choice([None, "x", [1], {}]) if r.random() < .1 else r.randint(-5, 50) if r.random() < .8 else r.randint(-10**12, 10**12)}
    return {"form": f, "a": r.randint(-3, 20), "b": r.choice([None, [1], "x"]) if r.random() < .1 else r.randint(-3, 20)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def err(f, *a):
    try:
        return f(*a)
    except ValueError:
        return ValueError


def run(c):
    if c["form"] in ("axes", "slice"):
        n = c["r"]
        x = torch.zeros([2] * n) if n % 2 else np.zeros([2] * n)
        if c["form"] == "slice":
            s = slice(*c["s"])
            got, want = err(check_axes, x, s), tuple(range(n)[s])
            return None if got == want else f"check_axes({s}) for rank {n}: {got}"
        ax, kind = c["axes"], c["kind"]
        if kind == "none":
            return None if check_axes(x, None) == tuple(range(n)) else f"check_axes(None): {check_axes(x, None)}"
        arg = {"int": lambda: ax[0], "list": lambda: list(ax), "tuple": lambda: tuple(ax), "npint": lambda: [np.int64(a) for a in ax], "array": lambda: np.array(ax, dtype=int)}[kind]()
        want = ValueError if any(not -n <= a < n for a in ax) else tuple(range(n)[a] for a in ax)
        got = err(check_axes, x, arg)
        if got is not ValueError and not isinstance(got, tuple):
            return f"check_axes returns {type(got)}"
        return None if got == want else f"check_axes({arg!r}) for rank {n}: {got}, expected {want}"
    if c["form"] == "stride":
        s = c["s"]
        want = None if s is None else ValueError if not isinstance(s, int) or s < 1 else s
        got = err(check_stride, s)
        return None if got == want else f"check_stride({s!r}): {got}"
    a, b = c["a"], c["b"]
    want = ValueError if not isinstance(a, int) or not isinstance(b, int) or a < 0 or b < 0 else (a, b)
    got = err(check_pad_width, a, b)
    return None if got == want else f"check_pad_width({a!r}, {b!r}): {got}"
