"""random cases of the other properties' runs (padding, pooling, filters, metrics, Bayer operations, NdSpec, polynomials, powers, noise); every outermost call of a public function or method has its tensors, arrays, lists, tuples and dicts compared before and after the call and again at the end of the case"""
import copy, functools, importlib, pkgutil, types
from util import *
import torchimage

SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C29"]
IN_PLACE = {"torchimage.padding.pad_1d"}     # the in-place padding of one axis, by contract
depth, viol, seen = [0], [], []


def snap(v, d=0):
    if isinstance(v, torch.Tensor):
        return ("t", v.dtype, v.detach().clone())
    if isinstance(v, np.ndarray):
        return ("a", v.dtype, v.copy() if v.dtype != object else [snap(x, d + 1) for x in v.reshape(-1)])
    if isinstance(v, (list, tuple)) and d < 12:
        return (type(v).__name__, [snap(x, d + 1) for x in v])
    if isinstance(v, dict):
        return ("d", [(k, snap(x, d + 1)) for k, x in v.items()])
    if isinstance(v, (int, float, str, bool, type(None))):
        return ("v", v)
    return ("o", id(v))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "t":
        return a[1] == b[1] and a[2].shape == b[2].shape and (torch.equal(a[2], b[2]) or bool(((a[2] == b[2]) | ((a[2] != a[2]) & (b[2] != b[2]))).all()))
    if a[0] == "a" and isinstance(a[2], np.ndarray):
        return a[1] == b[1] and a[2].shape == b[2].shape and bool(np.array_equal(a[2], b[2], equal_nan=a[2].dtype.kind == "f"))
    if a[0] in ("list", "tuple", "a"):
        x, y = a[-1], b[-1]
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if a[0] == "d":
        return len(a[1]) == len(b[1]) and all(k == l and same(p, q) for (k, p), (l, q) in zip(a[1], b[1]))
    return a[1] == b[1] or a[1] != a[1] and b[1] != b[1]


def wrap(f, name, skip):
    @functools.wraps(f)
    def g(*a, **k):
        if depth[0]:
            return f(*a, **k)
        before = snap((a[skip:], k))
        seen.append((name, a[skip:], k, before))
        depth[0] += 1
        try:
            return f(*a, **k)
        finally:
            depth[0] -= 1
            if not same(before, snap((a[skip:], k))):
                viol.append(f"{name} modified an argument")
    g.__framed__ = True
    return g


def install():
    mods = [importlib.import_module(m.name) for m in pkgutil.walk_packages(torchimage.__path__, "torchimage.")]
    swaps = {}
    for m in mods:
        if m.__name__ in IN_PLACE:
            continue
        for k, v in list(vars(m).items()):
            if getattr(v, "__module__", None) != m.__name__ or getattr(v, "__framed__", False):
                continue
            if isinstance(v, type):
                for n, f in list(vars(v).items()):
                    if isinstance(f, types.FunctionType) and (n == "__init__" or not n.startswith("_")) and not getattr(f, "__framed__", False):
                        setattr(v, n, wrap(f, f"{v.__name__}.{n}", 1))
            elif isinstance(v, types.FunctionType):
                swaps[v] = wrap(v, k, 0)
    for m in mods:
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and v in swaps:
                setattr(m, k, swaps[v])


install()


def cases(tier, seed, k, n):
    gens = [(o, iter(importlib.import_module("o" + o).cases(tier, seed + 7, k, n))) for o in SOURCES]
    r = rng(seed, k)
    while gens:
        o, g = r.choice(gens)
        try:
            yield {"o": o, "case": next(g)}
        except StopIteration:
            gens = [x for x in gens if x[0] != o]


def run(c):
    viol.clear()
    seen.clear()
    depth[0] = 0
    try:
        importlib.import_module("o" + c["o"]).run(c["case"])
    except Exception:
        pass        # another property's business
    for name, a, k, before in seen:
        if not viol and not same(before, snap((a, k))):
            viol.append(f"a later call modified an argument of {name}")
    seen.clear()
    return viol[0] if viol else None
