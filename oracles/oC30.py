"""random cases of the other properties' runs; every outermost call of a listed operation on floating-point images is repeated in float64 at slightly perturbed images with gradients on: back-propagation of a random projection of the result agrees with its central finite difference along a random direction (points where two step lengths disagree are skipped)"""
import copy, functools, importlib, pkgutil, types, random
from util import *
import torchimage

SOURCES = ["C01", "C02", "C03", "C04", "C06", "C07", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C24"]
METHODS = {"forward", "pad_axis", "component", "all_components", "horizontal", "vertical", "magnitude"}
FUNCTIONS = {"poly1d", "outer", "bayer_1c_to_4c", "bayer_4c_to_1c", "rgb_to_1c_bayer", "rgb_to_4c_bayer", "downsample_1c_bayer_to_rgb", "downsample_4c_bayer_to_rgb"}
depth, viol, todo = [0], [], [0]


def leaves(y):
    if isinstance(y, torch.Tensor):
        return [y] if y.is_floating_point() else []
    if isinstance(y, (list, tuple)):
        return [t for v in y for t in leaves(v)]
    return []


def is_image(v):
    return isinstance(v, torch.Tensor) and v.is_floating_point() and v.ndim > 0 and v.numel() > 0


def check(f, name, a, k):
    me = a[0] if a and isinstance(a[0], torch.nn.Module) else None
    obj = copy.deepcopy(me).double() if me is not None else None
    if getattr(a[0], "threshold", 0) if a else 0:
        return None
    keys = [("a", i) for i, v in enumerate(a) if is_image(v)] + [("k", n) for n, v in k.items() if is_image(v)]
    if not keys:
        return None
    g = torch.Generator().manual_seed(todo[0])
    todo[0] += 1
    base = {}
    for w, i in keys:
        v = (a[i] if w == "a" else k[i]).detach().double()
        base[(w, i)] = v + 1e-3 * torch.rand(v.shape, generator=g, dtype=torch.float64)

    def call(xs):
        aa = [xs.get(("a", i), v) for i, v in enumerate(a)]
        if obj is not None:
            aa[0] = obj
        return leaves(f(*aa, **{n: xs.get(("k", n), v) for n, v in k.items()}))

    xs = {q: v.clone().requires_grad_() for q, v in base.items()}
    ys = call(xs)
    if not ys or not all(torch.isfinite(y).all() for y in ys):
        return None
    if name.endswith(".magnitude") and any((y.abs() < 1e-6).any() for y in ys):
        return None     # the root has no derivative at 0 (what epsilon is for)
    proj = [torch.rand(y.shape, generator=g, dtype=torch.float64) + .1 for y in ys]
    out = sum((p * y).sum() for p, y in zip(proj, ys))
    n_out = sum(y.numel() for y in ys)
    if n_out == 0:
        return None
    for q in keys:
        d = torch.rand(base[q].shape, generator=g, dtype=torch.float64) * 2 - 1
        fd = []
        with torch.no_grad():
            for h in (1e-4, 5e-5):
                v = [sum((p * y).sum() for p, y in zip(proj, call({**base, q: base[q] + s * h * d}))) for s in (1, -1)]
                fd.append(float((v[0] - v[1]) / (2 * h)))
        scale = 1 + abs(fd[0]) + float(sum((p * y.detach()).abs().sum() for p, y in zip(proj, ys)))
        if not all(np.isfinite(fd)) or abs(fd[0] - fd[1]) > 1e-6 * scale:
            continue
        gr = torch.autograd.grad(out, [xs[q]], retain_graph=True, allow_unused=True)[0] if out.requires_grad else None
        got = 0.0 if gr is None else float((gr * d).sum())
        if not abs(got - fd[1]) <= 2e-5 * scale:
            return f"{name}: the gradient with respect to argument {q[1]} is {got} along a direction where the finite difference is {fd[1]}" + ("" if gr is not None else " (the result does not depend on it for autograd)")
    return None


def wrap(f, name):
    @functools.wraps(f)
    def g(*a, **k):
        if depth[0]:
            return f(*a, **k)
        depth[0] += 1
        try:
            r = f(*a, **k)
            if not viol:
                try:
                    m = check(f, name, a, k)
                except Exception as x:
                    m = f"{name}: {type(x).__name__} when gradients are on: {str(x)[:300]}"
                if m:
                    viol.append(m)
            return r
        finally:
            depth[0] -= 1
    g.__graded__ = True
    return g


def install():
    mods = [importlib.import_module(m.name) for m in pkgutil.walk_packages(torchimage.__path__, "torchimage.")]
    swaps = {}
    for m in mods:
        for k, v in list(vars(m).items()):
            if getattr(v, "__module__", None) != m.__name__:
                continue
            if isinstance(v, type):
                for n, f in list(vars(v).items()):
                    if isinstance(f, types.FunctionType) and n in METHODS and not getattr(f, "__graded__", False):
                        setattr(v, n, wrap(f, f"{v.__name__}.{n}"))
            elif isinstance(v, types.FunctionType) and k in FUNCTIONS:
                swaps[v] = wrap(v, k)
    for m in mods:
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and v in swaps:
                setattr(m, k, swaps[v])


install()


def cases(tier, seed, k, n):
    gens = [(o, iter(importlib.import_module("o" + o).cases(tier, seed + 11, k, n))) for o in SOURCES]
    r = rng(seed, k)
    while gens:
        o, g = r.choice(gens)
        try:
            yield {"o": o, "case": next(g)}
        except StopIteration:
            gens = [x for x in gens if x[0] != o]


def run(c):
    viol.clear()
    depth[0] = todo[0] = 0
    try:
        importlib.import_module("o" + c["o"]).run(c["case"])
    except Exception:
        pass        # another property's business
    return viol[0] if viol else None
