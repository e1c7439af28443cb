"""random ranks 1-4, axis lists in any order (positive and negative), 0-4 specification entries, per-entry widths/modes/constants/end values/stat lengths, user pad functions, dtypes; against axis-by-axis numpy reference; pad_axis against forward"""
from util import *
import padref
from torchimage.padding import Padder
ALL = ["replicate", "constant", "circular", "linear_ramp", "periodize", "maximum", "symmetric", "mean", "antisymmetric", "zeros", "reflect", "minimum",
       "odd_reflect", "median", "odd_symmetric", "smooth"]


def rand(r):
    nd = r.randint(1, 4)
    shape = [r.choice([1, 2, 3, 4, 5, r.randint(1, 7)]) for _ in range(nd)]
    axes = r.sample(range(nd), r.randint(1, nd))
    if r.random() < .3:
        axes = sorted(axes)
    axes = [a - nd if r.random() < .3 else a for a in axes]
    nspec = r.choice([0, len(axes), len(axes), max(1, len(axes) - 1), len(axes) + 1])
    w = lambda: r.choice([0, 0, 1, 1, 2, 3, r.randint(0, 9)])
    v = lambda: round(r.uniform(-3, 3), 3)
    s = lambda: r.choice([1, 2, 3, 0, 5])
    spec = [{"mode": r.choice(ALL + ["user0", "user1"]), "width": [w(), w()], "const": [v(), v()], "end": [v(), v()], "stat": [s(), s()]} for _ in range(max(1, nspec))]
    c = {"shape": shape, "axes": axes, "nspec": nspec, "spec": spec, "seed": r.randint(0, 10**6), "dtype": r.choice(["float64", "float32"]), "form": r.choice(["list", "none", "slice", "list"])}
    return c


def cases(tier, seed, k, n):
    for L in range(1, 4):
        for m1 in ALL:
            for m2 in ALL:
                c = {"shape": [L, L + 1], "axes": [1, 0] if L % 2 else [0, 1], "nspec": 2, "seed": L,
                     "spec": [{"mode": m, "width": wd, "const": [1.5, 2.5 + i], "end": [-1.0, 3.0 + i], "stat": [1 + i, 2]} for i, (m, wd) in enumerate([(m1, [1, 2]), (m2, [3, 1])])]}
                if (ALL.index(m1) + ALL.index(m2)) % n == k:
                    yield c
    yield from endless(seed, k, rand)


def ufn(tag):
    def pad_func(x, idx, dim):
        h, t = idx[dim].start, idx[dim].stop
        sl = list(idx)
        def put(a, b, val):
            sl[dim] = slice(a, b)
            x[tuple(sl)] = val
        sl[dim] = slice(h, t)
        m = x[tuple(sl)].sum(dim=dim, keepdim=True)
        if h > 0:
            put(0, h, m + tag)
        if t < x.shape[dim]:
            put(t, None, 2 * m - tag)
        return x
    return pad_func


def ref_user(x, ax, tag, a, b):
    if a == b == 0:
        return x
    m = x.sum(axis=ax, keepdims=True)
    return np.concatenate([np.repeat(m + tag, a, axis=ax), x, np.repeat(2 * m - tag, b, axis=ax)], axis=ax)


def run(c):
    dt = getattr(torch, c.get("dtype", "float64"))
    x = tensor(c["seed"], c["shape"], dt)
    keep = x.clone()
    sp = c["spec"]
    fns = {m: ufn(int(m[4:])) for m in ("user0", "user1")}
    md = [fns.get(s["mode"], s["mode"]) for s in sp]
    args = dict(pad_width=[tuple(s["width"]) for s in sp], mode=md, constant_values=[tuple(s["const"]) for s in sp], end_values=[tuple(s["end"]) for s in sp],
                stat_length=[tuple(s["stat"]) for s in sp])
    if c["nspec"] == 0:
        args = {k: v[0] for k, v in args.items()}
    p = Padder(**args)
    nd = x.ndim
    axes = [a % nd for a in c["axes"]]
    arg = c["axes"]
    if c.get("form") == "none" and axes == list(range(nd)):
        arg = None
    elif c.get("form") == "slice" and axes == list(range(axes[0], nd)):
        arg = slice(axes[0], None)
    elif len(axes) == 1 and c["seed"] % 2:
        arg = c["axes"][0]
    y = p.forward(x, arg)
    m = len(axes) if c["nspec"] == 0 else min(len(axes), c["nspec"])
    want = keep.numpy()
    off = [0] * nd
    for i in range(-m, 0):
        s = sp[i] if c["nspec"] else sp[0]
        if s["mode"] in fns:
            want = ref_user(want, axes[i], int(s["mode"][4:]), *s["width"])
        else:
            want = padref.pad_axis(want, axes[i], s["mode"], *s["width"], end=s["end"], const=s["const"], stat=s["stat"])
        off[axes[i]] = s["width"][0]
    if y.dtype != dt:
        return f"dtype {y.dtype}"
    if tuple(y.shape) != want.shape:
        return f"shape {tuple(y.shape)} instead of {want.shape}"
    if not close(y, want, 1e-9 if dt == torch.float64 else 2e-3):
        return diff(y, want)
    if not torch.equal(x, keep):
        return "input modified"
    if not torch.equal(y[tuple(slice(o, o + n) for o, n in zip(off, x.shape))], keep):
        return "original block not at offset `before`"
    for i in range(-m, 0):
        z = p.pad_axis(x, i, axes[i])
        q = sp[i] if c["nspec"] else sp[0]
        s1 = dict(pad_width=tuple(q["width"]), mode=fns.get(q["mode"], q["mode"]), constant_values=tuple(q["const"]), end_values=tuple(q["end"]), stat_length=tuple(q["stat"]))
        f = Padder(**s1).forward(x, axes=axes[i])
        if not torch.equal(z, f):
            return f"pad_axis({i}, {axes[i]}) differs from forward on that axis"
    return None
