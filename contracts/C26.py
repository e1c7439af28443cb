import itertools
import z3
from common import *
from dv.core import SymReal, wrap
from dv.seq import SymList

smaller = min
FUNCS = ["torchimage.random.random_crop", "torchimage.random.add_gauss_noise", "torchimage.random.add_poisson_gauss_noise"]
TRUSTED = ["torch.randint(lo, hi) can return every integer lo <= v < hi and no other, torch.randn is a standard normal sample and torch.poisson(rate) a Poisson sample of that rate; all three are functions of the generator state they are given"]
ASSUMPTIONS = ["ranks 1 to 4 and the sets of listed axes are enumerated; tensor sizes, crop sizes, draws and noise parameters are symbolic",
               "sigma >= 0; floating-point images"]


def draws(e, g):
    return g.draws if g is not None else e.__dict__.get("global_draws", [])


def h_crop(r, axes, kind, with_gen, form):
    """kind per listed axis: 'n' a size, '.' None"""
    def fn(e, L):
        e.global_draws = []
        f = L.load("torchimage.random").random_crop
        import dv.shim_torch as st
        g = st.Generator() if with_gen else None
        shape = tuple(e.input_int(f"n{d}", 1) for d in range(r))
        x = inp("x", shape)
        ks = []
        if form == "scalar" and len(axes) > 1:
            v = e.input_int("k0", 0)
            for a in axes:
                e.assume(cmp(v, shape[a], "<="))
            ks = [v] * len(axes)
        for j, k in enumerate(kind if not ks else ""):
            if k == ".":
                ks.append(None)
            else:
                v = e.input_int(f"k{j}", 0)
                e.assume(cmp(v, shape[axes[j]], "<="))
                ks.append(v)
        size = ks if form == "list" else tuple(ks) if form == "tuple" else ks[0]
        full = [shape[d] for d in range(r)]
        for a, k in zip(axes, ks):
            if k is not None:
                full[a] = k
        y = f(x, list(axes) if form != "scalar" else (axes if len(axes) > 1 else axes[0]), size, generator=g) if with_gen else f(x, list(axes) if form != "scalar" else (axes if len(axes) > 1 else axes[0]), size)
        same_shape(e, y, full, "crop")
        d = draws(e, g)
        cropped = [(a, k) for a, k in zip(axes, ks) if k is not None]
        e.prove(len(d) == len(cropped), "one draw per cropped axis" + (", all from the given generator" if with_gen else ""))
        if with_gen:
            e.prove(len(e.__dict__.get("global_draws", [])) == 0, "nothing drawn from the global generator")
        i = idx_fresh(e, full)
        src = [wrap(z) if not isinstance(z, core.Sym) else z for z in i]
        for (a, k), rec in zip(cropped, d):
            e.prove(rec[0] == "randint", "the draw is a uniform integer")
            off = wrap(rec[4](*[z3.IntVal(0)] * len(rec[3]))) if rec[3] else wrap(rec[4])
            lo, hi = rec[1], rec[2]
            e.prove(eq(lo, 0), "the least offset drawn is 0")
            e.prove(eq(hi, shape[a] - k + 1), "the largest offset drawn is length - size")
            src[a] = src[a] + off
        for a, s in enumerate(src):
            e.prove(cmp(s, 0, ">=") & cmp(s, shape[a], "<"), f"inside the tensor on axis {a}")
        e.prove(eq(y.at(*i), x.at(*src)), "the block at the drawn offsets")
        unchanged(e, x, "x not modified")
    return fn


def h_gauss(r, dt, with_gen):
    def fn(e, L):
        e.global_draws = []
        f = L.load("torchimage.random").add_gauss_noise
        import dv.shim_torch as st
        g = st.Generator() if with_gen else None
        shape = tuple(e.input_int(f"n{d}", 1) for d in range(r))
        x = inp("x", shape, dt)
        s = e.input_real("sigma")
        e.assume(treal(s) >= 0)
        y = f(x, s, generator=g)
        same_shape(e, y, shape, "noisy image")
        e.prove(y.dtype is x.dtype, "dtype kept")
        d = draws(e, g)
        e.prove(len(d) == 1 and d[0][0] == "randn", "one standard normal sample")
        same_dims(e, d[0][1], shape)
        if with_gen:
            e.prove(len(e.__dict__.get("global_draws", [])) == 0, "nothing drawn from the global generator")
        i = idx_fresh(e, shape)
        n = d[0][2](*[tint(z) for z in i]) if r else d[0][2]
        e.prove(treal(y.at(*i)) == treal(x.at(*i)) + treal(s) * n, "x + sigma * n")
        unchanged(e, x, "x not modified")
    return fn


def same_dims(e, a, b):
    e.prove(len(a) == len(b), "sample of the image's rank")
    for p, q in zip(a, b):
        e.prove(eq(p, q), "sample of the image's size")


def h_poisson(r, dt, with_gen):
    def fn(e, L):
        e.global_draws = []
        f = L.load("torchimage.random").add_poisson_gauss_noise
        import dv.shim_torch as st
        g = st.Generator() if with_gen else None
        shape = tuple(e.input_int(f"n{d}", 1) for d in range(r))
        x = inp("x", shape, dt)
        s, k = e.input_real("sigma"), e.input_real("k")
        e.assume(treal(s) >= 0)
        e.assume(treal(k) > 0)
        y = f(x, k, s, generator=g)
        same_shape(e, y, shape, "noisy image")
        e.prove(y.dtype is x.dtype, "dtype kept")
        d = draws(e, g)
        if with_gen:
            e.prove(len(e.__dict__.get("global_draws", [])) == 0, "nothing drawn from the global generator")
        e.prove(sorted(z[0] for z in d) == ["poisson", "randn"], "one Poisson and one standard normal sample")
        po, no = [z for z in d if z[0] == "poisson"][0], [z for z in d if z[0] == "randn"][0]
        i = idx_fresh(e, shape)
        same_dims(e, po[1], shape)
        same_dims(e, no[1], shape)
        at = lambda fd: fd(*[tint(z) for z in i]) if r else fd
        e.prove(treal(po[3].at(*i)) * treal(k) == treal(x.at(*i)), "the Poisson rate is x / k")
        e.prove(treal(y.at(*i)) == treal(k) * at(po[2]) + treal(s) * at(no[2]), "k * p + sigma * n")
        unchanged(e, x, "x not modified")
    return fn


def harnesses(tier):
    hs = []
    g = lambda m, k, lo=1, hi=5: max(lo, min(int(m.get(k, 2)), hi))

    def crop(r, axes, kind, gen, form):
        def case(m, n):
            shape = [g(m, f"n{d}") for d in range(r)]
            return {"form": "crop", "s": shape, "axes": list(axes), "k": [None if c == "." else smaller(shape[a], g(m, f"k{j}", 0)) for j, (a, c) in enumerate(zip(axes, kind))], "kind": form, "seed": 1}
        hs.append(H(f"random_crop[rank {r}, axes {axes}, sizes {kind} ({form}){', generator' if gen else ''}]", h_crop(r, axes, kind, gen, form), to_case=case))
    for r in range(1, 5):
        for m in range(1, r + 1):
            for axes in itertools.permutations(range(r), m) if r < 4 else itertools.combinations(range(r), m):
                kinds = ["".join(k) for k in itertools.product("n.", repeat=m)] if m < 3 else ["n" * m, "n.n" + "n" * (m - 3)]
                for kind in kinds:
                    for gen in (True, False):
                        crop(r, axes, kind, gen, "list" if r % 2 else "tuple")
        crop(r, (-1,), "n", True, "list")
        crop(r, (r - 1,), "n", False, "scalar")
        for m in range(2, r + 1):
            crop(r, tuple(range(r))[-m:], "n" * m, True, "scalar")
    for r in range(5):
        for dt in (FLOAT32, FLOAT64):
            for gen in (True, False):
                case = lambda m, n, r=r, gen=gen, dt=dt: {"form": "gauss", "s": [g(m, f"n{d}") for d in range(r)], "sigma": .5, "k": .25, "dt": dt.name, "gen": gen, "seed": 1}
                hs.append(H(f"add_gauss_noise[rank {r}, {dt.name}{', generator' if gen else ''}]", h_gauss(r, dt, gen), to_case=case))
                hs.append(H(f"add_poisson_gauss_noise[rank {r}, {dt.name}{', generator' if gen else ''}]", h_poisson(r, dt, gen), to_case=lambda m, n, c=case: {**c(m, n), "form": "poisson"}))
    return hs
