from common import *
import padspec
from dv.tensor import ival

FUNCS = ["torchimage.padding.generic_pad.Padder.__init__", "torchimage.padding.generic_pad.Padder._align_params", "torchimage.padding.generic_pad.Padder.forward",
         "torchimage.padding.generic_pad.Padder._fill_value_1d", "torchimage.padding.generic_pad.Padder.pad_axis", "torchimage.utils.validation.check_axes",
         "torchimage.utils.ndspec.NdSpec (construction, indexing, starmap, agg_index_len)"]
TRUSTED = ["the 1-d functions of pad_1d are used through their contracts here (fill the axis from the region, leave cells outside the region's lines arbitrary); those contracts are proved in C01-C03"]
ASSUMPTIONS = ["ranks 1-4 and the number of specification entries are enumerated; sizes, widths, contents and parameters are symbolic"]

PLAIN = {"replicate_1d": "replicate", "smooth_1d": "smooth", "circular_1d": "circular", "periodize_1d": "periodize", "reflect_1d": "reflect",
         "odd_reflect_1d": "odd_reflect", "odd_symmetric_1d": "odd_symmetric"}


def ext(kind, j, N, h, L, line, par):
    """value of the extension `kind` at padded position j (z3 terms); line(k) is the signal"""
    e = core.eng()
    if kind == "zeros":
        return z3.RealVal(0)
    if kind == "constant":
        return z3.If(j < h, treal(par[0]), treal(par[1]))
    ps = [j - h, L]
    for q in par:
        if q is None:
            kind += ":None"
        elif isinstance(q, str):
            kind += ":" + q
        else:
            ps.append(treal(q))
    if kind.startswith("linear_ramp"):
        ps += [h, N - h - L]
    return e.node("ext:" + kind, [z3.simplify(p) for p in ps], [([L], lambda b: treal(line(b)))])


def contract(kind, sig):
    """stub that has exactly the 1-d contract"""
    def body(x, idx, dim, par):
        e = core.eng()
        nd = x.ndim
        e.prove(len(idx) == nd, f"pre {kind}: one slice per axis")
        d = dim if dim >= 0 else dim + nd
        reg = [s.indices(n) if core.is_num(n) and not core.is_sym(s.start) and not core.is_sym(s.stop) else (0 if s.start is None else s.start, n if s.stop is None else s.stop, 1) for s, n in zip(idx, x.shape)]
        h, t = tint(reg[d][0]), tint(reg[d][1])
        N = tint(x.shape[d])
        for k in range(nd):
            a, b = reg[k][0], reg[k][1]
            e.prove(cmp(a, 0, ">=") & cmp(a, b, "<") & cmp(b, x.shape[k], "<="), f"pre {kind}: region inside the tensor")
        if kind == "periodize":
            e.prove(z3.Implies((t - h) % 2 == 1, t < N), "pre periodize: room for the odd copy")
        old = x.storage.current()
        junk = e.fresh_fn("junk", nd, z3.RealSort())

        def new(i):
            i = [tint(ival(v)) for v in i]
            lines = z3.And([z3.And(i[k] >= tint(reg[k][0]), i[k] < tint(reg[k][1])) for k in range(nd) if k != d] + [z3.BoolVal(True)])
            lines = z3.simplify(lines)

            def at(k):
                q = list(i)
                q[d] = z3.simplify(k)
                return treal(old(tuple(core.wrap(v) for v in q)))
            inside = z3.simplify(z3.And(i[d] >= h, i[d] < t))
            cur = treal(old(tuple(core.wrap(v) for v in i)))
            kl, ki = e.known_cached(lines), e.known_cached(inside)
            if kl is False:
                return core.SymReal(junk(*i))
            v = cur if ki is True else z3.If(inside, cur, ext(kind, i[d], N, h, t - h, lambda b: at(h + b), par)) if ki is None else ext(kind, i[d], N, h, t - h, lambda b: at(h + b), par)
            return core.SymReal(v if kl is True else z3.If(lines, v, junk(*i)))
        e.note_write(x.storage)
        x.storage.set(new)
        return x
    if sig == "plain":
        return lambda x, idx, dim: body(x, idx, dim, [])
    if sig == "pair":
        return lambda x, idx, dim, before, after: body(x, idx, dim, [before, after])
    if sig == "stat":
        return lambda x, idx, dim, before, after, mode: body(x, idx, dim, [mode, before, after])


def symm(x, idx, dim, negate=False):
    return contract("antisymmetric" if negate else "symmetric", "plain")(x, idx, dim)


def use_contracts(L):
    m = L.load("torchimage.padding.pad_1d")
    L.load("torchimage.padding.generic_pad")
    for f, k in PLAIN.items():
        L.patch(getattr(m, f), contract(k, "plain"))
    L.patch(m.symmetric_1d, symm)
    L.patch(m.zeros_1d, contract("zeros", "plain"))
    L.patch(m.constant_1d, contract("constant", "pair"))
    L.patch(m.linear_ramp_1d, contract("linear_ramp", "pair"))
    L.patch(m.stat_1d, contract("stat", "stat"))


def spec_axis(get, shape, ax, w, mode, par):
    """functional 1-d padding of one axis"""
    e = core.eng()
    a, b = w
    if e.decide(z3.And(tint(a) == 0, tint(b) == 0)):
        return get, shape
    n = shape[ax]
    N = n + a + b + padspec.odd_room(mode, n)
    out = list(shape)
    out[ax] = N
    if mode in ("maximum", "minimum", "mean", "median"):
        kind, pr = "stat", [mode, par["stat"][0], par["stat"][1]]
    elif mode == "linear_ramp":
        kind, pr = mode, list(par["end"])
    elif mode == "constant":
        kind, pr = mode, list(par["const"])
    else:
        kind, pr = mode, []

    def g(i):
        j = tint(i[ax])
        h, L_ = tint(a), tint(n)

        def at(k):
            q = list(i)
            q[ax] = z3.simplify(k)
            return treal(get(q))
        inside = z3.simplify(z3.And(j >= h, j < h + L_))
        ki = e.known_cached(inside)
        if ki is True:
            return at(j - h)
        x = ext(kind, j, tint(N), h, L_, at, pr)
        return x if ki is False else z3.If(inside, at(j - h), x)
    return g, out


def per_axis(e, n, modes):
    ps = []
    for k in range(n):
        ps.append({"w": (e.input_int(f"w{k}a", 0), e.input_int(f"w{k}b", 0)), "mode": modes[k % len(modes)],
                   "const": (e.input_real(f"c{k}a"), e.input_real(f"c{k}b")), "end": (e.input_real(f"e{k}a"), e.input_real(f"e{k}b")),
                   "stat": (e.input_int(f"s{k}a"), e.input_int(f"s{k}b"))})
    return ps


def user(tag):
    f = contract("user" + tag, "plain")

    def pad_func(x, idx, dim):
        return f(x, idx, dim)
    pad_func.tag = tag
    return pad_func


def h_nd(rank, axes, nspec, modes, scalar=(), order="c", dtype=None, via="forward"):
    """axes: the argument; nspec: number of specification entries (0: one item for all)"""
    def fn(e, L):
        use_contracts(L)
        gp = L.load("torchimage.padding.generic_pad")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n, dtype or FLOAT64)
        ms = [user(m[4:]) if m.startswith("user") else m for m in modes]
        names = {id(m): k for m, k in zip(ms, modes)}
        k = max(1, nspec)
        ps = per_axis(e, k, ms)
        kw = {}

        def put(field, key):
            if nspec == 0 or field in scalar:
                kw[field] = ps[0][key]
                for p in ps:
                    p[key] = ps[0][key]
            else:
                kw[field] = [p[key] for p in ps]
        put("mode", "mode")
        put("constant_values", "const")
        put("end_values", "end")
        put("stat_length", "stat")
        put("pad_width", "w")
        p = gp.Padder(**kw)
        e.prove(p.ndim == (0 if nspec == 0 else nspec), "padder rank is the number of entries")
        from dv import seq
        full = list(range(rank))[axes] if isinstance(axes, slice) else list(range(rank)) if axes is None else [a % rank for a in ([axes] if isinstance(axes, int) else axes)]
        y = p.forward(x, axes) if axes is not None or via == "none" else p.forward(x, None)
        m = len(full) if nspec == 0 else min(len(full), nspec)
        get = lambda i: treal(x.at(*[core.wrap(tint(v)) for v in i]))
        shape = list(n)
        off = [0] * rank
        for i in range(-m, 0):
            q = ps[i] if nspec else ps[0]
            mode = names[id(q["mode"])]
            get, shape = spec_axis(get, shape, full[i], q["w"], mode, q)
            off[full[i]] = q["w"][0]
        same_shape(e, y, shape, "result")
        e.prove(y.dtype is x.dtype, "dtype kept")
        idx = idx_fresh(e, y.shape)
        for d in range(rank):
            if not (core.is_num(off[d]) and off[d] == 0):
                e.decide(tbool(cmp(idx[d], off[d], ">=") & cmp(idx[d], off[d] + n[d], "<")))
        e.prove(treal(y.at(*idx)) == get(list(idx)), "every position: 1-d extensions applied in order")
        q = idx_fresh(e, n, "q")
        e.prove(eq(y.at(*[a + o for a, o in zip(q, off)]), apply_in(x, q)), "original tensor at offset `before`")
        unchanged(e, x, "input unchanged")
    return fn


def apply_in(x, q):
    from dv.tensor import apply_fn
    return apply_fn(x.decl, q, x.dtype)


def h_pad_axis(rank, i, axis, nspec, modes):
    def fn(e, L):
        use_contracts(L)
        gp = L.load("torchimage.padding.generic_pad")
        n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        x = inp("x", n)
        ps = per_axis(e, nspec, modes)
        p = gp.Padder(pad_width=[q["w"] for q in ps], mode=[q["mode"] for q in ps], constant_values=[q["const"] for q in ps], end_values=[q["end"] for q in ps],
                      stat_length=[q["stat"] for q in ps])
        y = p.pad_axis(x, i, axis)
        q = ps[i]
        get, shape = spec_axis(lambda ix: treal(x.at(*[core.wrap(tint(v)) for v in ix])), list(n), axis % rank, q["w"], q["mode"], q)
        same_shape(e, y, shape, "result")
        idx = idx_fresh(e, y.shape)
        d = axis % rank
        e.decide(tbool(cmp(idx[d], q["w"][0], ">=") & cmp(idx[d], q["w"][0] + n[d], "<")))
        e.prove(treal(y.at(*idx)) == get(list(idx)), "the axis is padded by entry i")
        unchanged(e, x, "input unchanged")
    return fn


def case(rank, axes, nspec, modes, scalar=()):
    def f(m, name):
        k = max(1, nspec)
        g = lambda key, i: m.get(f"{key}{0 if (nspec == 0 or {'w': 'pad_width', 'c': 'constant_values', 'e': 'end_values', 's': 'stat_length'}[key] in scalar) else i}a", 1)
        h = lambda key, i: m.get(f"{key}{0 if (nspec == 0 or {'w': 'pad_width', 'c': 'constant_values', 'e': 'end_values', 's': 'stat_length'}[key] in scalar) else i}b", 1)
        ax = axes
        if isinstance(axes, slice):
            ax = list(range(rank))[axes]
        if axes is None:
            ax = list(range(rank))
        if isinstance(ax, int):
            ax = [ax]
        return {"shape": [max(1, min(m.get(f"n{d}", 1), 7)) for d in range(rank)], "axes": list(ax), "nspec": nspec, "seed": 3,
                "spec": [{"mode": modes[0 if (nspec == 0 or "mode" in scalar) else i % len(modes)], "width": [min(g("w", i), 30), min(h("w", i), 30)], "const": [float(g("c", i)), float(h("c", i))], "end": [float(g("e", i)), float(h("e", i))],
                          "stat": [g("s", i), h("s", i)]} for i in range(k)]}
    return f


ALL = ["replicate", "constant", "circular", "linear_ramp", "periodize", "maximum", "symmetric", "mean", "antisymmetric", "zeros", "reflect", "minimum",
       "odd_reflect", "median", "odd_symmetric", "smooth"]


def harnesses(tier):
    hs = []

    def add(rank, axes, nspec, modes, tiers=("quick", "thorough"), **kw):
        nm = f"forward[rank{rank} axes={axes} entries={nspec} {'+'.join(modes)}{' ' + str(sorted(kw.items())) if kw else ''}]"
        hs.append(H(nm, h_nd(rank, axes, nspec, modes, **kw), to_case=case(rank, axes, nspec, modes, kw.get("scalar", ())), tiers=tiers, budget=60))
    T = ("thorough",)
    for k, m in enumerate(ALL):
        add(2, [0, 1], 2, [m, ALL[(k + 1) % len(ALL)]])
        add(2, [1, 0], 2, [m, ALL[(k + 5) % len(ALL)]])
        add(3, [2, 0], 2, [m, ALL[(k + 3) % len(ALL)]], T)
        add(3, [2, 0, 1], 3, [m, ALL[(k + 3) % len(ALL)], ALL[(k + 7) % len(ALL)]], T)
    for m in ALL:
        add(2, None, 0, [m])
    add(2, [1, 0], 0, ["user0"])
    add(2, [0, 1], 2, ["user0", "user1"])
    add(2, [0, 1], 2, ["user0", "linear_ramp"])
    add(3, [1, 2], 3, ["constant", "linear_ramp", "mean"])
    add(3, [0, 1, 2], 1, ["constant"])
    add(3, None, 2, ["linear_ramp", "constant"])
    add(3, slice(1, None), 2, ["median", "periodize"])
    add(4, slice(2, None), 2, ["constant", "symmetric"])
    add(4, slice(2, None), 0, ["reflect"])
    add(3, [-1, -3], 2, ["linear_ramp", "constant"])
    add(3, -2, 0, ["linear_ramp"])
    add(3, 0, 2, ["constant", "maximum"])
    add(3, [0, 2], 2, ["mean", "constant"], scalar=("pad_width",))
    add(3, [0, 2], 2, ["constant"], scalar=("mode", "constant_values"))
    add(3, [2, 0], 2, ["linear_ramp"], scalar=("mode", "end_values"))
    add(2, [0, 1], 2, ["mean", "median"], scalar=("stat_length",))
    add(2, [0, 1], 2, ["circular", "constant"], dtype=FLOAT32)
    add(1, None, 1, ["linear_ramp"])
    add(3, [0, 1, 2], 3, ["constant", "linear_ramp", "circular"])
    for i, axis in ((-1, 0), (-2, 1), (-3, -1), (0, 2), (1, -3), (2, 1)):
        hs.append(H(f"pad_axis[entry {i} on axis {axis}]", h_pad_axis(3, i, axis, 3, ["constant", "linear_ramp", "mean"])))
    for m in ALL:
        hs.append(H(f"pad_axis[{m} entry -1 on axis -1]", h_pad_axis(2, -1, -1, 2, ["constant", m])))
    return hs
