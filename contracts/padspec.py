"""Specification of the 1-d extension modes by functional equations, and the loop-invariant schemas that go with them.

S : Z^r -> R is the infinite extension of the signal along the padded axis (an uninterpreted function).  The signal
occupies [h, t) (L = t - h) along that axis.  For each mode S is constrained by the equations that define it
uniquely from its values on [h, t); that such an S exists is shown in lemmas/ (Lean) for every mode."""
import z3
from dv import core
from dv.core import Quant, tint, tbool, z3 as _z
from dv.loops import Cand

LOOP_MODES = ["replicate", "circular", "periodize", "symmetric", "antisymmetric", "reflect", "odd_symmetric", "odd_reflect"]


def sub(S, args, ax, j):
    a = list(args)
    a[ax] = j
    return S(*a)


def equations(mode, S, ax, h, t):
    """list of (name, body(args) -> z3 Bool)"""
    L = t - h
    s = lambda a, j: sub(S, a, ax, j)
    v = lambda a: a[ax]
    sgn = -1 if mode == "antisymmetric" else 1
    if mode in ("replicate",):
        return [("edges", lambda a: z3.And(z3.Implies(v(a) < h, S(*a) == s(a, h)), z3.Implies(v(a) >= t, S(*a) == s(a, t - 1))))]
    if mode == "circular":
        return [("period", lambda a: z3.And(S(*a) == s(a, v(a) + L), S(*a) == s(a, v(a) - L)))]
    if mode == "periodize":
        P = L + L % 2
        return [("odd copy", lambda a: z3.Implies(L % 2 == 1, s(a, t) == s(a, t - 1))),
                ("period", lambda a: z3.And(S(*a) == s(a, v(a) + P), S(*a) == s(a, v(a) - P)))]
    if mode in ("symmetric", "antisymmetric"):
        return [("mirror h", lambda a: S(*a) == sgn * s(a, 2 * h - 1 - v(a))),
                ("mirror t", lambda a: S(*a) == sgn * s(a, 2 * t - 1 - v(a)))]
    if mode == "reflect":
        return [("mirror h", lambda a: z3.Implies(L > 1, S(*a) == s(a, 2 * h - v(a)))),
                ("mirror t", lambda a: z3.Implies(L > 1, S(*a) == s(a, 2 * (t - 1) - v(a)))),
                ("single", lambda a: z3.Implies(L == 1, S(*a) == s(a, h)))]
    if mode == "odd_symmetric":
        return [("point h", lambda a: S(*a) == 2 * s(a, h) - s(a, 2 * h - 1 - v(a))),
                ("point t", lambda a: S(*a) == 2 * s(a, t - 1) - s(a, 2 * t - 1 - v(a)))]
    if mode == "odd_reflect":
        return [("point h", lambda a: z3.Implies(L > 1, S(*a) == 2 * s(a, h) - s(a, 2 * h - v(a)))),
                ("point t", lambda a: z3.Implies(L > 1, S(*a) == 2 * s(a, t - 1) - s(a, 2 * (t - 1) - v(a)))),
                ("single", lambda a: z3.Implies(L == 1, S(*a) == s(a, h)))]
    raise ValueError(mode)


def derived(mode, S, ax, h, t):
    """consequences of the equations, assumed after being proved as lemmas"""
    L = t - h
    s = lambda a, j: sub(S, a, ax, j)
    v = lambda a: a[ax]
    if mode in ("symmetric", "antisymmetric"):
        return [("period 2L", lambda a: z3.And(S(*a) == s(a, v(a) + 2 * L), S(*a) == s(a, v(a) - 2 * L)))]
    if mode == "reflect":
        return [("period 2L-2", lambda a: z3.And(S(*a) == s(a, v(a) + 2 * L - 2), S(*a) == s(a, v(a) - 2 * L + 2)))]
    return []


def install(e, mode, S, ax, h, t):
    """assume the equations; prove the derived ones from them and assume these too"""
    for n, b in equations(mode, S, ax, h, t):
        e.assume_quant(Quant(S, lambda *a, b=b: b(a), n))
    if mode in ("circular", "symmetric"):
        # L == 1: the extension is constant (induction in both directions from h)
        if e.known(t - h == 1) is not False:
            o = [e.fresh("lem") for _ in range(S.arity())]
            P = lambda j: z3.And(sub(S, o, ax, j) == sub(S, o, ax, h), sub(S, o, ax, j + 1) == sub(S, o, ax, h))
            j = e.fresh("lem")
            one = t - h == 1
            e.prove(z3.Implies(one, P(h)), f"lemma {mode} L=1: base")
            e.prove(z3.Implies(z3.And(one, P(j)), z3.And(P(j + 1), P(j - 1))), f"lemma {mode} L=1: step")
            e.assume_quant(Quant(S, lambda *a: z3.Implies(one, S(*a) == sub(S, a, ax, h)), "single"))
    for n, b in derived(mode, S, ax, h, t):
        sk = [e.fresh("lem") for _ in range(S.arity())]
        e.prove(b(sk), f"lemma {mode}: {n}")
        e.assume_quant(Quant(S, lambda *a, b=b: b(a), n))


def schema(mode, S, ax, h, t, N, other):
    """candidate invariants over the integer/boolean variables of a filling loop"""
    if mode == "periodize":
        t = t + (t - h) % 2
    L = t - h

    def make(env0):
        cands = []
        ints = [n for n, v in env0.vals.items() if isinstance(v, core.SymInt) or (isinstance(v, int) and not isinstance(v, bool))]
        bools = [n for n, v in env0.vals.items() if isinstance(v, (bool, core.SymBool))]

        def filled(c, side):
            def f(env):
                sns = [x for o, x in env.objs.items() if len(x.ob.shape) == S.arity()]
                if len(sns) != 1:
                    return None
                sn = sns[0]
                cc = tint(env.vals[c])

                def body(*a):
                    j = a[ax]
                    rng = z3.And(j >= cc, j < t) if side == "L" else z3.And(j >= h, j < cc) if side == "R" else z3.And(j >= 0, j < cc) if side == "0" else z3.And(j >= cc, j < N)
                    return z3.Implies(z3.And(rng, other(a)), core.treal(sn.fn(tuple(core.wrap(x) for x in a))) == S(*a))
                return (sn.decl if sn.decl is not None else S, body, None)
            return f
        for c in ints:
            cands.append(Cand(f"{c}<=head", lambda env, c=c: core.wrap(z3.simplify(tint(env.vals[c]) <= h))))
            cands.append(Cand(f"{c}>=tail", lambda env, c=c: core.wrap(z3.simplify(tint(env.vals[c]) >= t))))
            cands.append(Cand(f"{c}<=N", lambda env, c=c: core.wrap(z3.simplify(tint(env.vals[c]) <= N))))
            cands.append(Cand(f"filled[{c},tail)", filled(c, "L"), "forall"))
            cands.append(Cand(f"filled[head,{c})", filled(c, "R"), "forall"))
            cands.append(Cand(f"filled[0,{c})", filled(c, "0"), "forall"))
            cands.append(Cand(f"filled[{c},N)", filled(c, "N"), "forall"))
            cands.append(Cand(f"{c}>=0", lambda env, c=c: core.wrap(z3.simplify(tint(env.vals[c]) >= 0))))

            def shift(c, off, name, cond=None):
                def f(env, c=c):
                    cc = tint(env.vals[c])
                    g = z3.And(cc != 0, cc != N)
                    if cond is not None:
                        g = z3.And(g, cond(env))
                    d = cc - off
                    return (S, lambda *a: z3.Implies(g, z3.And(sub(S, a, ax, a[ax] + d) == S(*a), sub(S, a, ax, a[ax] - d) == S(*a))), None)
                cands.append(Cand(name, f, "forall"))
            if mode in ("circular", "periodize", "reflect"):
                shift(c, h, f"period({c}-head)")
            if mode in ("symmetric", "antisymmetric", "reflect"):
                for b in bools:
                    for pos in (True, False):
                        cb = lambda env, b=b, pos=pos: tbool(env.vals[b]) == pos
                        shift(c, h, f"{b}=={pos} -> period({c}-head)", cb)
                        shift(c, t, f"{b}=={pos} -> period({c}-tail)", cb)
                        # the direction-independent form for loops without a flag
            if mode in ("odd_symmetric", "odd_reflect"):
                o = 1 if mode == "odd_symmetric" else 0
                step = L if o else L - 1

                def point(c, at, name, edge):
                    # reflection about the block boundary `at(c)`: edge = index of the edge sample
                    def f(env):
                        cc = tint(env.vals[c])
                        k, ed = at(cc)
                        return (S, lambda *a: z3.Implies(z3.And(cc != 0, cc != N),
                                                         S(*a) == 2 * sub(S, a, ax, ed) - sub(S, a, ax, k - a[ax])), None)
                    cands.append(Cand(name, f, "forall"))
                # left-going: mirror about c (edge sample c), and about the next block boundary
                if o:
                    point(c, lambda cc: (2 * cc - 1, cc), f"point({c})", 0)
                    point(c, lambda cc: (2 * (cc + L) - 1, cc + L - 1), f"point({c}+L)", 0)
                    point(c, lambda cc: (2 * cc - 1, cc - 1), f"rpoint({c})", 0)
                    point(c, lambda cc: (2 * (cc - L) - 1, cc - L), f"rpoint({c}-L)", 0)
                else:
                    point(c, lambda cc: (2 * cc, cc), f"point({c})", 0)
                    point(c, lambda cc: (2 * (cc + L - 1), cc + L - 1), f"point({c}+L-1)", 0)
                    point(c, lambda cc: (2 * (cc - 1), cc - 1), f"rpoint({c})", 0)
                    point(c, lambda cc: (2 * (cc - L), cc - L), f"rpoint({c}-L)", 0)
        return cands
    return make


class Pad1dCase:
    """symbolic pre-state of a pad_1d function: y holds S on the region idx, anything elsewhere"""

    def __init__(self, e, rank, ax, mode, none_others=False, loop_invs=True, S=None):
        from dv.tensor import SymTensor, FLOAT64
        self.e, self.rank, self.ax = e, rank, ax
        self.N = [e.input_int(f"n{d}", 1) for d in range(rank)]
        self.st, self.en = [], []
        for d in range(rank):
            a = e.input_int(f"beg{d}", 0) if (d == ax or not none_others) else 0
            b = e.input_int(f"end{d}", 1) if (d == ax or not none_others) else self.N[d]
            e.assume(core.cmp(a, b, "<"))
            e.assume(core.cmp(b, self.N[d], "<="))
            self.st.append(a)
            self.en.append(b)
        self.h, self.t = tint(self.st[ax]), tint(self.en[ax])
        self.L = self.t - self.h
        self.S = S if S is not None else z3.Function("S", *([z3.IntSort()] * rank), z3.RealSort())
        self.U = z3.Function("U", *([z3.IntSort()] * rank), z3.RealSort())
        self.idx = tuple(slice(None) if (none_others and d != ax) else slice(self.st[d], self.en[d]) for d in range(rank))

        def init(i):
            a = [tint(x) for x in i]
            c = z3.simplify(z3.And([z3.And(a[d] >= tint(self.st[d]), a[d] < tint(self.en[d])) for d in range(rank)]))
            return core.SymReal(z3.If(c, self.S(*a), self.U(*a)))
        from dv.tensor import ival
        self.y = SymTensor.from_fn(tuple(self.N), FLOAT64, lambda i: init([ival(x) for x in i]))
        self.y.storage.decl = self.U

    def other(self, a):
        return z3.And([z3.And(a[d] >= tint(self.st[d]), a[d] < tint(self.en[d])) for d in range(self.rank) if d != self.ax] + [z3.BoolVal(True)])

    def use_schema(self, mode):
        self.e.hooks["loop_schema"] = schema(mode, self.S, self.ax, self.h, self.t, tint(self.N[self.ax]), self.other)

    def post(self, name, result=None, value=None):
        """for every position of the padded axis (inside the region of the other axes): y == S"""
        e = self.e
        sk = [e.fresh("p") for _ in range(self.rank)]
        y = self.y if result is None else result
        val = value or (lambda a: self.S(*a))
        inr = z3.And(self.other(sk), sk[self.ax] >= 0, sk[self.ax] < tint(self.N[self.ax]))
        got = core.treal(y.at(*[core.wrap(x) for x in sk]))
        e.prove(z3.Implies(inr, got == val(sk)), name)


def odd_room(mode, n):
    """extra cells reserved by periodize"""
    return n % 2 if mode == "periodize" else 0


class ForwardCase:
    """x holds the signal S on one axis; the padded result must be S everywhere (coordinates of the padded tensor)"""

    def __init__(self, e, rank, ax, widths="sym", S=None, dtype=None):
        from dv.tensor import SymTensor, FLOAT64, ival
        self.e, self.rank, self.ax = e, rank, ax
        self.n = [e.input_int(f"n{d}", 1) for d in range(rank)]
        self.a, self.b = e.input_int("before", 0), e.input_int("after", 0)
        self.S = S if S is not None else z3.Function("S", *([z3.IntSort()] * rank), z3.RealSort())
        self.h, self.t = tint(self.a), tint(self.a + self.n[ax])

        def get(i):
            i = [tint(ival(x)) for x in i]
            i[ax] = z3.simplify(i[ax] + self.h)
            return core.SymReal(self.S(*i))
        self.get = get
        self.x = SymTensor.from_fn(tuple(self.n), dtype or FLOAT64, get, label="x")

    def other(self, a):
        return z3.And([z3.And(a[d] >= 0, a[d] < tint(self.n[d])) for d in range(self.rank) if d != self.ax] + [z3.BoolVal(True)])

    def run(self, L, mode, spec=None, how="forward", **kw):
        e = self.e
        gp = L.load("torchimage.padding.generic_pad")
        spec = spec or mode
        self.N = self.a + self.b + self.n[self.ax] + (odd_room(spec, self.n[self.ax]))
        if spec in LOOP_MODES:
            install(e, spec, self.S, self.ax, self.h, self.t)
            e.hooks["loop_schema"] = schema(spec, self.S, self.ax, self.h, self.t, tint(self.N), self.other)
        p = gp.Padder(pad_width=(self.a, self.b), mode=mode, **kw)
        self.p = p
        if how == "forward":
            return p.forward(self.x, axes=self.ax)
        if how == "forward_neg":
            return p.forward(self.x, axes=[self.ax - self.rank])
        return p.pad_axis(self.x, -1, self.ax)

    def post(self, y, name, value=None):
        """sizes, values at every padded position, input untouched"""
        e = self.e
        nopad = core.smax(self.a, self.b)
        z = e.decide(tint(nopad) == 0)
        N = [self.n[d] for d in range(self.rank)]
        if not z:
            N[self.ax] = self.N
        e.prove(y.ndim == self.rank, f"{name}: rank")
        for d in range(self.rank):
            e.prove(core.eq(y.shape[d], N[d]), f"{name}: size of dim {d}")
        e.prove(y.dtype is self.x.dtype, f"{name}: dtype")
        sk = [e.fresh("p") for _ in range(self.rank)]
        for d in range(self.rank):
            e.assume(z3.And(sk[d] >= 0, sk[d] < tint(N[d])))
        val = value or (lambda a: self.S(*a))
        got = core.treal(y.at(*[core.wrap(v) for v in sk]))
        want = core.treal(val(sk))
        j = sk[self.ax]
        e.prove(z3.Implies(z3.And(j >= self.h, j < self.t), got == self.S(*sk)), f"{name}: original samples in place")
        e.prove(got == want, f"{name}: every position has the extension's value")
        q = [e.fresh("q") for _ in range(self.rank)]
        for d in range(self.rank):
            e.assume(z3.And(q[d] >= 0, q[d] < tint(self.n[d])))
        e.prove(core.treal(self.x.at(*[core.wrap(v) for v in q])) == core.treal(self.get(q)), f"{name}: input unchanged")


def case_forward(mode):
    def f(m, name):
        r = len([k for k in m if k.startswith("n") and k[1:].isdigit()])
        ax = next((int(x[2:]) for x in name.replace(",", " ").replace("]", " ").split() if x.startswith("ax")), 0)
        if "before" in m:
            shape = [max(1, min(m[f"n{d}"], 6)) if d != ax else m[f"n{d}"] for d in range(r)]
            return {"shape": shape, "axis": ax, "mode": mode, "width": [m["before"], m["after"]], "seed": 1, "how": "pad_axis" if "pad_axis" in name else "forward"}
        shape = [m[f"n{d}"] for d in range(r)]
        L = m[f"end{ax}"] - m[f"beg{ax}"]
        shape = [min(s, 4) for s in shape]
        shape[ax] = L
        return {"shape": shape, "axis": ax, "mode": mode, "width": [m[f"beg{ax}"], m[f"n{ax}"] - m[f"end{ax}"]], "seed": 1, "how": "forward"}
    return f
