from common import *
from dv.loops import Cand
from dv import seq
import poolspec
from dv.tensor import SymTensor, as_dtype, ival

FUNCS = ["torchimage.shapes.conv_like.conv_1d", "torchimage.shapes.conv_like.n_original_elements_1d", "torchimage.shapes.conv_like.n_original_elements_nd"]
TRUSTED = ["n_original_elements_nd uses n_original_elements_1d and outer through their contracts (proved here and in C24)"]
ASSUMPTIONS = ["number of axes of the n-d version enumerated 1..4; sizes, widths, kernel sizes and strides symbolic"]


def count(n, b, k, s, t):
    lo, hi = core.smax(t * s, b), core.smin(t * s + k, b + n)
    return core.smax(hi - lo, 0)


def tcount(n, b, k, s, t):
    return tint(count(n, b, k, s, core.wrap(t)))


def at0(l, j):
    return 0 if not l.sym and list.__len__(l) == 0 else l.at(core.wrap(j))


def schema(n, b, a, k, s):
    """candidate invariants: the list built so far holds the counts; integers move by one stride per entry; order facts"""
    def lists(env):
        return {o: x for o, x in env.objs.items() if x.kind == "list"}

    def make(env0):
        out = []
        S = tint(s)
        for o in lists(env0):
            def full(env, o=o):
                sn = env.objs[o]
                ln = sn.fn.length()
                return (sn.decl if getattr(sn, "decl", None) is not None else z3.Function("c8", z3.IntSort(), z3.IntSort()),
                        lambda j: z3.Implies(z3.And(j >= 0, j < tint(ln)), tint(at0(sn.fn, j)) == tcount(n, b, k, s, j)), None)
            out.append(Cand(f"list#{o} holds the counts", full, "forall"))
            l0 = tint(env0.objs[o].fn.length())
            out.append(Cand(f"list#{o} len>=0", lambda env, o=o, l0=l0: tint(env.objs[o].fn.length()) >= l0))
            for cn, cv in {"b": b, "b+n": b + n, "b+n+a": b + n + a, "n": n, "k": k}.items():
                for v in env0.ints():
                    out.append(Cand(f"{v}+s*len=={cn}", lambda env, v=v, o=o, cv=cv: tint(env.vals[v]) + S * tint(env.objs[o].fn.length()) == tint(cv)))
            for v, v0 in env0.ints().items():
                t0 = tint(v0)
                out.append(Cand(f"{v}+s*len", lambda env, v=v, o=o, c=t0 + S * l0: tint(env.vals[v]) + S * tint(env.objs[o].fn.length()) == c))
            if env0.k is not None:
                k0 = tint(env0.k)
                out.append(Cand("len-iter", lambda env, o=o, c=l0 - k0: tint(env.objs[o].fn.length()) - tint(env.k) == c))
        ints = list(env0.ints())
        if env0.k is not None:
            for v, v0 in env0.ints().items():
                out.append(Cand(f"{v}+s*iter", lambda env, v=v, c=tint(v0) + S * tint(env0.k): tint(env.vals[v]) + S * tint(env.k) == c))
        consts = {"0": 0, "k": k, "n": n, "b": b, "-s": -s, "k-n": k - n, "a": a, "b+n": b + n}
        for v in ints:
            for cn, cv in consts.items():
                out.append(Cand(f"{v}<={cn}", lambda env, v=v, cv=cv: tint(env.vals[v]) <= tint(cv)))
                out.append(Cand(f"{v}<{cn}", lambda env, v=v, cv=cv: tint(env.vals[v]) < tint(cv)))
                out.append(Cand(f"{v}>={cn}", lambda env, v=v, cv=cv: tint(env.vals[v]) >= tint(cv)))
                out.append(Cand(f"{v}>{cn}", lambda env, v=v, cv=cv: tint(env.vals[v]) > tint(cv)))
        return out
    return make


def h_1d(e, L):
    cl = L.load("torchimage.shapes.conv_like")
    n = e.input_int("n", 1)
    b, a = e.input_int("b", 0), e.input_int("a", 0)
    k, s = e.input_int("k", 1), e.input_int("s", 1)
    e.hooks["loop_schema"] = schema(n, b, a, k, s)
    r = cl.n_original_elements_1d(in_size=n, pad_width=(b, a), kernel_size=k, stride=s)
    N = n + b + a
    m = core.smax(core.floordiv(N - k, s) + 1, 0)
    ln = seq.len_(r)
    e.lemma(eq(ln, m), "one entry per window")
    t = e.fresh_int("t", 0)
    e.hooks["nl_diff"] = [t.t]
    e.assume(cmp(t, m, "<"))
    r = r if isinstance(r, seq.SymList) else seq.SymList(r)
    e.prove(eq(at0(r, t.t), count(n, b, k, s, t)), "entry t is the number of original elements of window t")


def h_conv(e, L):
    cl = L.load("torchimage.shapes.conv_like")
    n, k, s, d = e.input_int("n", 0), e.input_int("k", 1), e.input_int("s", 1), e.input_int("d", 1)
    r = cl.conv_1d(n, k, s, d)
    # the number of t >= 0 with t*s + d*(k-1) <= n-1
    q = core.smax(r, 0)
    e.prove(z3.Implies(tint(q) >= 1, (tint(q) - 1) * tint(s) + tint(d) * (tint(k) - 1) <= tint(n) - 1), "last window fits")
    e.prove(tint(q) * tint(s) + tint(d) * (tint(k) - 1) > tint(n) - 1, "no further window fits")


def h_nd(m, scalar_k):
    def fn(e, L):
        cl = L.load("torchimage.shapes.conv_like")
        poolspec.flat_lists(L)

        def stub(in_size, pad_width, kernel_size, stride):
            b, a = pad_width[0], pad_width[1]
            e.prove(cmp(in_size, 1, ">=") & cmp(b, 0, ">=") & cmp(a, 0, ">=") & cmp(kernel_size, 1, ">=") & cmp(stride, 1, ">="), "pre n_original_elements_1d")
            ln = core.smax(core.floordiv(in_size + b + a - kernel_size, stride) + 1, 0)
            return seq.SymList.make(ln, lambda t: count(in_size, b, kernel_size, stride, core.wrap(t) if isinstance(t, z3.ExprRef) else t))
        L.patch(cl.n_original_elements_1d, stub)
        ns = [e.input_int(f"n{j}", 1) for j in range(m)]
        bs = [(e.input_int(f"b{j}", 0), e.input_int(f"a{j}", 0)) for j in range(m)]
        ks = [e.input_int(f"k{j}", 1) for j in range(1 if scalar_k else m)]
        ss = [e.input_int(f"s{j}", 1) for j in range(1 if scalar_k else m)]
        z = cl.n_original_elements_nd(in_size=ns, pad_width=bs, kernel_size=ks[0] if scalar_k else ks, stride=ss[0] if scalar_k else ss, dtype=FLOAT64)
        if scalar_k:
            ks, ss = ks * m, ss * m
        sh = [core.smax(core.floordiv(n + b + a - k, s) + 1, 0) for n, (b, a), k, s in zip(ns, bs, ks, ss)]
        same_shape(e, z, sh, "counts")
        q = idx_fresh(e, z.shape)
        want = 1
        for j in range(m):
            want = want * count(ns[j], bs[j][0], ks[j], ss[j], q[j])
        e.prove(treal(z.at(*q)) == treal(want), "product of the per-axis counts")
        e.prove(z.dtype is FLOAT64, "requested dtype")
    return fn


def case1(m, name):
    return {"n": [min(m["n"], 30)], "pad": [[min(m["b"], 30), min(m["a"], 30)]], "k": [min(m["k"], 30)], "s": [min(m["s"], 30)], "nd": False}


def casen(mm, sc):
    def f(m, name):
        g = lambda c, j: min(m.get(f"{c}{0 if sc and c in 'ks' else j}", 1), 9)
        return {"n": [g("n", j) for j in range(mm)], "pad": [[g("b", j), g("a", j)] for j in range(mm)], "k": [g("k", j) for j in range(mm)], "s": [g("s", j) for j in range(mm)], "nd": True}
    return f


def harnesses(tier):
    hs = [H("n_original_elements_1d", h_1d, to_case=case1, budget=300, hooks={"nl_houdini": True, "nl_mono": True}), H("conv_1d", h_conv)]
    for m in (1, 2, 3, 4):
        for sc in (False, True):
            hs.append(H(f"n_original_elements_nd[{m} axes{' one kernel size and stride' if sc else ''}]", h_nd(m, sc), to_case=casen(m, sc)))
    return hs
