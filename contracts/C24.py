import itertools
import z3
from common import *
from dv.core import SymReal, wrap
from dv.seq import SymList

FUNCS = ["torchimage.misc.polynomial.poly1d", "torchimage.misc.outer.outer"]
TRUSTED = []
ASSUMPTIONS = ["ranks of the tensors are enumerated (0 to 3), sizes and contents symbolic; floating-point tensors"]


def poly(e, x, p):
    """the definition, on one element: sum of p[j] * x^(n-1-j)"""
    s = z3.RealVal(0)
    n = len(p)
    for j, c in enumerate(p):
        t = treal(c)
        for _ in range(n - 1 - j):
            t = t * treal(x)
        s = s + t
    return s


def h_poly(r, n, kind):
    def fn(e, L):
        f = L.load("torchimage.misc.polynomial").poly1d
        x = inp("x", tuple(e.input_int(f"n{i}", 1) for i in range(r)), FLOAT32 if n % 2 else FLOAT64)
        p = kind([e.input_real(f"p{i}") for i in range(n)])
        q = list(p)
        y = f(x, p)
        same_shape(e, y, x.shape, "result")
        e.prove(y.dtype is x.dtype, "dtype kept")
        i = idx_fresh(e, x.shape)
        e.prove(treal(y.at(*i)) == poly(e, x.at(*i), q), "the polynomial's value")
        e.prove(y.storage is not x.storage, "a tensor of its own")
        unchanged(e, x, "x not modified")
        e.prove(len(p) == n and all(a is b for a, b in zip(p, q)), "p not modified")
    return fn


def h_any(r, kind):
    """any number of coefficients: induction over the loop"""
    def fn(e, L):
        from dv.loops import Cand
        f = L.load("torchimage.misc.polynomial").poly1d
        x = inp("x", tuple(e.input_int(f"n{i}", 1) for i in range(r)))
        n = e.input_int("deg", 2)                # two coefficients or more (one: enumerated)
        P = e.uf("coef", z3.IntSort(), z3.RealSort())
        t = lambda i: i if isinstance(i, z3.ExprRef) else tint(i)
        p = SymList.make(n, lambda i: SymReal(P(t(i))))
        # ghost: pw(v, k) = v^k, part(v, k) = sum_{1<=j<=k} p[n-1-j] v^j, defined by their recursions
        R_ = z3.RealSort()
        pw, part = e.uf("pw", R_, z3.IntSort(), R_), e.uf("part", R_, z3.IntSort(), R_)
        # nested form: hn(v, 0) = 0, hn(v, k+1) = hn(v, k) v + p[k]
        hn = e.uf("hn", R_, z3.IntSort(), R_)

        def facts(v, k, nested=False):
            """instances of the recursive definitions at k"""
            v, k = treal(v), t(k)
            e.assume(pw(v, z3.IntVal(1)) == v)
            e.assume(z3.Implies(k >= 1, pw(v, k + 1) == pw(v, k) * v))
            e.assume(part(v, z3.IntVal(0)) == 0)
            e.assume(z3.Implies(k >= 0, part(v, k + 1) == part(v, k) + P(tint(n) - 2 - k) * pw(v, k + 1)))
            if not nested:
                return
            e.assume(hn(v, z3.IntVal(0)) == 0)
            e.assume(z3.Implies(k >= 0, hn(v, k + 1) == hn(v, k) * v + P(k)))

        last = lambda k, d: z3.If(k + d < tint(n) - 1, k + d, tint(n) - 1)
        forms = [("the partial sum", lambda v, k: part(v, k)), ("the running power", lambda v, k: pw(v, last(k, 1))),
                 ("the last power", lambda v, k: pw(v, last(k, 0))), ("the next power", lambda v, k: pw(v, k + 1)),
                 ("the partial sum with the constant", lambda v, k: part(v, k) + P(tint(n) - 1)),
                 ("the nested form", lambda v, k: hn(v, k)), ("the nested form, one ahead", lambda v, k: hn(v, k + 1))]
        def schema(env):
            """y holds the partial sum, xx the running power (whatever the variables are called)"""
            out = []
            for nm, v0 in env.vals.items():
                if not isinstance(v0, SymTensor) or v0.ndim != r:
                    continue
                for name, spec in forms:
                    def f(env, nm=nm, spec=spec, name=name):
                        v = env.vals[nm]
                        if not isinstance(v, SymTensor) or v.ndim != r or env.k is None:
                            return None
                        decl = getattr(v.storage, "decl", None)
                        v = v.clone()            # its value now: the loop body may write to the tensor later

                        def body(*a):
                            xv = x.at(*[wrap(z) for z in a])
                            ne = "nested" in name
                            facts(xv, 0, ne)
                            facts(xv, env.k, ne)
                            facts(xv, env.k - 1 if not isinstance(env.k, int) else 0, ne)
                            inside = z3.And([z3.BoolVal(True)] + [z3.And(z >= 0, z < tint(s)) for z, s in zip(a, x.shape)])
                            return z3.Implies(inside, treal(v.at(*[wrap(z) for z in a])) == spec(treal(xv), t(env.k)))
                        if r == 0:
                            return wrap(body())
                        return (decl if decl is not None else x.decl, body, None)
                    out.append(Cand(f"{nm} is {name}", f, "forall" if r else "bool"))
            return out
        e.hooks["loop_schema"] = schema
        e.hooks["native_limit"] = 0
        e.hooks["nl_houdini"] = True
        y = f(x, p)
        same_shape(e, y, x.shape, "result")
        i = idx_fresh(e, x.shape)
        xv = x.at(*i)
        facts(xv, 0)
        facts(xv, n - 2)
        goal = treal(y.at(*i)) == part(treal(xv), tint(n) - 1) + P(tint(n) - 1)
        if not e.prove(goal, "direct", record=False):
            # the nested form is the polynomial: hn(n) = hn(n-j) v^j + part(j-1) + p[n-1] by induction on j
            j, v = e.fresh("j"), treal(xv)
            for k in (j, tint(n) - j - 1, j - 1, n - 1):
                facts(xv, k, True)
            T = lambda j: hn(v, tint(n)) == hn(v, tint(n) - j) * pw(v, j) + part(v, j - 1) + P(tint(n) - 1)
            if e.lemma(T(z3.IntVal(1)), "nested form: base") and e.lemma(z3.Implies(z3.And(j >= 1, j < tint(n), T(j)), T(j + 1)), "nested form: step"):
                e.assume(T(tint(n)))
        e.prove(goal, "the polynomial's value, any number of coefficients")
        e.prove(y.storage is not x.storage, "a tensor of its own")
        unchanged(e, x, "x not modified")
    return fn


def h_outer(a, b, lib):
    def fn(e, L):
        f = L.load("torchimage.misc.outer").outer
        u = inp("u", tuple(e.input_int(f"u{i}", 1) for i in range(a)))
        v = inp("v", tuple(e.input_int(f"v{i}", 1) for i in range(b)))
        u.lib = v.lib = lib
        w = f(u, v)
        same_shape(e, w, tuple(u.shape) + tuple(v.shape), "outer product")
        i, j = idx_fresh(e, u.shape), idx_fresh(e, v.shape)
        e.prove(treal(w.at(*i, *j)) == treal(u.at(*i)) * treal(v.at(*j)), "product of the entries")
        unchanged(e, u, "u not modified")
        unchanged(e, v, "v not modified")
    return fn


def harnesses(tier):
    g = lambda m, k, hi=4: max(1, min(int(m.get(k, 2)), hi))
    hs = [H(f"outer[rank {a} x rank {b}, {lib}]", h_outer(a, b, lib), to_case=lambda m, n, a=a, b=b, lib=lib: {"form": "outer", "u": [g(m, f"u{i}") for i in range(a)], "v": [g(m, f"v{i}") for i in range(b)], "lib": lib, "seed": 1})
          for a in range(4) for b in range(4) for lib in ("torch", "np")]
    for r in range(4):
        hs.append(H(f"poly1d[rank {r}, any number of coefficients]", h_any(r, list)))
    for r in range(4):
        for n in range(1, 9 if tier == "quick" else 13):
            for kind in ((list, tuple) if n < 5 else (list,)):
                hs.append(H(f"poly1d[rank {r}, {n} coefficients, {kind.__name__}]", h_poly(r, n, kind),
                            to_case=lambda m, nm, r=r, n=n: {"form": "poly", "s": [g(m, f"n{i}") for i in range(r)], "n": n, "dt": "float64", "seed": 1}))
    return hs
