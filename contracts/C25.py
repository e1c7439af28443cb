import itertools
import z3
from common import *
from dv.core import SymReal, SymInt, wrap
from dv.tensor import result_dtype, INT32
from dv import tensor as T

FUNCS = ["torchimage.misc.power.safe_power"]
TRUSTED = ["pow over the reals is one uninterpreted function of base and exponent wherever torch.pow is applied (exact for integer constants up to 12 and sqrt for 1/2); its argument values, signs and masks are what is proved"]
ASSUMPTIONS = ["the common type of base and exponent is floating point, or the exponent is a non-negative integer (torch's own restriction on integer powers)",
               "ranks of base and exponent and the broadcasting pattern are enumerated (ranks 0 to 3), sizes and contents symbolic; epsilon >= 0",
               "the exactness of epsilon under x + epsilon at x = 0 is that of real arithmetic"]

DT = {"f64": FLOAT64, "f32": FLOAT32, "i64": INT64, "u8": UINT8}


def arg(e, name, kind, shape):
    """one operand: a tensor of the given kind, or a Python number"""
    if kind == "float":
        return e.input_real(name)
    if kind == "int":
        return e.input_int(name)
    if not isinstance(kind, str):
        return kind
    return inp(name, shape, DT[kind])


def val(v, idx, shape):
    """the operand's element that broadcasting puts at idx"""
    if not isinstance(v, SymTensor):
        return v
    k = len(idx) - len(shape)
    return v.at(*[0 if isinstance(s, int) and s == 1 else idx[k + j] for j, s in enumerate(shape)])


def h_power(xk, ek, pat, xr, er, eps0):
    """pat: per trailing dimension 'e' equal sizes, 'x' the base has size 1, 'y' the exponent has size 1"""
    def fn(e, L):
        f = L.load("torchimage.misc.power").safe_power
        r = max(xr, er)
        ns = [e.input_int(f"n{d}", 1) for d in range(r)]
        xs = tuple(1 if pat[d] == "x" else ns[d] for d in range(r - xr, r))
        es = tuple(1 if pat[d] == "y" else ns[d] for d in range(r - er, r))
        x, p = arg(e, "x", xk, xs), arg(e, "p", ek, es)
        want = tuple(1 if (d < r - xr or pat[d] == "x") and (d < r - er or pat[d] == "y") else ns[d] for d in range(r))
        if xk == "float" and isinstance(x, SymReal):
            pass
        i = idx_fresh(e, want)
        e.hooks["hints"] = [i]
        e.hooks["no_pow_facts"] = True
        xv, pv = val(x, i, xs), val(p, i, es)
        if ek in ("i64", "u8", "int") and xk in ("i64", "u8", "int"):
            j = idx_fresh(e, es)
            if isinstance(p, SymTensor):
                e.assume_quant(core.Quant(p.decl, lambda *a: p.decl(*a) >= 0, "exponents")) if er else e.assume(cmp(p.at(), 0, ">="))
            else:
                e.assume(cmp(p, 0, ">="))
        rx, rp = T.cast(xv, FLOAT64) if not isinstance(xv, float) else xv, pv
        eps = 0 if eps0 else e.input_real("eps")
        if not eps0:
            e.assume(treal(eps) > 0)
        kw = {} if eps0 is None else {"epsilon": eps}
        y = f(x, p, **kw) if eps0 is not None else f(x, p)
        same_shape(e, y, want, "result")
        e.prove(y.dtype.kind == result_dtype(x, p).kind, "result keeps the kind of the common type (floating if either is)")
        out = treal(y.at(*i))
        P = lambda a, b: treal(core.power(a, b))
        frac_ = tbool(cmp(core.SymReal(treal(T.elem_floor(wrap(treal(pv))))), core.SymReal(treal(pv)), "!=")) if isinstance(pv, core.Sym) else z3.BoolVal(core.frac(pv).denominator != 1)
        X = treal(xv)
        xr_ = core.SymReal(X)
        e.prove(z3.Implies(z3.Or(z3.Not(frac_), X > 0), out == P(xr_, pv)), "x^e where e is integral or x > 0")
        e.prove(z3.Implies(z3.And(frac_, X < 0), out == -P(core.SymReal(-X), pv)), "-(|x|^e) where x < 0 and e has a fractional part")
        ze = core.SymReal(treal(eps if eps0 is not None else core.frac(1e-6)))
        e.prove(z3.Implies(z3.And(frac_, X == 0), out == P(core.SymReal(X + treal(ze)), pv)), "epsilon^e where x = 0 and e has a fractional part")
        for nm, t in (("x", x), ("exponent", p)):
            if isinstance(t, SymTensor):
                unchanged(e, t, f"{nm} not modified")
    return fn


def harnesses(tier):
    hs = []

    def add(xk, ek, pat, xr, er, eps0):
        nm = f"{xk}^{ek}, rank {xr} and {er}, sizes {pat or '-'}, epsilon {'0' if eps0 else 'default' if eps0 is None else 'any'}"

        def case(m, n):
            g = lambda k: max(1, min(int(m.get(k, 2)), 3))
            r = max(xr, er)
            ns = [g(f"n{d}") for d in range(r)]
            return {"xk": xk, "ek": ek, "xs": [1 if pat[d] == "x" else ns[d] for d in range(r - xr, r)], "es": [1 if pat[d] == "y" else ns[d] for d in range(r - er, r)],
                    "eps": 0.0 if eps0 else 1e-6 if eps0 is None else .25, "seed": 1}
        hs.append(H(nm, h_power(xk, ek, pat, xr, er, eps0), to_case=case))
    tens = ["f64", "f32", "i64", "u8"] if tier == "thorough" else ["f64", "f32", "i64"]
    for xk, ek in itertools.product(tens, tens):
        for eps0 in (True, False):
            add(xk, ek, "e", 1, 1, eps0)
            add(xk, ek, "xy", 2, 2, eps0)
        add(xk, ek, "", 0, 0, False)
        add(xk, ek, "e", 0, 1, False)
        add(xk, ek, "e", 1, 0, False)
    for xk in tens:
        for num in ("float", "int", 2, 0.5, -1.5, 3.0, -1 if xk[0] == "f" else 1):
            for r in range(4 if num == "float" else 2):
                add(xk, num, "e" * r, r, 0, False)
                add(num, xk, "e" * r, 0, r, False)
        add(xk, "float", "e", 1, 0, True)
        add(xk, "float", "e", 1, 0, None)
        add("float", xk, "e", 0, 1, None)
    for pat, xr, er in (("ee", 2, 2), ("ex", 2, 2), ("ye", 2, 2), ("xx", 2, 2), ("ee", 1, 2), ("ee", 2, 1), ("exy", 3, 3), ("eee", 3, 2), ("yxe", 3, 3)):
        add("f64", "f64", pat, xr, er, False)
    return hs
