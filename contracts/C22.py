"""The two recursive functions are verified one level at a time: the recursive call is replaced by its contract (an
arbitrary child with an arbitrary result), so nesting depth and leaf contents are not bounded; the number of items of
a list node and the ranks of the children are enumerated."""
import itertools
import numpy as np
import z3
from common import *
from dv.seq import SymList
from dv.core import SymInt, SymBool
from dv.tensor import apply_fn

R = "torchimage.utils.ragged."
FUNCS = [R + f for f in ("is_scalar", "get_ragged_ndarray", "_recursive_expand", "_check_zero_length", "expand_ragged_ndarray", "_recursive_apply", "apply_ragged_ndarray")]
TRUSTED = ["a recursive call obeys the function's own contract (structural induction over the finite nesting)"]
ASSUMPTIONS = ["list nodes have 1 to 3 items (1 to 4 in the thorough tier) and children of rank 0 to 3 (enumerated); lengths, leaf contents, tensor sizes and target lengths are symbolic",
               "arrays are numeric or boolean (numpy arrays of objects are treated as nested lists by the code)", "input structures are finite and not cyclic"]
LEVEL = "exploration"
LEVEL_NOTE = ("Contracts with the recursive call replaced by the contract, discharged by z3: scalars, tensors, arrays, right alignment and leading axes for all inputs; list nodes for 1-3 items and child ranks 0-3 only "
              "(bounded, symbolic lengths), so this is not counted as a proof. A concrete run on the real code (random nestings to depth 4) stands beside it.")
NB = "list nodes of at most 3 items, child ranks at most 3"


class Child:
    """an arbitrary nested object: all that is known of it is what the contract of the recursive call says"""

    def __init__(self, shape, new=None):
        self.shape_, self.new = tuple(shape), new if new is not None else self

    def __len__(self):
        return 1

    __array__ = None      # not a scalar

    def __repr__(self):
        return f"child{len(self.shape_)}"


def lens(e, name, k, lo=-1):
    return tuple(e.fresh_int(name, lo) for _ in range(k))


def prove_len(e, got, alts, name):
    """got == the common value of alts, or -1"""
    same = z3.And([tint(a) == tint(alts[0]) for a in alts])
    e.prove(tint(got) == z3.If(same, tint(alts[0]), z3.IntVal(-1)), name)


def prove_tuple(e, got, want, name):
    e.prove(isinstance(got, tuple) and len(got) == len(want), f"{name}: rank")
    if len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            e.prove(eq(a, b), f"{name}: axis {i}")


# ---- get_ragged_ndarray
def h_node(ranks, strict, kind, changed):
    def fn(e, L):
        m = L.load("torchimage.utils.ragged")
        f = m.get_ragged_ndarray
        kids = [Child(lens(e, f"s{i}_", r), Child((), None) if c else None) for i, (r, c) in enumerate(zip(ranks, changed))]
        seen = []

        def stub(data, strict=True):
            seen.append((data, strict))
            return data.new, data.shape_
        L.patch(f, stub)
        data = kind(kids)
        res = f(data, strict=strict)
        e.prove(len(res) == 2, "returns data and shape")
        out, shape = res
        e.prove([id(a) for a, _ in seen] == [id(k) for k in kids] and all(s == strict for _, s in seen), "every item is inspected once, in order, with the same strictness")
        n = len(kids)
        d = ranks[0] if len(set(ranks)) == 1 else (0 if strict else max(ranks))
        e.prove(len(shape) == d + 1, "rank is one more than the items' common rank")
        e.prove(eq(shape[0], n), "length of this level")
        for a in range(min(d, len(shape) - 1)):
            alts = []
            for k, r in zip(kids, ranks):
                alts.append(k.shape_[a - (d - r)] if a >= d - r else 1)
            prove_len(e, shape[a + 1], alts, f"axis {a + 1} is the common length or -1")
        lifted = (not strict and len(set(ranks)) > 1) or (any(changed) and (len(set(ranks)) == 1 or not strict))
        if not lifted:
            e.prove(out is data, "data is returned unchanged")
        else:
            e.prove(isinstance(out, tuple) and len(out) == n, "lifted data is a tuple of the items")
            for x, k, r in zip(out, kids, ranks):
                ok = True
                for _ in range(d - r):
                    ok = ok and isinstance(x, tuple) and len(x) == 1
                    x = x[0] if ok else x
                e.prove(ok and x is k.new, "each item is kept, wrapped in the missing levels only")
        e.prove(type(data) is kind and len(data) == n and all(a is b for a, b in zip(data, kids)), "the argument is not modified")
    return fn


def h_base(e, L):
    m = L.load("torchimage.utils.ragged")
    f = m.get_ragged_ndarray
    for strict in (True, False):
        for r in range(4):
            sh = tuple(e.fresh_int("n", 0) for _ in range(r))
            for lib in ("torch", "np"):
                for dt in (FLOAT64, INT64, BOOL):
                    x = inpu("x", sh, dt)
                    x.lib = lib
                    d, s = f(x, strict=strict)
                    e.prove(d is x, f"{lib} array of rank {r} unchanged")
                    prove_tuple(e, s, sh, f"shape of a {lib} array of rank {r}")
        for v in (e.fresh_int("v"), 0.5, "text", "", None, 3, 2.5, True, object(), b"x", np.float64(3), np.array(4.0)):
            d, s = f(v, strict=strict)
            e.prove(d is v and s == (), "a scalar is a leaf")
        for v in ([], ()):
            d, s = f(v, strict=strict)
            e.prove(d is v and s == (0,), "an empty list has shape (0,)")


# ---- expand
ERR = (ValueError, RuntimeError)


def h_exp_node(n, rank, kind, modif, full=True):
    """one level of the expansion"""
    def fn(e, L):
        m = L.load("torchimage.utils.ragged")
        f = m._recursive_expand
        new = [Child(()) if c else None for c in modif]
        kids = [Child(lens(e, f"s{i}_", rank, 0), w) for i, w in enumerate(new)]
        rest = tuple(e.fresh_int("t", -1) for _ in range(rank))
        t0 = e.input_int("t0", -1)
        bad = e.input_int("bad", -1)      # which child cannot be expanded (none if it is not a position)
        seen = []

        def stub(arr, target_shape):
            i = [k for k, c in enumerate(kids) if c is arr][0]
            seen.append((arr, target_shape))
            if e.decide(tint(bad) == i):
                raise ValueError("child")
            return arr.new, arr.shape_, modif[i]
        L.patch(f, stub)
        data = kind(kids)
        try:
            out, shape, modified = f(data, (t0,) + rest)
        except ValueError:
            e.prove(z3.Or(z3.And(tint(bad) >= 0, tint(bad) < n), z3.And(tint(t0) != -1, tint(t0) != n, n != 1)), "raises only when an item cannot be expanded or a length other than 1 would change")
            return
        e.prove([id(a) for a, _ in seen] == [id(k) for k in kids], "every item is expanded once")
        for _, t in seen:
            prove_tuple(e, t, rest, "items are expanded to the remaining lengths")
        e.prove(z3.Or(tint(t0) == -1, tint(t0) == n, z3.BoolVal(n == 1)), "a length other than 1 cannot change")
        e.prove(z3.Not(z3.And(tint(bad) >= 0, tint(bad) < n)), "an item's error is passed on")
        ln = core.ite(cmp(t0, -1, "=="), n, t0)
        e.prove(isinstance(shape, tuple) and len(shape) == rank + 1, "rank")
        e.prove(eq(shape[0], ln), "reported length")
        for a in range(rank):
            prove_len(e, shape[a + 1], [k.shape_[a] for k in kids], f"axis {a + 1} is the common length or -1")
        if e.decide(tint(ln) == 0):
            e.prove(eq(core_len(out), 0), "empty result")
            e.prove(bool(modified), "flagged as modified")
            return
        e.prove(eq(core_len(out), ln), "length of the result")
        same = z3.Or(tint(t0) == -1, tint(t0) == n)
        if e.decide(same):
            e.prove(bool(modified) == any(modif), "flagged as modified exactly when something changed")
            if not any(modif):
                e.prove(out is data, "unchanged data")
            else:
                e.prove(len(out) == n and all(a is k.new for a, k in zip(out, kids)), "the expanded items in order")
        else:
            i = e.fresh_int("i", 0)
            e.assume(cmp(i, ln, "<"))
            e.prove(out[i] is kids[0].new, "the single item is repeated")
            e.prove(bool(modified), "flagged as modified")
        e.prove(len(data) == n and all(a is b for a, b in zip(data, kids)), "the argument is not modified")
    return fn


def core_len(x):
    from dv.seq import len_
    return len_(x)


def h_exp_arr(rank, lib):
    def fn(e, L):
        m = L.load("torchimage.utils.ragged")
        sh = tuple(e.fresh_int("n", 1) for _ in range(rank))
        x = inp("x", sh)
        x.lib = lib
        t = tuple(e.fresh_int("t", -1) for _ in range(rank))
        for v in t:
            e.assume(tint(v) != 0)
        ok = z3.And([z3.Or(tint(a) == -1, tint(a) == tint(b), tint(b) == 1) for a, b in zip(t, sh)])
        try:
            y, s, modified = m._recursive_expand(x, t)
        except ERR:
            e.prove(z3.Not(ok), "raises only when a length other than 1 would change")
            return
        e.prove(ok, "a length other than 1 cannot change")
        want = [core.ite(cmp(a, -1, "=="), b, a) for a, b in zip(t, sh)]
        same_shape(e, y, want, "expanded array")
        prove_tuple(e, s, want, "reported shape")
        ix = idx_fresh(e, want)
        e.prove(eq(y.at(*ix), x.at(*[core.ite(cmp(n, 1, "=="), 0, i) for i, n in zip(ix, sh)])), "values repeated along the expanded axes")
        e.prove(tbool(modified) == z3.Or([tint(a) != tint(b) for a, b in zip(want, sh)]), "flagged as modified exactly when the shape changed")
        unchanged(e, x, "input")
    return fn


def h_exp_leaf(e, L):
    m = L.load("torchimage.utils.ragged")
    f = m._recursive_expand
    for v in (Child(()), e.input_int("v"), "s", inpu("x", (e.fresh_int("n", 0),)), [1, 2]):
        y, s, mod = f(v, ())
        e.prove(y is v and s == () and not mod, "a leaf is kept as it is")
    t = e.input_int("t", -1)
    for v in ([], ()):
        try:
            y, s, mod = f(v, (t,))
        except ValueError:
            e.prove(tint(t) > 0, "an empty list only fails for a positive length")
            continue
        e.prove(tint(t) <= 0, "an empty list cannot get a positive length")
        e.prove(y is v and s == (0,) and not mod, "an empty list stays empty")


def h_zero(ro, rn):
    def fn(e, L):
        m = L.load("torchimage.utils.ragged")
        o, n = lens(e, "o", ro), lens(e, "n", rn)
        k = min(ro, rn)
        bad = z3.Or([z3.BoolVal(False)] + [z3.And(tint(o[ro - 1 - i]) == 0, tint(n[rn - 1 - i]) > 0) for i in range(k)])
        try:
            r = m._check_zero_length(o, n)
        except ValueError:
            e.prove(bad, "rejected only if a zero length would become positive")
            return
        e.prove(z3.Not(bad), "a zero length cannot become positive")
    return fn


def h_expand(ro, rn):
    def fn(e, L):
        m = L.load("torchimage.utils.ragged")
        o, n = lens(e, "o", ro), lens(e, "n", rn)
        lead = max(rn - ro, 0)
        data, inner = Child(o), Child(())
        fs = lens(e, "f", ro)
        got = []

        def stub(arr, target_shape):
            got.append((arr, target_shape))
            return inner, fs, True
        zero = z3.Or([z3.BoolVal(False)] + [z3.And(tint(o[ro - 1 - i]) == 0, tint(n[rn - 1 - i]) > 0) for i in range(min(ro, rn))])
        L.patch(m._recursive_expand, stub)
        same = z3.And([tint(a) == tint(b) for a, b in zip(o, n)]) if ro == rn else z3.BoolVal(False)
        try:
            out, shape = m.expand_ragged_ndarray(data, o, n)
        except ValueError:
            e.prove(zero, "rejected only for a zero length that would become positive")
            return
        if not got:
            e.prove(same, "no work only for equal shapes")
            e.prove(out is data, "data kept for equal shapes")
            prove_tuple(e, shape, o, "shape kept")
            return
        e.prove(z3.Not(zero), "a zero length cannot become positive")
        e.prove(len(got) == 1 and got[0][0] is data, "expanded once")
        prove_tuple(e, got[0][1], tuple([-1] * max(ro - rn, 0)) + n[lead:], "right-aligned target, further axes kept")
        want = [core.ite(cmp(v, -1, "=="), 1, v) for v in n[:lead]]
        prove_tuple(e, shape, tuple(want) + fs, "reported shape")
        x = out
        for w in want:
            e.prove(eq(core_len(x), w), "length of a leading axis")
            if e.decide(tint(w) <= 0):
                return
            i = e.fresh_int("i", 0)
            e.assume(cmp(i, w, "<"))
            if isinstance(x, SymList):
                x = x[i]
            else:
                e.prove(all(z is x[0] for z in x), "a leading axis repeats one object")
                x = x[0]
        e.prove(x is inner, "the expanded data below the leading axes")
    return fn


def h_apply(e, L):
    m = L.load("torchimage.utils.ragged")
    calls = []

    def func(x):
        calls.append(x)
        return ("r", x)
    a, b, c = [Child(()) for _ in range(3)]
    e.prove(m.apply_ragged_ndarray(a, func, 0) == ("r", a), "depth 0 is the item itself")
    for kind in (list, tuple):
        e.prove(m.apply_ragged_ndarray(kind([a, b, c]), func, 1) == (("r", a), ("r", b), ("r", c)), "depth 1")
        e.prove(m.apply_ragged_ndarray(kind([kind([a]), kind([b, c]), kind([])]), func, 2) == ((("r", a),), (("r", b), ("r", c)), ()), "depth 2")
    e.prove(len(calls) == 1 + 2 * 6, "each item once")
    for bad in (-1, 1.5, None, "1"):
        expect_raises(e, ValueError, lambda: m.apply_ragged_ndarray([a], func, bad), f"depth {bad!r} is rejected")


def h_apply_step(e, L):
    """one level, any length: the recursive call by contract"""
    m = L.load("torchimage.utils.ragged")
    f = m._recursive_apply
    n = e.input_int("n", 0)
    A = e.fresh_fn("a", 1, z3.IntSort())
    F = e.fresh_fn("f", 2, z3.IntSort())
    arr = SymList.make(n, lambda i: SymInt(A(tint(i) if not isinstance(i, z3.ExprRef) else i)))
    d = e.input_int("d", 1)

    def stub(arr, func, depth):
        return SymInt(F(tint(arr), tint(depth)))
    L.patch(f, stub)
    r = f(arr, None, d)
    e.prove(eq(core_len(r), n), "as many results as items")
    i = e.fresh_int("i", 0)
    e.assume(cmp(i, n, "<"))
    e.prove(tint(r[i]) == F(A(tint(i)), tint(d) - 1), "item i is the result for item i one level down")


def case_node(ranks, strict):
    return lambda m, n: {"form": "random", "seed": 1, "strict": strict}


def harnesses(tier):
    mk = []
    q = tier == "quick"
    hs = [H("scalars, arrays, empty lists", h_base), H("expand: leaves and empty lists", h_exp_leaf), H("apply: one level", h_apply_step), H("apply", h_apply)]
    combos = [c for k in (1, 2) for c in itertools.product(range(4), repeat=k)]
    combos += [c for c in itertools.product(range(3), repeat=3)] + [(3, 3, 3)] + [(3, 0, 3), (1, 3, 2), (0, 0, 3)]
    if not q:
        combos += [c for c in itertools.product(range(2), repeat=4)]
    for strict in (True, False):
        for c in combos:
            if len(c) == 3 and sum(c) > 4 and q and c != (2, 2, 2):
                continue
            for ch in ({(False,) * len(c)} | ({(True,) + (False,) * (len(c) - 1), (False,) * (len(c) - 1) + (True,)} if not strict else set())):
                kind = list if (sum(c) + len(c)) % 2 else tuple
                hs.append(H(f"node[ranks {c}, strict {strict}, {kind.__name__}, lifted items {ch}]", h_node(c, strict, kind, ch), bounded=NB))
    for n in (1, 2, 3):
        for r in (0, 1, 2):
            if n == 3 and r == 2 and q:
                continue
            for mo in ({(False,) * n, (True,) + (False,) * (n - 1), (False,) * (n - 1) + (True,)}):
                hs.append(H(f"expand node[{n} items, rank {r}, modified {mo}]", h_exp_node(n, r, list if n % 2 else tuple, mo), bounded=NB))
    for r in (1, 2, 3):
        for lib in ("torch", "np"):
            hs.append(H(f"expand array[rank {r}, {lib}]", h_exp_arr(r, lib)))
    for ro in range(4):
        for rn in range(4):
            hs.append(H(f"zero lengths[{ro}->{rn}]", h_zero(ro, rn)))
            hs.append(H(f"expand[{ro}->{rn}]", h_expand(ro, rn)))
    return hs
