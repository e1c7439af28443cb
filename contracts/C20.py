import itertools
import z3
from common import *
from dv.core import SymInt
from dv.seq import SymList, len_
from C22 import Child, lens, prove_tuple

N = "torchimage.utils.ndspec.NdSpec."
FUNCS = [N + f for f in ("__init__", "ndim", "item_shape", "index_shape", "item_ndim", "index_ndim", "is_item", "__len__", "__getitem__", "__iter__")]
TRUSTED = ["the constructor calls get_ragged_ndarray / expand_ragged_ndarray by contract (property C22)"]
ASSUMPTIONS = ["ranks of the item shape and of the data (0 to 3) and tuple-key lengths are enumerated; lengths, indices and item contents are symbolic", "tuple-key and IndexError clauses are about data held in lists, tuples or tensors, not about a single item"]
LEVEL_NOTE = ("Constructor and lookup are discharged for lists of any length, any index and any item; the nested-data functions below are called by contract (their own contracts are property C22: list nodes there are bounded to 3 items). "
              "Ranks are enumerated. The end-to-end harnesses are bounded and not counted. A concrete run on the real code stands beside it.")


def cls(L):
    return L.load("torchimage.utils.ndspec").NdSpec


def h_init(rd, k):
    """item_shape of rank k, inferred data rank rd: state of the new object"""
    def fn(e, L):
        m = L.load("torchimage.utils.ndspec")
        data, d1, d2 = Child(()), Child(()), Child(())
        s1, isz = lens(e, "s", rd), lens(e, "i", k)
        s2 = lens(e, "e", max(rd, k))          # contract of expand_ragged_ndarray: rank of the result
        calls = []

        def g(data, strict=True):
            calls.append(("get", data, strict))
            return d1, s1

        def x(data, old_shape, new_shape):
            calls.append(("exp", data, tuple(old_shape), tuple(new_shape)))
            return d2, s2
        L.patch(m.get_ragged_ndarray, g)
        L.patch(m.expand_ragged_ndarray, x)
        o = m.NdSpec(data, item_shape=list(isz) if rd % 2 else isz)
        e.prove(len(calls) == 2 and calls[0][0] == "get" and calls[0][1] is data and calls[0][2] is True, "the data is inspected (siblings of different depth are items)")
        if len(calls) == 2:
            e.prove(calls[1][0] == "exp" and calls[1][1] is d1, "the inspected data is broadcast")
            prove_tuple(e, calls[1][2], s1, "from the inferred shape")
            prove_tuple(e, calls[1][3], isz, "to the item shape")
        e.prove(o.data is d2, "stores the broadcast data")
        state(e, o, s2, max(rd, k) - k)
    return fn


def state(e, o, shape, pos):
    prove_tuple(e, o.shape, shape, "shape")
    e.prove(o.index_pos == pos, "index rank")
    prove_tuple(e, o.index_shape, shape[:pos], "index shape")
    prove_tuple(e, o.item_shape, shape[pos:], "item shape")
    e.prove(o.ndim == len(shape) and o.index_ndim == pos and o.item_ndim == len(shape) - pos, "ranks")
    e.prove(o.is_item == (pos == 0), "is_item")
    e.prove(eq(len_(o), shape[0] if pos else 0), "length is 0 for an item, else the first index length")


def h_index_shape(rd, k):
    """index_shape given"""
    def fn(e, L):
        m = L.load("torchimage.utils.ndspec")
        data, d1 = Child(()), Child(())
        s1, ix = lens(e, "s", rd), lens(e, "i", k)
        L.patch(m.get_ragged_ndarray, lambda data, strict=True: (d1, s1))
        L.patch(m.expand_ragged_ndarray, lambda *a, **k: e.prove(False, "not broadcast"))
        fits = z3.And([z3.BoolVal(True)] + [z3.Or(tint(b) == -1, tint(a) == tint(b)) for a, b in zip(s1, ix)])
        try:
            o = m.NdSpec(data, index_shape=ix)
        except ValueError:
            e.prove(z3.Not(fits), "rejected only if a length differs")
            return
        e.prove(fits, "a different length is rejected")
        e.prove(o.data is d1, "data kept")
        state(e, o, s1, k)
    return fn


def h_short(e, L):
    """data less deep than the index shape"""
    m = L.load("torchimage.utils.ndspec")
    v = e.input_int("v")
    n = e.input_int("n", -1)
    for d in (v, "s", None, 2.5):
        expect_raises(e, ValueError, lambda: m.NdSpec(d, index_shape=(n,)), "a scalar has no index axis")
        expect_raises(e, ValueError, lambda: m.NdSpec(d, index_shape=(n, -1)), "a scalar has no index axes")
    expect_raises(e, ValueError, lambda: m.NdSpec([v, v], index_shape=(2, n)), "a flat list has one index axis")
    expect_raises(e, ValueError, lambda: m.NdSpec([], index_shape=(n, 1)), "an empty list has one index axis")
    expect_raises(e, ValueError, lambda: m.NdSpec([v, [v]], index_shape=(2, 1)), "a row is missing")
    x = inpu("x", (3,))
    expect_raises(e, ValueError, lambda: m.NdSpec(x, index_shape=(n, -1)), "a vector has one index axis")
    for d, s in (([[v, v], [[v], [v]]], (2, 2)), ([[[v]], [[v], [[v, v]]]], (2, -1)), ([[v, [v]], [v, v]], (2, 2)), ([[[v], v], [[[v]], [v, v]]], (-1, 2)), ([["ab", [v]], [None, [[v]]]], (2, 2))):
        o = m.NdSpec(d, index_shape=s)
        e.prove(o.data is d and o.index_pos == 2 and o.index_shape[0] == 2, "items of different depth keep the index shape")
        for i in range(2):
            for j in range(len(d[i])):
                e.prove(o[i, j] is d[i][j], "their entries are the items")


def h_copy(e, L):
    C = cls(L)
    for pos in (0, 1, 2):
        o = C.__new__(C)
        o.data, o.shape, o.index_pos = Child(()), lens(e, "s", 3), pos
        sh = o.shape
        for kw in ({}, {"item_shape": (2,)}, {"index_shape": (4,)}):
            p = C(o, **kw)
            e.prove(p.data is o.data, "a copy keeps the data")
            state(e, p, sh, pos)
            e.prove(o.index_pos == pos and o.shape is sh, "the original is not modified")


def h_item(e, L):
    """one item: every index returns it"""
    C = cls(L)
    for r in range(3):
        for d in (Child(()), e.fresh_int("v"), inpu("x", (e.fresh_int("m", 0), 2))):
            o = C.__new__(C)
            o.data, o.shape, o.index_pos = d, lens(e, "s", r), 0
            for k in (e.fresh_int("k"), 0, -81, 12, (0,), (e.fresh_int("k"), 5), ()):
                e.prove(o[k] is d, "every index returns the item")
            e.prove(eq(len_(o), 0), "length 0")
            it = o.__iter__()
            e.prove(next(it) is d, "iterates over the one item")
            expect_raises(e, StopIteration, lambda: next(it), "once")


def mklist(e, name, n):
    f = e.fresh_fn(name, 1, z3.IntSort())
    return SymList.make(n, lambda i: SymInt(f(tint(i) if not isinstance(i, z3.ExprRef) else i))), f


def h_list(e, L):
    """a list of n items"""
    C = cls(L)
    n = e.input_int("n", 0)
    data, f = mklist(e, "d", n)
    o = C.__new__(C)
    o.data, o.shape, o.index_pos = data, (n,), 1
    k = e.input_int("k")
    e.prove(eq(len_(o), n), "length")
    it = o.__iter__()
    e.prove(eq(len_(it), n), "iterates over n items")
    i = e.fresh_int("i", 0)
    if e.decide(tint(n) > 0):
        e.assume(cmp(i, n, "<"))
        e.prove(tint(it[i]) == f(tint(i)), "iterates in order")
    for key in (k, (k,)):
        inside = z3.And(tint(k) >= -tint(n), tint(k) < tint(n))
        try:
            v = o[key]
        except IndexError:
            e.prove(z3.Not(inside), "IndexError only outside")
            continue
        e.prove(inside, "IndexError outside")
        e.prove(tint(v) == f(z3.If(tint(k) < 0, tint(k) + tint(n), tint(k))), "item i")
    rows = C.__new__(C)
    pair = SymList([SymInt(f(z3.IntVal(0))), SymInt(f(z3.IntVal(1)))])
    rows.data, rows.shape, rows.index_pos = SymList.make(n, lambda i: pair), (n, 2), 1
    expect_raises(e, IndexError, lambda: rows[0, 0], "a key does not reach into the items")
    expect_raises(e, IndexError, lambda: rows[k, 1], "a key does not reach into the items")
    e.prove(o[()] is data, "an empty tuple key descends nowhere")
    expect_raises(e, IndexError, lambda: o[k, 0], "a key longer than the index rank")
    expect_raises(e, IndexError, lambda: o[0, k, 0], "a key longer than the index rank")


def h_nested(e, L):
    """two index axes; rows of any (different) length"""
    C = cls(L)
    n, f = e.input_int("n", 1), e.fresh_fn("d", 2, z3.IntSort())
    g = e.fresh_fn("len", 1, z3.IntSort())

    def row(i):
        i = tint(i) if not isinstance(i, z3.ExprRef) else i
        m = e.fresh_int("row", 0)
        e.assume(g(i) == tint(m))
        return SymList.make(m, lambda j: SymInt(f(i, tint(j) if not isinstance(j, z3.ExprRef) else j)))
    data = SymList.make(n, row)
    o = C.__new__(C)
    o.data, o.shape, o.index_pos = data, (n, -1), 2
    a, b = e.input_int("a"), e.input_int("b")
    ia = z3.And(tint(a) >= -tint(n), tint(a) < tint(n))
    ra = z3.If(tint(a) < 0, tint(a) + tint(n), tint(a))
    try:
        v = o[a, b]
    except IndexError:
        e.prove(z3.Not(z3.And(ia, tint(b) >= -g(ra), tint(b) < g(ra))), "IndexError only outside")
    else:
        e.prove(ia, "outer index in range")
        e.prove(z3.And(tint(b) >= -g(ra), tint(b) < g(ra)), "inner index in range")
        e.prove(tint(v) == f(ra, z3.If(tint(b) < 0, tint(b) + g(ra), tint(b))), "one level per entry")
    expect_raises(e, IndexError, lambda: o[a, b, 0], "a key longer than the index rank")
    expect_raises(e, IndexError, lambda: o[0, 0, 0, 0], "a key longer than the index rank")
    try:
        r = o[a]
    except IndexError:
        e.prove(z3.Not(ia), "IndexError only outside")
        return
    e.prove(ia, "outer index in range")
    j = e.fresh_int("j", 0)
    e.assume(tint(j) < g(ra))
    e.prove(eq(len_(r), SymInt(g(ra))), "a row")
    e.prove(tint(r[j]) == f(ra, tint(j)), "a row")


def h_tensor(e, L):
    """a tensor of items, through the real constructor"""
    C = cls(L)
    n, m = e.input_int("n", 1), e.input_int("m", 1)
    for lib in ("torch", "np"):
        x = inpu("x", (n, m))
        x.lib = lib
        o = C(x, item_shape=(-1,))
        state(e, o, (n, m), 1)
        k = e.fresh_int("k")
        e.assume(z3.And(tint(k) >= -tint(n), tint(k) < tint(n)))
        y = o[k]
        same_shape(e, y, (m,), "row")
        i, = idx_fresh(e, (m,))
        e.prove(eq(y.at(i), x.at(core.ite(cmp(k, 0, "<"), k + n, k), i)), "row k")
        o = C(x, item_shape=())
        state(e, o, (n, m), 2)
        a, b = idx_fresh(e, (n, m))
        e.prove(eq(o[a, b].item(), x.at(a, b)), "entry")
        expect_raises(e, IndexError, lambda: o[a, b, 0], "a key longer than the index rank")
        o = C(x, item_shape=(-1, -1))
        state(e, o, (n, m), 0)
        same_shape(e, o[k], (n, m), "the item")
        e.prove(eq(o[k].at(a, b), x.at(a, b)), "the item")


# ---- end to end (bounded structures, symbolic leaves)
def h_end(n):
    def fn(e, L):
        C = cls(L)
        v = [e.fresh_int("v") for _ in range(2 * n + 2)]
        k = None

        def look(o, items, name):
            e.prove(eq(len_(o), len(items)), f"{name}: length")
            try:
                r = o[k]
            except IndexError:
                e.prove(z3.Or(tint(k) < -len(items), tint(k) >= len(items)), f"{name}: IndexError only outside")
                return
            i = e.unique_int(z3.If(tint(k) < 0, tint(k) + len(items), tint(k))) if not isinstance(k, int) else k
            deep(r, items[i], name)

        def deep(a, b, name):
            if isinstance(b, (list, tuple)):
                e.prove(isinstance(a, (list, tuple)) and len(a) == len(b), f"{name}: item length")
                for p, q in zip(a, b):
                    deep(p, q, name)
            else:
                e.prove(eq(a, b), f"{name}: item")
        for kk in range(-n - 1, n + 1):
            k = kk
            for kind in (list, tuple):
                items = kind(v[:n])
                look(C(items, item_shape=()), items, "scalars")
                pairs = kind([kind([v[2 * i], v[2 * i + 1]]) for i in range(n)])
                look(C(pairs, item_shape=(2,)), pairs, "pairs")
                look(C(kind([kind([a]) for a in v[:n]]), item_shape=(2,)), [(a, a) for a in v[:n]], "partial pairs")
                rag = kind([kind(v[:i + 1]) for i in range(n)])
                look(C(rag, item_shape=(-1,)), rag, "ragged rows")
                deep3 = kind([pairs, pairs])
                if kk in (-1, 0, 1):
                    o = C(deep3, item_shape=(2,))
                    e.prove(o.index_ndim == 2, "two index axes")
                    e.prove(eq(o[1, min(kk, n - 1)][0], pairs[min(kk, n - 1)][0]), "two index axes: entry")
            for data, ish, want in ((v[0], (), v[0]), (v[0], (2,), (v[0], v[0])), ([v[0]], (3,), (v[0],) * 3), ([v[0], v[1]], (2,), [v[0], v[1]]), (v[0], (2, -1), ((v[0],), (v[0],))), (v[:n], (-1,), v[:n]), ("hello", (), "hello"), ([], (-1,), [])):
                o = C(data, item_shape=ish)
                e.prove(eq(len_(o), 0), "an item has length 0")
                if isinstance(want, str):
                    e.prove(o[kk] == want, "a string is an item")
                else:
                    deep(o[kk], want, f"item of shape {ish}")
    return fn


def harnesses(tier):
    hs = [H("copy", h_copy), H("item lookup", h_item), H("list lookup", h_list, to_case=lambda m, n: {"form": "list", "n": max(0, min(int(m.get("n", 2)), 5)), "k": int(m.get("k", 0)), "seed": 1}),
          H("nested lookup", h_nested), H("tensors", h_tensor), H("index shape too deep", h_short)]
    for rd in range(4):
        for k in range(4):
            hs.append(H(f"constructor[data rank {rd}, item rank {k}]", h_init(rd, k)))
            if k <= rd:
                hs.append(H(f"constructor with index shape[data rank {rd}, index rank {k}]", h_index_shape(rd, k)))
    for n in (1, 2, 3):
        hs.append(H(f"end to end[{n}]", h_end(n), bounded=f"{n} items, listed nestings"))
    return hs
