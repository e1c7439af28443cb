import itertools
import z3
from common import *
from dv.core import SymInt
from dv.seq import SymList, len_
from C22 import Child, lens, prove_tuple
from C20 import mklist

N = "torchimage.utils.ndspec.NdSpec."
FUNCS = [N + f for f in ("apply", "zip", "map", "starmap", "agg_index_shape", "agg_index_len")] + ["torchimage.utils.ragged.apply_ragged_ndarray", "torchimage.utils.ragged._recursive_apply", "torchimage.utils.ndspec._cut_depth"]
TRUSTED = ["itertools.product, numpy object arrays of concrete shape (executed by CPython)"]
ASSUMPTIONS = ["index shapes of apply/zip have concrete sizes (rank 0 to 2, sizes 1 to 3, enumerated); items and the function's results are arbitrary objects", "the index shape is regular (no -1)", "1 to 3 arguments"]
LEVEL = "exploration"
LEVEL_NOTE = ("agg_index_shape / agg_index_len are discharged for all index lengths, map for a list of any length; apply and zip walk the index shape with itertools.product, so their index sizes are concrete: "
              "rank 0-2, sizes 1-3, arbitrary items and results (bounded, not counted as a proof). A concrete run on the real code stands beside it.")


def mod(L):
    return L.load("torchimage.utils.ndspec")


def mk(C, data, shape, pos):
    o = C.__new__(C)
    o.data, o.shape, o.index_pos = data, tuple(shape), pos
    return o


def h_agg(ranks, ext):
    """index shapes of the given ranks, any lengths, ext item axes"""
    def fn(e, L):
        C = mod(L).NdSpec
        ixs = [lens(e, f"s{i}_", r, 0) for i, r in enumerate(ranks)]
        args = [mk(C, Child(()), ix + lens(e, "t", x), len(ix)) for ix, x in zip(ixs, ext)]
        full = [ix for ix in ixs if ix]
        ok = z3.BoolVal(True) if not full else (z3.BoolVal(False) if len({len(x) for x in full}) > 1 else
                                                 z3.And([tint(a) == tint(b) for x in full[1:] for a, b in zip(full[0], x)]))
        try:
            s = C.agg_index_shape(*args)
        except ValueError:
            e.prove(z3.Not(ok), "rejected only if two index shapes differ")
        else:
            e.prove(ok, "different index shapes are rejected")
            prove_tuple(e, s, full[0] if full else (), "the common index shape")
        for allowed in (None, (0, 1), {0, 1, 2, 3}):
            fine = allowed is None or all(r in allowed for r in ranks)
            try:
                n = C.agg_index_len(*args, allowed_index_ndim=allowed)
            except ValueError:
                e.prove(z3.Not(ok), "length: rejected only if two index shapes differ")
            except AssertionError:
                e.prove(not fine, "length: rejected only for a forbidden index rank")
            else:
                e.prove(z3.And(ok, z3.BoolVal(fine)), "length: different index shapes are rejected")
                e.prove(eq(n, full[0][0] if full else 0), "the common length")
    return fn


def h_bad(e, L):
    C = mod(L).NdSpec
    o = mk(C, [1, 2], (2,), 1)
    f = lambda *a: a
    expect_raises(e, ValueError, lambda: C.agg_index_shape(), "no argument")
    expect_raises(e, ValueError, lambda: C.agg_index_len(), "no argument")
    expect_raises(e, ValueError, lambda: C.apply(f), "no argument")
    expect_raises(e, ValueError, lambda: C.zip(), "no argument")
    for b in (1, None, [1, 2], (1, 2), "ab"):
        for args in ((b,), (o, b), (b, o)):
            expect_raises(e, ValueError, lambda: C.agg_index_shape(*args), "not an NdSpec")
            expect_raises(e, ValueError, lambda: C.agg_index_len(*args), "not an NdSpec")
            expect_raises(e, ValueError, lambda: C.apply(f, *args), "not an NdSpec")
            expect_raises(e, ValueError, lambda: C.zip(*args), "not an NdSpec")


class Leaf:
    pass


def nested(shape, fn, kind, pre=()):
    if not shape:
        return fn(pre)
    return kind([nested(shape[1:], fn, kind, pre + (i,)) for i in range(shape[0])])


def get(data, idx):
    for i in idx:
        data = data[i]
    return data


RES = {"leaf": lambda i: Leaf(), "pair": lambda i: (Leaf(), Leaf()), "list": lambda i: [Leaf()], "row": lambda i: [Leaf() for _ in range(1 + sum(i))], "mixed": lambda i: [Leaf(), [Leaf()], ([Leaf()], Leaf()), "s"][sum(i) % 4],
       "rows": lambda i: Leaf() if not i or i[0] == 0 else [[Leaf()]], "empty": lambda i: [] if sum(i) % 2 else [Leaf()], "tensor": None}


def h_apply(shape, flags, kind, res, via):
    """flags[k]: argument k is a list of items (else one item)"""
    def fn(e, L):
        C = mod(L).NdSpec
        args, items = [], []
        for k, fl in enumerate(flags):
            if fl:
                d = nested(shape, lambda i: kind([Leaf(), Leaf()]), kind)
                args.append(mk(C, d, shape + (2,), len(shape)))
                items.append(lambda i, d=d: get(d, i))
            else:
                d = kind([Leaf(), Leaf()])
                args.append(mk(C, d, (2,), 0))
                items.append(lambda i, d=d: d)
        sh = shape if any(flags) else ()
        calls, out = [], {}
        before = [a.data for a in args]
        alls = list(itertools.product(*map(range, sh)))

        def f(*a):
            i = alls[len(calls)]
            calls.append(a)
            r = inpu("r", (e.fresh_int("n", 1),)) if res == "tensor" else RES[res](i)
            out[i] = r
            return r
        if via == "zip":
            o = C.zip(*args)
        elif via == "map":
            o = args[0].map(f)
        elif via == "starmap":
            o = args[0].starmap(f)
        else:
            o = C.apply(f, *args)
        e.prove(isinstance(o, C), "returns an NdSpec")
        prove_tuple(e, o.index_shape, sh, "the common index shape")
        e.prove(eq(len_(o), sh[0] if sh else 0), "length")
        if via != "zip":
            e.prove(len(calls) == len(alls), "called once per index")
        for n, i in enumerate(alls):
            want = [it(i) for it in items]
            if via == "zip":
                got = o[i] if i else o[0]
                e.prove(isinstance(got, tuple) and len(got) == len(want) and all(g is w for g, w in zip(got, want)), "the tuple of the items")
            else:
                w = list(want[0]) if via == "starmap" else want
                e.prove(n < len(calls) and len(calls[n]) == len(w) and all(a is b for a, b in zip(calls[n], w)), "called with the items at that index")
                e.prove((o[i] if i else o[3]) is out.get(i), "its entry is the function's result")
        e.prove(all(a.data is b for a, b in zip(args, before)) and all(a.index_pos == (len(shape) if fl else 0) for a, fl in zip(args, flags)), "arguments keep their data")
        for k, fl in enumerate(flags):
            if fl:
                e.prove(all(isinstance(get(args[k].data, i), kind) and len(get(args[k].data, i)) == 2 for i in itertools.product(*map(range, shape))), "arguments are not modified")
    return fn


def h_map(star):
    """a list of any length; the constructor by contract"""
    def fn(e, L):
        m = mod(L)
        C = m.NdSpec
        n = e.input_int("n", 1)
        data, d = mklist(e, "d", n)
        if star:
            g = e.fresh_fn("d2", 1, z3.IntSort())
            t = lambda i: tint(i) if not isinstance(i, z3.ExprRef) else i
            data = SymList.make(n, lambda i: (SymInt(d(t(i))), SymInt(g(t(i)))))
        F = e.fresh_fn("f", 2 if star else 1, z3.IntSort())
        o = mk(C, data, (n, 2) if star else (n,), 1)

        def stub(x, strict=True):
            return x, (len_(x),)
        L.patch(m.get_ragged_ndarray, stub)
        if star:
            p = o.starmap(lambda a, b: SymInt(F(tint(a), tint(b))))
        else:
            p = o.map(lambda a: SymInt(F(tint(a))))
        e.prove(p.index_pos == 1 and len(p.shape) == 1, "index rank")
        e.prove(eq(p.shape[0], n), "index shape")
        i = e.fresh_int("i", 0)
        e.assume(cmp(i, n, "<"))
        want = F(d(tint(i)), g(tint(i))) if star else F(d(tint(i)))
        e.prove(tint(p[i]) == want, "entry i is the function of item i")
        e.prove(tint(data.at(i)) == d(tint(i)) if not star else eq(data.at(i)[0], SymInt(d(tint(i)))), "the argument is not modified")
    return fn


def harnesses(tier):
    hs = [H("malformed arguments", h_bad), H("map, any length", h_map(False)), H("starmap, any length", h_map(True))]
    for k in (1, 2, 3):
        for r in itertools.product(range(3), repeat=k):
            ext = tuple((i + sum(r)) % 2 for i in range(k))
            hs.append(H(f"aggregate[index ranks {r}]", h_agg(r, ext), to_case=lambda m, n: {"form": "agg", "seed": 1}))
    shapes = [(), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
    for sh in shapes:
        for flags in [f for k in (1, 2, 3) for f in itertools.product((False, True), repeat=k)]:
            if not sh and any(flags) or sh and not any(flags) and len(flags) > 1:
                continue
            kind = list if (len(sh) + len(flags)) % 2 else tuple
            b = f"index shape {sh}"
            for res in (RES if len(flags) == 1 else ("leaf", "mixed")):
                hs.append(H(f"apply[{sh}, lists {flags}, results {res}]", h_apply(sh, flags, kind, res, "apply"), bounded=b))
                if len(flags) == 1:
                    hs.append(H(f"map[{sh}, list {flags}, results {res}]", h_apply(sh, flags, kind, res, "map"), bounded=b))
                    hs.append(H(f"starmap[{sh}, list {flags}, results {res}]", h_apply(sh, flags, kind, res, "starmap"), bounded=b))
            hs.append(H(f"zip[{sh}, lists {flags}]", h_apply(sh, flags, kind, "leaf", "zip"), bounded=b))
    return hs
