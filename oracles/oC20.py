"""random items (scalars of many types, strings, partial items, ragged rows, tensors) and lists of them (length 0-5, index rank 0-3), every index from -n-2 to n+1, tuple keys, iteration, copies, index_shape given (fitting or not); against plain python indexing"""
from util import *
import raggedref as R
from torchimage.utils import NdSpec


def rand(r):
    return {"seed": r.randint(0, 10**9), "form": r.choice(["item", "list", "partial", "deep", "ishape", "copy"]), "n": r.randint(0, 5), "k": r.randint(-3, 12)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def lookups(o, items, what, n):
    if len(o) != n:
        return f"len {len(o)} instead of {n}: {what}"
    for i in range(-n - 2, n + 2):
        inside = -n <= i < n
        for key in (i, (i,)):
            try:
                v = o[key]
            except IndexError:
                if inside:
                    return f"IndexError for {key} of {what}"
                continue
            if not inside:
                return f"no IndexError for {key} of {what}: {v!r}"
            if not R.leafeq(v, items[i]) and not R.nested_eq(v, items[i], R.depth(items[i], True)):
                return f"item {key} of {what}: {v!r} instead of {items[i]!r}"
    it = list(o)
    if len(it) != n or not all(R.leafeq(a, o[i]) for i, a in enumerate(it)):
        return f"iteration over {what}: {it!r}"
    return None


def run(c):
    r = random.Random(c["seed"])
    n, form = c["n"], c["form"]
    kind = r.choice([list, tuple])
    if form == "item":
        d = r.randint(0, 2)
        x = R.rand_data(r, d, d)
        s = R.shape(x, True)
        o = NdSpec(x, item_shape=tuple(r.choice([-1, v]) for v in s))
        if len(o) != 0 or not o.is_item:
            return f"an item has length {len(o)}: {x!r}"
        for k in (0, 1, -1, -81, c["k"], (0,), (c["k"], 2)):
            if not R.leafeq(o[k], x) and not R.nested_eq(o[k], x, d):
                return f"index {k} of the item {x!r}: {o[k]!r}"
        if len(list(o)) != 1:
            return "an item iterates once"
        return None
    if form == "list":
        n = max(n, 1)
        w = r.choice(["scalar", "pair", "row", "tensor", "array"])
        if w == "scalar":
            items, ish = [R.leaf(r) for _ in range(n)], ()
        elif w == "pair":
            items, ish = [kind([r.randint(0, 9), r.randint(0, 9)]) for _ in range(n)], r.choice([(2,), (-1,)])
        elif w == "row":
            items, ish = [kind([r.randint(0, 9) for _ in range(r.randint(1, 4))]) for _ in range(n)], (-1,)
        elif w == "tensor":
            items, ish = torch.arange(n * 3).reshape(n, 3) + 1, r.choice([(3,), (-1,)])
        else:
            items, ish = np.arange(n * 3).reshape(n, 3) * .5, (3,)
        if w not in ("tensor", "array"):
            items = kind(items)
        return lookups(NdSpec(items, item_shape=ish), items, f"{items!r} with item shape {ish}", n)
    if form == "partial":
        n = max(n, 1)
        k = r.randint(1, 4)
        v = [r.randint(0, 9) for _ in range(n)]
        m = r.random()
        if m < .4:
            o = NdSpec(v[0], item_shape=(k,))
            want = (v[0],) * k
            return None if len(o) == 0 and all(R.nested_eq(o[i], want, 1) for i in (0, -3, c["k"])) else f"NdSpec({v[0]}, item_shape=({k},))[i] = {o[0]!r}"
        if m < .8:
            x = kind([kind([a]) for a in v])
            return lookups(NdSpec(x, item_shape=(k,)), [[a] * k for a in v], f"{x!r} with item shape ({k},)", n)
        o = NdSpec(v[0], item_shape=(k, -1))
        return None if len(o) == 0 and R.nested_eq(o[c["k"]], [[v[0]]] * k, 2) else f"NdSpec({v[0]}, item_shape=({k}, -1))[i] = {o[0]!r}"
    if form == "deep":
        d = r.randint(1, 4)
        x = R.rand_data(r, d, d)
        ir = r.randint(0, d)
        if R.depth(x, True) != d:
            return None
        o = NdSpec(x, item_shape=(-1,) * (d - ir))
        if o.index_ndim != ir or o.item_ndim != d - ir or o.ndim != d or o.index_shape + o.item_shape != R.shape(x, True):
            return f"ranks of {x!r}: {o!r}"
        if ir:
            key, v = [], x
            for _ in range(r.randint(1, ir)):
                if not len(v):
                    break
                key.append(r.randrange(-len(v), len(v)))
                v = v[key[-1]]
            if not R.leafeq(o[tuple(key)], v):
                return f"key {tuple(key)} of {x!r}: {o[tuple(key)]!r}"
            try:
                o[(0,) * (ir + 1)]
                return f"key longer than the index rank accepted: {o!r}"
            except IndexError:
                pass
        return None
    if form == "ishape":
        d = r.randint(0, 3)
        x = R.rand_data(r, d, d)
        s = R.shape(x, True)
        ish = [r.choice([v, v, -1]) for v in s[:r.randint(0, d)]]
        bad = False
        if ish and r.random() < .4:
            i = r.randrange(len(ish))
            ish[i] = max(s[i] + r.choice([-1, 1, 2]), 0) if s[i] > 0 else 1
            bad = True
        elif r.random() < .2:
            ish = list(s) + [r.choice([-1, 1, 2])]
            bad = True
        try:
            o = NdSpec(x, index_shape=tuple(ish))
        except ValueError:
            return None if bad else f"ValueError for {x!r} with index shape {ish}"
        if bad:
            return f"index shape {ish} accepted for {x!r}"
        return None if o.data is x and o.shape == s and o.index_ndim == len(ish) else f"NdSpec({x!r}, index_shape={ish}): {o!r}"
    x = [r.randint(0, 9) for _ in range(max(n, 1))]
    o = NdSpec(x, item_shape=r.choice([(), (-1,)]))
    p = NdSpec(o, item_shape=(3,)) if r.random() < .5 else NdSpec(o)
    if p.data is not o.data or p.shape != o.shape or p.index_pos != o.index_pos:
        return f"copy of {o!r}: {p!r}"
    return None
