"""random NdSpecs (index rank 0-2, sizes 1-5, item shapes of rank 0-1, ragged items, list / tuple / tensor storage), 1-3 of them with some items broadcast, functions returning scalars, tuples, lists of varying length and depth, tensors; apply, zip, map, starmap and aggregation (agreeing or not) against plain indexing"""
import copy, itertools
from util import *
import raggedref as R
from torchimage.utils import NdSpec


def rand(r):
    return {"seed": r.randint(0, 10**9), "form": r.choice(["apply", "apply", "zip", "map", "starmap", "agg"])}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def nest(shape, fn, kind, pre=()):
    if not shape:
        return fn(pre)
    return kind([nest(shape[1:], fn, kind, pre + (i,)) for i in range(shape[0])])


def get(d, i):
    for k in i:
        d = d[k]
    return d


def make(r, shape):
    """data, NdSpec"""
    w = r.choice(["scalar", "pair", "row", "tensor"])
    kind = r.choice([list, tuple])
    if w == "scalar":
        d, ish = nest(shape, lambda i: r.randint(0, 99), kind), ()
    elif w == "pair":
        d, ish = nest(shape, lambda i: kind([r.randint(0, 9), r.randint(0, 9)]), kind), (2,)
    elif w == "row":
        d, ish = nest(shape, lambda i: kind([r.randint(0, 9) for _ in range(r.randint(1, 4))]), kind), (-1,)
    else:
        n = int(np.prod(shape, dtype=int)) * 2
        d, ish = torch.arange(n).reshape(tuple(shape) + (2,)), (2,)
    return d, NdSpec(d, item_shape=ish)


def conv(v):
    return v.tolist() if isinstance(v, (torch.Tensor, np.ndarray)) else v


def run(c):
    r = random.Random(c["seed"])
    form = c["form"]
    shape = tuple(r.randint(1, r.choice([2, 5])) for _ in range(r.choice([0, 1, 1, 1, 2, 2])))
    if form == "agg":
        ss = [shape if r.random() < .7 else () if r.random() < .6 else tuple(r.randint(1, 3) for _ in range(r.randint(1, 2))) for _ in range(r.randint(1, 4))]
        args = [make(r, s)[1] for s in ss]
        full = {s for s in ss if s}
        try:
            got = NdSpec.agg_index_shape(*args)
            n = NdSpec.agg_index_len(*args)
        except ValueError:
            return None if len(full) > 1 else f"ValueError for index shapes {ss}"
        if len(full) > 1:
            return f"index shapes {ss} accepted: {got}"
        want = full.pop() if full else ()
        return None if tuple(got) == want and n == (want[0] if want else 0) else f"index shapes {ss}: {got}, length {n}"
    k = 1 if form in ("map", "starmap") else r.randint(1, 3)
    flags = [r.random() < .7 for _ in range(k)]
    if not any(flags) and r.random() < .7:
        flags[r.randrange(k)] = True
    if not shape:
        flags = [False] * k
    ds = [make(r, shape if f else ()) for f in flags]
    sh = shape if any(flags) else ()
    keep = [R.freeze(d) for d, _ in ds]
    log = []
    mode = r.choice(["num", "tuple", "ragged", "depth", "tensor", "str", "none"])

    def f(*a):
        log.append(a)
        v = [conv(x) for x in a]
        n = len(log)
        return {"num": lambda: n, "tuple": lambda: (n, v), "ragged": lambda: [n] * (n % 3 + 1), "depth": lambda: [n, [n], ([n], n), [[n]]][n % 4], "tensor": lambda: torch.arange(n % 3 + 1) + n, "str": lambda: str(v), "none": lambda: None}[mode]()
    if mode == "ragged" or mode == "depth" or True:
        store = {}
    alls = list(itertools.product(*map(range, sh)))

    def item(j, i):
        return get(ds[j][0], i) if flags[j] else ds[j][0]
    star = form == "starmap"
    if star and not hasattr(item(0, alls[0]), "__len__"):
        return None
    if star and any(not hasattr(item(0, i), "__iter__") or (isinstance(item(0, i), torch.Tensor) and item(0, i).ndim == 0) for i in alls):
        return None
    o = {"apply": lambda: NdSpec.apply(f, *[s for _, s in ds]), "zip": lambda: NdSpec.zip(*[s for _, s in ds]), "map": lambda: ds[0][1].map(f), "starmap": lambda: ds[0][1].starmap(f)}[form]()
    if not isinstance(o, NdSpec) or tuple(o.index_shape) != sh:
        return f"{form} over index shapes {[shape if x else () for x in flags]}: index shape {getattr(o, 'index_shape', None)}"
    done = log[:]
    log.clear()
    for n, i in enumerate(alls):
        want = [item(j, i) for j in range(k)]
        got = o[i] if i else o[r.randint(-3, 5)]
        if form == "zip":
            if not (isinstance(got, tuple) and len(got) == k and all(R.leafeq(a, b) for a, b in zip(got, want))):
                return f"zip at {i}: {got!r} instead of {tuple(want)!r}"
            continue
        want = list(want[0]) if star else want
        if n >= len(done) or len(done[n]) != len(want) or not all(R.leafeq(a, b) for a, b in zip(done[n], want)):
            return f"{form} at {i}: called with {done[n] if n < len(done) else None!r} instead of {want!r}"
        w = f(*want)
        if not (R.leafeq(got, w) or R.nested_eq(got, w, 0) or conv(got) == conv(w)):
            return f"{form} at {i}: {got!r} instead of {w!r}"
    if not all(R.frozen_eq(a, d) for a, (d, _) in zip(keep, ds)):
        return f"{form} modified its arguments"
    return None
