"""random nestings (depth up to 4, lists of 0-4 items, tuples, tensors, numeric arrays, scalars of many types): shape and lifting against a by-level reference; expansion to random target shapes (changed, missing, extra and -1 lengths) against index-wise repetition; apply at every depth; arguments unchanged"""
from util import *
import raggedref as R
from torchimage.utils.ragged import get_ragged_ndarray, expand_ragged_ndarray, apply_ragged_ndarray


def rand(r):
    return {"seed": r.randint(0, 10**9), "strict": r.random() < .5, "form": r.choice(["any", "any", "uniform", "uniform", "uniform"]), "depth": r.randint(0, 4)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def run(c):
    r = random.Random(c["seed"])
    x = R.rand_data(r, c["depth"], None if c["form"] == "any" else c["depth"])
    fz = R.freeze(x)
    strict = c["strict"]
    y, s = get_ragged_ndarray(x, strict=strict)
    want = R.shape(x, strict)
    if not isinstance(s, tuple) or s != want:
        return f"shape {s} instead of {want} for {x!r} (strict={strict})"
    if strict or not R.lifted(x):
        if y is not x:
            return f"data replaced although nothing is lifted: {x!r} -> {y!r}"
    elif not R.same_lift(x, y):
        return f"wrong lifting of {x!r}: {y!r}"
    if not strict and R.lifted(x):
        if R.depth(y, True) != len(want):
            return f"lifted data has depth {R.depth(y, True)} instead of {len(want)}"
    # apply
    if strict:
        d = r.randint(0, len(s))
        z = apply_ragged_ndarray(y, lambda v: ("f", v), d)

        def chk(a, b, k):
            if k == 0:
                return isinstance(b, tuple) and len(b) == 2 and b[0] == "f" and R.leafeq(a, b[1])
            return isinstance(b, tuple) and len(b) == len(a) and all(chk(a[i], b[i], k - 1) for i in range(len(a)))
        if not chk(y, z, d):
            return f"apply at depth {d} on {x!r}: {z!r}"
    # expand
    for _ in range(3):
        t = list(s)
        for i in range(len(t)):
            if r.random() < .4:
                t[i] = r.choice([-1, 1, 2, 3, 4, s[i]])
        mode = r.random()
        lead = []
        if mode < .3:
            lead = [r.choice([-1, 1, 2, 3]) for _ in range(r.randint(1, 2))]
        elif mode < .5 and t:
            t = t[r.randint(1, len(t)):]
        if r.random() < .15 and t:
            t[r.randrange(len(t))] = 0
        full = [-1] * (len(s) - len(t)) + t
        try:
            w = R.expand(y, full)
            bad = any(a == 0 and b > 0 for a, b in zip(s, full))
        except R.Bad:
            bad = True
        try:
            z, zs = expand_ragged_ndarray(y, s, tuple(lead + t))
        except (ValueError, RuntimeError) as ex:
            if not bad:
                return f"{type(ex).__name__} ({ex}) for expanding {y!r} of shape {s} to {lead + t}"
            continue
        if bad:
            return f"no error for expanding {y!r} of shape {s} to {lead + t}"
        ll = [1 if v == -1 else v for v in lead]
        for v in reversed(ll):
            w = [w] * v
        if tuple(lead + t) == s:
            if z is not y:
                return f"data replaced although the shapes agree: {y!r}"
        if not R.nested_eq(z, w, len(ll) + len(s)):
            return f"expanding {y!r} of shape {s} to {lead + t}: {z!r}"

        def lens(v, k):
            return [[]] if k == 0 else None
        lev = [[] for _ in range(len(ll) + len(s))]

        def walk(v, k):
            if k == len(lev):
                return
            lev[k].append(len(v))
            for q in v:
                walk(q, k + 1)
        walk(w, 0)
        for k, (got, l) in enumerate(zip(zs, lev)):
            if l and got != (l[0] if len(set(l)) == 1 else -1):
                return f"reported shape {zs} of {z!r} (expanding {y!r} of shape {s} to {lead + t})"
        if len(zs) != len(lev):
            return f"reported shape {zs} has the wrong rank (expanding {y!r} of shape {s} to {lead + t})"
    if not R.frozen_eq(fz, x):
        return f"the argument was modified: {x!r}"
    return None
