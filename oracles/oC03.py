"""1-d signals of length 1..6 with widths up to 2L+1 in modes zeros, constant, maximum, minimum, mean, median with every stat length 0..L+1 or None; then random ranks 1-4, axes, memory layouts, dtypes; comparison with sorting / averaging per line"""
from util import *
import padcases
FILL, STAT = ["zeros", "constant"], ["maximum", "minimum", "mean", "median"]


def grid():
    for L in range(1, 7):
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 3), (L, 2 * L + 1), (2 * L + 1, 0), (0, L + 1)):
            for m in FILL:
                yield {"shape": [L], "axis": 0, "mode": m, "width": [a, b], "seed": L * 10 + a, "how": "forward", "const": [1.25, -3.5]}
            for m in STAT:
                for s in [None] + list(range(0, L + 2)):
                    for t in {None, 0, s, L - 1, 1, L + 2}:
                        for sh, ax, how in (([L], 0, "forward"), ([2, L], 1, "pad_axis"), ([L, 2], 0, "neg")):
                            yield {"shape": sh, "axis": ax, "mode": m, "width": [a, b], "seed": L * 10 + a, "how": how, "stat": [s, t]}


def cases(tier, seed, k, n):
    r = endless(seed, k, lambda r: padcases.rand(r, FILL + STAT))
    for i, c in enumerate(split(grid(), k, n)):
        yield c
        if i % 2:
            yield next(r)
    yield from r


def run(c):
    return padcases.run(c, exact=c["mode"] != "mean")
