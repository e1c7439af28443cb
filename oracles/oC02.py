"""1-d signals of length 1..6 with widths up to 3L+1 on a grid (odd_reflect, odd_symmetric, smooth, linear_ramp); then random ranks, axes, layouts, dtypes, widths and end values; compared with closed formulas up to rounding"""
from util import *
import padcases
MODES = ["odd_reflect", "odd_symmetric", "smooth", "linear_ramp"]


def cases(tier, seed, k, n):
    for c in split(padcases.grid(MODES), k, n):
        if c["mode"] == "linear_ramp":
            c["end"] = [1.5, -0.75]
        yield c
    yield from endless(seed, k, lambda r: padcases.rand(r, MODES))


def run(c):
    if c["mode"] == "linear_ramp" and "end" not in c:
        c["end"] = [1.5, -0.75]
    return padcases.run(c, exact=False)
