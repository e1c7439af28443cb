"""1-d signals of length 1..6 with all (before, after) widths up to 3L+1 on a grid, for every mode; then random ranks 1-4, axes, memory layouts, dtypes, widths up to 10L; bit-exact comparison with index formulas"""
from util import *
import padcases
MODES = ["replicate", "circular", "periodize", "symmetric", "antisymmetric", "reflect"]


def cases(tier, seed, k, n):
    yield from split(padcases.grid(MODES), k, n)
    yield from endless(seed, k, lambda r: padcases.rand(r, MODES))


run = padcases.run
