"""direct edge components"""
import numpy as np
import poolref
FS = [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]
FE = [-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254]
PRE = {"Sobel": ([-1, 0, 1], [1, 2, 1]), "Prewitt": ([-1, 0, 1], [1, 1, 1]), "Scharr": ([-1, 0, 1], [3, 10, 3]), "Farid": (FE, FS)}


def component(a, edge_axis, axes, edge, smooth, pad):
    y = poolref.separable(a, [edge_axis], [edge], [1], pad)
    ax = [q for q in axes if q != edge_axis]
    return poolref.separable(y, ax, [smooth] * len(ax), [1] * len(ax), pad)
