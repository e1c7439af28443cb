"""Differentiability: the contracts of the other properties, proved again with every detached value unknown.

In gradient mode the shim turns each way a value leaves the autograd graph (detach, .data, detach_, item, float, int, tolist,
numpy, torch.tensor(t), writes and operations under no_grad / inference_mode) into `detached(v)`, an uninterpreted function,
whenever v depends on an image argument.  If a contract result(x) = formula(x) is proved for every interpretation of
`detached`, it holds in particular when the detached values are frozen at their current numbers, which is exactly what
back-propagation differentiates; so the gradient it computes is the derivative of the formula.  An obligation in whose terms
no detached (and no loop-invariant-only) image value occurs holds for every interpretation of `detached` at once, whether or not
the value itself is right (that is the other properties' business); the others are proved again by the solver."""
import importlib
from dv.core import Unsupported, PathEnd, Restart
from common import *

FUNCS = []
TRUSTED = ["torch's backward rule of each operation is the derivative of that operation", "the contract of a callee used through a stub is proved in gradient mode in the harness that runs its body"]
ASSUMPTIONS = ["no saved tensor is overwritten between forward and backward (torch raises an error if one is; the concrete runs call backward)", "points where an intermediate operation has no derivative are outside the statement"]
# property: (the harnesses re-proved, names of float tensors that are parameters and not images)
USED = {"C01": lambda n: n.startswith(("forward", "pad_axis")), "C02": lambda n: n.startswith(("forward", "pad_axis")), "C03": lambda n: n.startswith("forward"), "C04": lambda n: True,
        "C06": lambda n: True, "C07": lambda n: True, "C11": lambda n: True, "C12": lambda n: True, "C13": lambda n: True, "C14": lambda n: True, "C15": lambda n: True,
        "C16": lambda n: True, "C17": lambda n: True, "C18": lambda n: True, "C19": lambda n: True, "C24": lambda n: True}
PARAMETER = {"C06": "ker"}


def graded(h):
    def fn(e, L):
        try:
            h.fn(e, L)
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as x:              # not a matter of gradients: the other property's check reports it
            raise Unsupported(f"{type(x).__name__}: {x}")
        e.obls.append(core.Obl("path completed", "proved", cut=e.is_cut_path, by="structural"))
    return fn


def harnesses(tier):
    hs = []
    for m, keep in USED.items():
        mod = importlib.import_module(m)
        pre = PARAMETER.get(m)
        for h in mod.harnesses(tier):
            if keep(h.name):
                hs.append(H(f"{m} {h.name}", graded(h), budget=h.budget, timeout_ms=h.timeout_ms, hooks=dict(h.hooks, grad=lambda n, pre=pre: bool(pre) and n.startswith(pre)), bounded=h.bounded, max_paths=h.max_paths,
                            tiers=h.tiers, to_case=(lambda md, n, h=h, m=m: {"o": m, "case": h.to_case(md, h.name)}) if h.to_case else None))
    FUNCS[:] = sorted({f for m in USED for f in importlib.import_module(m).FUNCS})
    return hs
