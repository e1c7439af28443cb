import importlib
from common import *
import history

FUNCS = []
TRUSTED = ["induction over the calls of a history (stated in contracts/history.py): every call leaves all reachable state but a same padder's widths, and no call looks at widths it has not set itself"]
ASSUMPTIONS = ["single-threaded use", "an object given to UnsharpMask, SSIM or to_filter is turned into a filter in place, as documented (its stride becomes 1): histories consist of calls, not of such re-configurations"]
USED = ["C06", "C07", "C09", "C11", "C12", "C13", "C14", "C15", "C16"]


def harnesses(tier):
    hs = []
    for m in USED:
        mod = importlib.import_module(m)
        for h in mod.harnesses(tier):
            hs.append(history.after_history(m, h))
    FUNCS[:] = sorted({f for m in USED for f in importlib.import_module(m).FUNCS})
    return hs
