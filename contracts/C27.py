import importlib
from common import *
import frame

FUNCS = []
ASSUMPTIONS = ["arguments of the operation do not share memory with each other except where a harness says so"]
TRUSTED = ["a stub that stands for a callee in a harness writes nothing: the callee's own frame condition is proved in the harness that runs its body"]
# property: the harnesses whose calls are framed
USED = {"C01": lambda n: n.startswith("forward"), "C02": lambda n: n.startswith("forward"), "C03": lambda n: n.startswith("forward"), "C04": lambda n: True,
        "C06": lambda n: True, "C07": lambda n: True, "C09": lambda n: True, "C10": lambda n: True, "C11": lambda n: True, "C12": lambda n: True, "C13": lambda n: True,
        "C14": lambda n: True, "C15": lambda n: True, "C16": lambda n: True, "C17": lambda n: True, "C18": lambda n: True, "C19": lambda n: True,
        "C05": lambda n: True, "C08": lambda n: "nd" in n, "C20": lambda n: True, "C21": lambda n: True, "C22": lambda n: True, "C23": lambda n: "list" in n, "C29": lambda n: True,
        "C24": lambda n: True, "C25": lambda n: True, "C26": lambda n: True}


def harnesses(tier):
    hs = []
    for m, keep in USED.items():
        mod = importlib.import_module(m)
        for h in mod.harnesses(tier):
            if keep(h.name):
                hs.append(frame.framed(m, h, (lambda md, n, h=h, m=m: {"o": m, "case": h.to_case(md, h.name)}) if h.to_case else None))
    FUNCS[:] = sorted({f for m in USED for f in importlib.import_module(m).FUNCS})
    return hs
