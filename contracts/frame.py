"""Frame conditions: run another contract's harness, keep only "no argument of the call is modified" """
import functools, types
import numpy as np
import z3
from dv import core
from dv.core import Obl, Unsupported, PathEnd, Restart, SymReal, wrap, tint, tbool, eq
from dv.seq import SymList
from common import H, idx_fresh


class Ref:
    """compares by identity and keeps the object alive"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Ref) and self.v is o.v


def snap(v, depth=0):
    """structure of an argument: containers by content, numbers and tensors by identity"""
    if isinstance(v, SymList):
        return ("S", id(v), Ref(v.sym) if v.sym else [snap(x, depth + 1) for x in v]) if depth < 8 else id(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, snap(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, np.ndarray):
        return ("array", v.shape, [snap(x, depth + 1) for x in v.reshape(-1).tolist()] if v.dtype != object else [id(x) for x in v.reshape(-1)])
    if isinstance(v, (int, float, str, bool, type(None))):
        return (type(v).__name__, v)
    return ("obj", id(v))


class Calls:
    """wraps the public methods of every class of the code under verification: the containers given to an outermost
    call are the same before and after it"""

    def __init__(self, e, L):
        self.e, self.L, self.depth, self.done, self.seen = e, L, 0, set(), []
        self.orig = L.load
        L.load = self.load

    def load(self, name):
        m = self.orig(name)
        for mod in list(self.L.modules.values()):
            for v in list(vars(mod).values()):
                if isinstance(v, type) and v.__module__ == mod.__name__ and v not in self.done:
                    self.done.add(v)
                    for n, f in list(vars(v).items()):
                        if isinstance(f, types.FunctionType) and (n == "__init__" or not n.startswith("_")):
                            setattr(v, n, self.wrapped(f, f"{v.__name__}.{n}", 1))
                elif isinstance(v, types.FunctionType) and v.__module__ == mod.__name__ and v not in self.done:
                    w = self.wrapped(v, v.__name__, 0)
                    self.done |= {v, w}
                    self.L.patch(v, w)
        return m

    def wrapped(self, f, name, skip):
        @functools.wraps(f)
        def g(*a, **k):
            if self.depth:
                return f(*a, **k)
            before = snap((a[skip:], k))
            self.seen.append((name, a[skip:], k, before))
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1
                same = snap((a[skip:], k)) == before
                record(self.e, same, f"frame {name}: lists and tuples passed in keep their contents")
        return g


    def again(self):
        """at the end: the containers given to earlier calls were not changed by later ones either"""
        for name, a, k, before in self.seen:
            record(self.e, snap((a, k)) == before, f"frame {name}: lists and tuples passed in keep their contents to the end")


def record(e, ok, name):
    e.obls.append(Obl(name, "proved" if ok else "refuted", cut=e.is_cut_path, by="structural"))


def check(e):
    """every tensor that was passed in has the contents it had at the start"""
    for s in e.frame_inputs:
        if s._get is s.original:
            record(e, True, f"frame: {s.label} is not written")
            continue
        i = idx_fresh(e, s.shape)
        fo, e.frame_only = e.frame_only, False
        try:
            e.prove(eq(s._get(i), s.original(i)), f"frame: {s.label} has its contents of the start")
        finally:
            e.frame_only = fo


def framed(mod, h, to_case=None):
    def fn(e, L):
        e.frame_only = True
        e.frame_inputs = []
        c = Calls(e, L)
        try:
            h.fn(e, L)
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as x:
            raise Unsupported(f"{type(x).__name__}: {x}")
        check(e)
        c.again()
        record(e, True, "frame: path completed")
    return H(f"{mod} {h.name}", fn, budget=h.budget, timeout_ms=h.timeout_ms, hooks=h.hooks, bounded=h.bounded, max_paths=h.max_paths, tiers=h.tiers, to_case=to_case)
