"""History independence: run another contract's harness from a state that an arbitrary history may have left.

Induction over the calls of a history: (A) a call changes no attribute of any object it can reach, and no module-level
variable, except the widths of a same padder (`pad_width` and the `ndim` derived from it); (B) with those widths replaced
by an unknown value nothing may look at, a call still has the result its contract promises."""
import functools, types
from dv import core
from dv.core import Obl, Unsupported, PathEnd
from dv.seq import SymList
from dv.tensor import SymTensor
from frame import snap, record, Ref
from common import H

STALE = ("pad_width", "ndim")          # attributes of a same padder that its module sets again on every call
MUTATORS = {"to_filter", "to_same"}    # documented to change their object


class StaleRead(Exception):
    pass


class Poison:
    """the unknown value left behind by earlier calls"""


def _bad(n):
    def f(self, *a, **k):
        raise StaleRead(n)
    return f


for _n in ("__getattr__ __len__ __symlen__ __iter__ __getitem__ __setitem__ __contains__ __call__ __bool__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ "
           "__floordiv__ __truediv__ __int__ __float__ __index__ __neg__ __str__ __repr__ __hash__").split():
    setattr(Poison, _n, _bad(_n))


def ours(v):
    return type(v).__module__.startswith("torchimage")


def reach(roots):
    """the objects of the code under verification that can be reached"""
    out, st, seen = [], list(roots), set()
    while st:
        v = st.pop()
        if id(v) in seen or isinstance(v, (Poison, SymTensor)):
            continue
        seen.add(id(v))
        if ours(v):
            out.append(v)
            st.extend(vars(v).values())
        elif isinstance(v, (list, tuple)) and not getattr(v, "sym", None):
            st.extend(v)
        elif isinstance(v, dict):
            st.extend(v.values())
    return out


def padders(objs):
    return [o.same_padder for o in objs if ours(getattr(o, "same_padder", None))]


def val(v):
    if isinstance(v, SymTensor):
        return ("tensor", id(v), id(v.storage), Ref(v.storage._get))
    if isinstance(v, Poison):
        return ("poison", id(v))
    if isinstance(v, (list, tuple)) and not isinstance(v, SymList):
        return (type(v).__name__, [val(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, val(x)) for k, x in v.items()])
    return snap(v)


class History:
    def __init__(self, e, L):
        self.e, self.L, self.depth, self.done, self.keep = e, L, 0, set(), []
        self.orig = L.load
        L.load = self.load

    def load(self, name):
        m = self.orig(name)
        for mod in list(self.L.modules.values()):
            for v in list(vars(mod).values()):
                if isinstance(v, type) and v.__module__ == mod.__name__ and v not in self.done:
                    self.done.add(v)
                    for n, f in list(vars(v).items()):
                        if isinstance(f, types.FunctionType) and (n in ("__init__", "__call__") or not n.startswith("_")):
                            setattr(v, n, self.wrapped(f, v.__name__, n))
        return m

    def globals_(self):
        return {(m.__name__, k): val(v) if isinstance(v, (list, dict, set, tuple)) else id(v) for m in self.L.modules.values() for k, v in vars(m).items() if not k.startswith("__")}

    def state(self, objs, stale):
        return {(id(o), k): val(v) for o in objs for k, v in vars(o).items() if not (id(o) in stale and k in STALE)}

    def wrapped(self, f, cls, n):
        @functools.wraps(f)
        def g(*a, **k):
            if self.depth:
                return f(*a, **k)
            e = self.e
            args = list(a[1:]) + list(k.values())
            if n == "__init__":
                objs = [o for o in reach(args) if type(o).__name__ in ("Padder", "NdSpec")]
                stale = {id(o) for o in objs}
            else:
                objs = reach([a[0]] + args)
                ps = padders(objs)
                stale = {id(p) for p in ps}
                if n not in MUTATORS:
                    for p in ps:
                        for s in STALE:
                            if s in vars(p):
                                setattr(p, s, Poison())
            self.keep.append(objs)
            before, glob, mods = self.state(objs, stale), self.globals_(), set(self.L.modules)
            self.depth += 1
            try:
                r = f(*a, **k)
            finally:
                self.depth -= 1
            if n not in MUTATORS:
                after = self.state(objs, stale)
                diff = [key[1] for key in set(before) | set(after) if before.get(key) != after.get(key)]
                record(e, not diff, f"{cls}.{n} leaves no trace in the objects it was given" + (f" (changed: {sorted(diff)})" if diff else ""))
            g1 = self.globals_()
            diff = [key for key in g1 if key[0] in mods and g1[key] != glob.get(key)]
            record(e, not diff, f"{cls}.{n} leaves no trace in module-level variables" + (f" (changed: {sorted(diff)})" if diff else ""))
            return r
        return g


def after_history(mod, h, to_case=None):
    def fn(e, L):
        History(e, L)
        try:
            h.fn(e, L)
        except StaleRead as x:
            record(e, False, f"state left by earlier calls is read before it is set again ({x})")
            raise PathEnd("stale read")
    return H(f"{mod} {h.name}", fn, budget=h.budget, timeout_ms=h.timeout_ms, hooks=h.hooks, bounded=h.bounded, max_paths=h.max_paths, tiers=h.tiers, to_case=to_case)
