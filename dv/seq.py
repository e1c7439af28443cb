"""Lists and sets of the code under verification.

SymList is a list that can have a symbolic length: then its contents are a function of the index.  HSet is a set of
values whose equality may have to be decided by the solver."""
import z3
from . import core
from .core import Sym, SymInt, Unsupported, tint, eng, ite, cmp, is_num


class SymList(list):
    """concrete mode: an ordinary list.  symbolic mode: self.sym = (length, fn) with fn(z3 Int or int) -> element"""
    sym = None
    kind = "list"

    def __new__(cls, *a, **k):
        r = list.__new__(cls)
        e = eng()
        if e is not None:
            r.oid = e.obj_counter
            e.obj_counter += 1
            import weakref
            e.objs[r.oid] = weakref.ref(r)
        else:
            r.oid = -1
        return r

    def current(self):
        return self.snapshot()

    def havoc(self, name):
        e = eng()
        n = e.fresh_int(name + "_len", lo=0)
        f = e.fresh_fn(name, 1, z3.IntSort())
        self.decl = f
        list.clear(self)
        self.sym = (n, lambda i: SymInt(f(tint(core.wrap(i) if isinstance(i, z3.ExprRef) else i))))

    @classmethod
    def make(cls, length, fn):
        r = cls()
        if is_num(length):
            list.extend(r, [fn(i) for i in range(max(int(length), 0))])
        else:
            r.sym = (length, fn)
        return r

    @classmethod
    def repeat(cls, seq, n):
        if isinstance(seq, tuple):
            if not is_num(n) and len(seq) == 1:
                e = eng()
                t = z3.simplify(tint(n))
                if not z3.is_int_value(t) and e.known(tint(n) == 1) is not True:
                    try:
                        k = e.unique_int(tint(n))
                    except Unsupported:
                        return cls.make(core.smax(n, 0), lambda i: seq[0])
                    return tuple(list(seq) * k)
            return tuple(list(seq) * int(n))
        seq = seq if isinstance(seq, SymList) else cls(seq)
        if len_(seq) != 1:
            return cls(list(seq) * int(n))
        x = seq.at(0)
        e = eng()
        if e.decide(tint(n) <= 0):
            return cls()
        return cls.make(n, lambda i: x)

    def length(self):
        return self.sym[0] if self.sym else list.__len__(self)

    def at(self, i):
        if self.sym:
            return self.sym[1](i)
        if isinstance(i, z3.ExprRef):
            i = core.swrap(i)
        if is_num(i):
            return list.__getitem__(self, int(i))
        n = list.__len__(self)
        if n == 0:
            raise Unsupported("symbolic index into an empty list")
        r = list.__getitem__(self, n - 1)
        for k in range(n - 2, -1, -1):
            r = ite(cmp(i, k, "=="), list.__getitem__(self, k), r)
        return r

    def _concretise(self):
        if self.sym:
            n, fn = self.sym
            k = eng().unique_int(tint(n))
            self.sym = None
            list.extend(self, [fn(i) for i in range(k)])

    def __len__(self):
        if self.sym:
            return eng().unique_int(tint(self.sym[0]))
        return list.__len__(self)

    def __bool__(self):
        if self.sym:
            return eng().decide(tint(self.sym[0]) > 0)
        return list.__len__(self) > 0

    def __iter__(self):
        if self.sym:
            try:
                n = eng().unique_int(tint(self.sym[0]))
            except Unsupported:
                raise Unsupported("iteration over a list of symbolic length")
            return iter([self.sym[1](i) for i in range(n)])
        return list.__iter__(self)

    def append(self, x):
        e = eng()
        e.note_write(self)
        if self.sym:
            n, fn = self.sym
            tn = tint(n)
            self.sym = (n + 1, lambda i, n=n, fn=fn, x=x: ite(cmp(core.wrap(i) if isinstance(i, z3.ExprRef) else i, n, "=="), x, fn(i)))
        else:
            list.append(self, x)

    def extend(self, xs):
        eng().note_write(self)
        r = self + (xs if isinstance(xs, SymList) else SymList(xs))
        if r.sym:
            list.clear(self)
            self.sym = r.sym
        else:
            vals = list(list.__iter__(r))
            self.sym = None
            list.clear(self)
            list.extend(self, vals)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        o = o if isinstance(o, SymList) else SymList(o)
        if not self.sym and not o.sym:
            return SymList(list.__add__(self, o))
        n, m = self.length(), o.length()
        if is_num(n) and n == 0:
            return SymList.make(m, o.snapshot().at)
        if is_num(m) and m == 0:
            return SymList.make(n, self.snapshot().at)
        a, b = self.snapshot(), o.snapshot()
        w = lambda i: core.wrap(i) if isinstance(i, z3.ExprRef) else i
        return SymList.make(n + m, lambda i: ite(cmp(w(i), n, "<"), a.at_safe(w(i)), b.at_safe(w(i) - n)))

    def at_safe(self, i):
        if not self.sym and is_num(i) and not (0 <= i < list.__len__(self)):
            return 0
        return self.at(i)

    def __radd__(self, o):
        return SymList(o) + self

    def snapshot(self):
        r = SymList()
        if self.sym:
            r.sym = self.sym
        else:
            list.extend(r, list.__iter__(self))
        return r

    copy = snapshot

    def __mul__(self, n):
        if isinstance(n, Sym) or self.sym:
            return SymList.repeat(self, n)
        return SymList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __getitem__(self, k):
        e = eng()
        if isinstance(k, slice):
            if not self.sym and not any(isinstance(v, Sym) for v in (k.start, k.stop, k.step)):
                return SymList(list.__getitem__(self, k))
            n = self.length()
            start, stop, step, cnt = slice_norm(k, n)
            a = self.snapshot()
            return SymList.make(cnt, lambda i: a.at((core.wrap(i) if isinstance(i, z3.ExprRef) else i) * step + start))
        if not self.sym and not isinstance(k, Sym):
            return list.__getitem__(self, k)
        n = self.length()
        if e.decide(core.tbool(cmp(k, n, ">="))) or e.decide(core.tbool(cmp(k, -n if is_num(n) else 0 - n, "<"))):
            raise IndexError("list index out of range")
        if e.decide(core.tbool(cmp(k, 0, "<"))):
            k = k + n
        return self.at(k)

    def __setitem__(self, k, v):
        eng().note_write(self)
        if self.sym:
            n, fn = self.sym
            if isinstance(k, slice):
                raise Unsupported("slice assignment to a symbolic list")
            if eng().decide(core.tbool(cmp(k, 0, "<"))):
                k = k + n
            if not eng().decide(core.tbool(cmp(k, n, "<"))):
                raise IndexError("list assignment index out of range")
            self.sym = (n, lambda i: ite(cmp(core.wrap(i) if isinstance(i, z3.ExprRef) else i, k, "=="), v, fn(i)))
            return
        list.__setitem__(self, k, v)

    def pop(self, *a):
        eng().note_write(self)
        self._concretise()
        return list.pop(self, *a)

    def insert(self, *a):
        eng().note_write(self)
        self._concretise()
        return list.insert(self, *a)

    def remove(self, *a):
        eng().note_write(self)
        self._concretise()
        return list.remove(self, *a)

    def clear(self):
        eng().note_write(self)
        self.sym = None
        list.clear(self)

    def reverse(self):
        eng().note_write(self)
        if self.sym:
            n, fn = self.sym
            self.sym = (n, lambda i: fn(tint(n) - 1 - tint(core.wrap(i) if isinstance(i, z3.ExprRef) else i)))
        else:
            list.reverse(self)

    def sort(self, *a, **k):
        eng().note_write(self)
        self._concretise()
        list.sort(self, *a, **k)

    def index(self, *a):
        self._concretise()
        return list.index(self, *a)

    def __eq__(self, o):
        if self.sym or (isinstance(o, SymList) and o.sym):
            if self is o:
                return True
            if isinstance(o, SymList) and o.sym:
                raise Unsupported("comparison of symbolic lists")
            if not self.sym:
                self, o = o, self
            if not isinstance(o, (list, tuple)):
                return False
            e = eng()
            if not e.decide(tint(self.length()) == len(o)):
                return False
            return e.decide(z3.And([core.tbool(core.eq(self.at(i), v)) for i, v in enumerate(o)]))
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __contains__(self, x):
        self._concretise()
        return list.__contains__(self, x)

    def __reversed__(self):
        self._concretise()
        return list.__reversed__(self)

    def __deepcopy__(self, memo):
        return self.snapshot()

    def __repr__(self):
        return f"SymList(len={self.sym[0]})" if self.sym else list.__repr__(self)


def len_(x):
    f = getattr(type(x), "length", None)
    if isinstance(x, SymList):
        return x.length()
    g = getattr(type(x), "__symlen__", None)
    if g is not None:
        return g(x)
    m = getattr(type(x), "__len__", None)
    if m is not None and getattr(m, "__dv__", False):   # a class of the code under verification
        return m(x)
    return len(x)


def slice_norm(k, n):
    """python slice semantics for a (possibly symbolic) length n: returns start, stop, step, count"""
    e = eng()
    step = 1 if k.step is None else k.step
    if isinstance(step, Sym):
        if not e.decide(tint(step) > 0):
            raise Unsupported("non-positive symbolic slice step")
    elif step == 0:
        raise ValueError("slice step cannot be zero")
    elif step < 0:
        if not is_num(n):
            # only full reversals
            if k.start is None and k.stop is None and step == -1:
                return n - 1, -1, -1, n
            raise Unsupported("negative slice step on a symbolic length")
        s = slice(k.start, k.stop, step).indices(int(n))
        return s[0], s[1], s[2], len(range(*s))
    if all(is_num(v) or v is None for v in (k.start, k.stop)) and is_num(n) and is_num(step):
        s = slice(k.start, k.stop, step).indices(int(n))
        return s[0], s[1], s[2], len(range(*s))

    def clip(v, default):
        if v is None:
            return default
        if not is_num(v) or not is_num(n):
            kn = e.known(tint(v) < 0)
            if kn is None:
                kn = e.decide(tint(v) < 0)
            if kn:
                w = v + n
                r = e.known(tint(w) >= 0)
                return w if r else core.smax(w, 0)
            r = e.known(tint(v) <= tint(n))
            return v if r else core.smin(v, n)
        return max(0, v + n) if v < 0 else min(v, n)

    start, stop = clip(k.start, 0), clip(k.stop, n)
    d = stop - start
    if not (is_num(step) and step == 1):
        cnt = core.floordiv(d + step - 1, step)
    else:
        cnt = d
    if is_num(cnt):
        cnt = max(0, cnt)
    else:
        kn = e.known(tint(cnt) >= 0)
        if kn is not True:
            cnt = core.smax(cnt, 0)
    return start, stop, step, cnt


class HSet:
    """a set whose element equality is decided by the solver"""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    def add(self, x):
        if not any(same(x, y) for y in self.items):
            self.items.append(x)

    def remove(self, x):
        for i, y in enumerate(self.items):
            if same(x, y):
                del self.items[i]
                return
        raise KeyError(x)

    def discard(self, x):
        try:
            self.remove(x)
        except KeyError:
            pass

    def pop(self):
        if not self.items:
            raise KeyError("pop from an empty set")
        return self.items.pop(0)

    def __contains__(self, x):
        return any(same(x, y) for y in self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def union(self, *os):
        r = HSet(self.items)
        for o in os:
            for x in o:
                r.add(x)
        return r

    __or__ = union

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def difference(self, *os):
        return HSet([x for x in self.items if not any(x in HSet(o) for o in os)])

    __sub__ = difference

    def intersection(self, o):
        o = HSet(o)
        return HSet([x for x in self.items if x in o])

    __and__ = intersection

    def issubset(self, o):
        o = HSet(o)
        return all(x in o for x in self.items)

    __le__ = issubset

    def __eq__(self, o):
        if not isinstance(o, (HSet, set, frozenset)):
            return False
        return self.issubset(o) and HSet(o).issubset(self)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def copy(self):
        return HSet(self.items)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (tuple, str, type(None))) != isinstance(b, (tuple, str, type(None))):
        return False
    r = a == b
    return bool(r)
