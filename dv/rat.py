"""Rational normal form: decides equalities of real terms that hold by field arithmetic (exact, no search).

A term becomes a Laurent polynomial over atoms (constants, function applications with normalised arguments, opaque subterms);
a division is by a denominator the path condition shows to be non-zero, otherwise it stays an opaque atom."""
import z3
from fractions import Fraction

LIMIT = 4000


class TooBig(Exception):
    pass


class Rat:
    def __init__(self, e, rep=None):
        self.e, self.rep = e, rep or {}
        self.atoms, self.keys, self.cache, self.nz, self.inv = {}, [], {}, {}, {}
        self.keep = []
        self.eqs = []

    def atom(self, key, t=None):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.keys)
            self.keys.append((key, t))
        return i

    def key(self, p):
        return tuple(sorted(p.items()))

    def mul(self, a, b):
        out = {}
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for k, x in m2:
                        d[k] = d.get(k, 0) + x
                    m = tuple(sorted((k, x) for k, x in d.items() if x))
                c = out.get(m, 0) + c1 * c2
                if c:
                    out[m] = c
                else:
                    out.pop(m, None)
        return out

    def add(self, a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def nonzero(self, t):
        k = t.get_id()
        if k not in self.nz:
            self.keep.append(t)
            zero = z3.RealVal(0) if t.sort() == z3.RealSort() else z3.IntVal(0)
            self.nz[k] = self.e._check(t == zero, *self.eqs, timeout=600) == z3.unsat
        return self.nz[k]

    def mono(self, key, t=None):
        return {((self.atom(key, t), 1),): Fraction(1)}

    def rat(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._rat(t)
        if len(r) > LIMIT:
            raise TooBig()
        self.keep.append(t)
        self.cache[k] = r
        return r

    def _rat(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): f} if f else {}
        if not z3.is_app(t):
            return self.mono(("t", t.get_id()), t)
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.rat(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rat(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.add({}, self.rat(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.rat(c))
            return r
        if d == z3.Z3_OP_TO_REAL:
            return self.rat(ch[0])
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = {(): Fraction(1)}
            for _ in range(ch[1].numerator_as_long()):
                r = self.mul(r, self.rat(ch[0]))
            return r
        if d == z3.Z3_OP_DIV:
            r = self.rat(ch[0])
            for f in factors(ch[1]):
                b = self.rat(f)
                if not b:
                    return self.mono(("div", self.key(self.rat(ch[0])), ()), t)
                if len(b) == 1 and () in b:
                    r = {m: c / b[()] for m, c in r.items()}
                    continue
                lead = b[max(b)]
                nb = {m: c / lead for m, c in b.items()}
                if self.nonzero(f):
                    if len(b) == 1:
                        (m, c), = b.items()
                        r = self.mul(r, {tuple((x, -p) for x, p in m): 1 / c})
                        continue
                    i = self.atom(("inv", self.key(nb)), None)
                    self.inv[i] = nb
                else:  # the inverse of a factor that may vanish is a value of its own: nothing cancels against it
                    i = self.atom(("zinv", self.key(nb)), None)
                r = self.mul(r, {((i, 1),): 1 / lead})
            return r
        if z3.is_const(t):
            n = self.rep.get(t.decl().name(), t.decl().name())
            return self.mono(("c", n), t)
        if d == z3.Z3_OP_ITE:
            a, b = self.rat(ch[1]), self.rat(ch[2])
            if a == b:
                return a
            return self.mono(("ite", ch[0].get_id(), self.key(a), self.key(b)), t)
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            a, n = self.rat(ch[0]), ch[1].as_long()
            if all(c.denominator == 1 and all(x > 0 for _, x in m) for m, c in a.items()):  # n*q + r with the multiples of n split off
                q = {m: c // n for m, c in a.items() if c // n}
                r = {m: c % n for m, c in a.items() if c % n}
                if all(m == () for m in r):
                    return q if d == z3.Z3_OP_IDIV else r
                w = self.mono(("app", t.decl().name(), (self.key(r), n)), t)
                return self.add(q, w) if d == z3.Z3_OP_IDIV else w
        if d in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT):
            ks = []
            for c in ch:
                if z3.is_arith(c):
                    ks.append(self.key(self.rat(c)))
                else:
                    ks.append(("t", c.get_id()))
                    self.keep.append(c)
            return self.mono(("app", t.decl().name(), tuple(ks)), t)
        return self.mono(("t", t.get_id()), t)

    def zero(self, p):
        """is the polynomial zero once the multi-term denominators are cleared?"""
        if not p:
            return True
        for _ in range(12):
            used = {x for m in p for x, q in m if x in self.inv and q > 0}
            if not used:
                return not p
            i = max(used)
            top = max(dict(m).get(i, 0) for m in p)
            out = {}
            for m, c in p.items():
                q = dict(m).get(i, 0)
                rest = tuple((x, y) for x, y in m if x != i)
                term = {rest: c}
                for _k in range(top - q):
                    term = self.mul(term, self.inv[i])
                out = self.add(out, term)
            p = out
        return not p


def factors(t):
    """the factors of a product (1/(x y) = 1/x 1/y: division is total, 1/0 is one unspecified value 0)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        return [f for c in t.children() for f in factors(c)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 \
            and 1 <= t.arg(1).numerator_as_long() <= 8:
        return factors(t.arg(0)) * t.arg(1).numerator_as_long()
    return [t]


def equal(e, goal, eqs=()):
    """True if the goal (an equality of arithmetic terms) holds by field arithmetic; eqs: known equalities of constants"""
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return False
    rep = {}

    def find(n):
        while n in rep:
            n = rep[n]
        return n
    for q in eqs:
        if z3.is_eq(q) and z3.is_const(q.arg(0)) and z3.is_const(q.arg(1)):
            a, b = find(q.arg(0).decl().name()), find(q.arg(1).decl().name())
            if a != b:
                rep[a] = b
    rep = {n: find(n) for n in rep}
    R = Rat(e, rep)
    R.eqs = [q for q in eqs if z3.is_eq(q)]
    try:
        return R.zero(R.add(R.rat(goal.arg(0)), R.rat(goal.arg(1)), -1))
    except TooBig:
        return False
