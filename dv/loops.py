"""Loop heads: native unrolling while the loop condition is decided, otherwise an invariant cut.

The candidate invariants come from the harness (engine.hooks['loop_schema']) as schemas over the roles of the loop's
variables; candidates that are not established or not preserved are dropped (Houdini), the others are proved."""
import z3
from . import core
from .core import Sym, SymInt, SymReal, SymBool, Unsupported, PathEnd, Restart, eng, tint, tbool, is_num

UNDEF = type("Undef", (), {"__repr__": lambda s: "<undefined>"})()
NATIVE_LIMIT = 80


class Cand:
    """a candidate invariant.  f(env) returns z3 Bool / Sym / bool  (kind 'bool') or (decl, lambda args: z3 Bool)
    (kind 'forall': quantified over the arguments of the trigger function decl)"""

    def __init__(self, name, f, kind="bool"):
        self.name, self.f, self.kind = name, f, kind


def split_eqs(g, args):
    """case split of a goal over the equations `arg == t` that occur in it"""
    out, found = [], []
    st, seen = [g], set()
    ids = {a.get_id() for a in args}
    while st and len(found) < 3:
        u = st.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        if z3.is_eq(u):
            for a, t in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                if a.get_id() in ids and a.decl().name() not in core.consts_of(t):
                    found.append((a, t))
                    break
        st.extend(u.children())
    rest = []
    for a, t in found:
        out.append(z3.simplify(z3.Implies(z3.And(rest), z3.substitute(g, (a, t))), som=True))
        rest.append(a != t)
    eqs = [(a == t) for a, t in found] + [(t == a) for a, t in found]
    out.append(z3.simplify(z3.Implies(z3.And(rest), z3.substitute(g, *[(q, z3.BoolVal(False)) for q in eqs]))) if found else g)
    return out


class Env:
    def __init__(self, loop, vals, first, k, seqlen):
        self.loop, self.vals, self.first, self.k, self.seqlen = loop, vals, first, k, seqlen

    def ints(self):
        return {n: v for n, v in self.vals.items() if isinstance(v, (int, SymInt)) and not isinstance(v, bool)}

    def bools(self):
        return {n: v for n, v in self.vals.items() if isinstance(v, (bool, SymBool))}


class Loop:
    def __init__(self, lid, kind, names, attr_store, sub_bases, it=None):
        self.lid, self.kind, self.names = lid, kind, names
        self.attr_store, self.sub_bases = attr_store, sub_bases
        e = eng()
        self.seq = e.loop_seq
        e.loop_seq += 1
        self.key = (lid, self.seq, tuple(e.trail))
        self.mode = "native"
        self.retry = False
        self.iter_n = 0
        self.born = e.obj_counter
        self.st = None
        self.phase = 0
        if kind == "for":
            from .loader import SymRange
            from .seq import SymList, len_
            self.symseq = None
            if isinstance(it, (SymRange,)) or (isinstance(it, SymList) and it.sym):
                self.symseq = it
                self.n = len_(it)
                self.k = 0
            else:
                self.it = iter(it)
            self.k = 0

    # ---- for loops
    def has_next(self):
        e = eng()
        if self.symseq is None:
            try:
                self._nx = next(self.it)
                self.k = self.k + 1
                return True
            except StopIteration:
                self.retry = False
                return False
        return self.test(core.cmp(self.k, self.n, "<"))

    def next(self):
        if self.symseq is None:
            return self._nx
        v = self.symseq.at(self.k)
        self.k = self.k + 1
        return v

    # ---- head / test
    def head(self, loc):
        self.loc = loc
        vals = {n: loc.get(n, UNDEF) for n in self.names}
        e = eng()
        if self.mode == "native" and self.phase == 0:
            self.cur = vals
            return tuple(vals[n] for n in self.names)
        if self.mode == "cut" and self.phase == 1:
            # switch: havoc
            vals = self.enter(vals)
            self.cur = vals
            self.phase = 2
            return tuple(vals[n] for n in self.names)
        # second arrival: invariants are checked in test()
        self.cur = vals
        self.phase = 3
        return tuple(vals[n] for n in self.names)

    def test(self, c):
        e = eng()
        self.retry = False
        if self.mode == "native":
            if not isinstance(c, Sym):
                self.iter_n += 1
                return bool(c)
            cb = tbool(c)
            kn = e.known(cb)
            if kn is not None and self.iter_n < e.hooks.get("native_limit", NATIVE_LIMIT):
                self.iter_n += 1
                return kn
            # undecided: maybe peel an iteration so that None/undefined variables get a value
            if any(v is None for v in self.cur.values()) and self.iter_n == 0:
                self.iter_n += 1
                return e.decide(cb)
            if e.hooks.get("unroll"):
                self.iter_n += 1
                if self.iter_n > e.hooks["unroll"]:
                    e.bounded_cut = True
                    raise PathEnd("unroll bound")
                return e.decide(cb)
            self.mode, self.phase, self.retry = "cut", 1, True
            return False
        cb = tbool(c)
        if self.phase == 2:
            self.measure0 = self._measure(cb)
            d = e.decide(cb)
            if d:
                e.cutdepth += 1
                e.loop_stack.append(self)
            return d
        # phase 3: end of the arbitrary iteration
        e.loop_stack = [l for l in e.loop_stack if l is not self]
        self.check_preserved(cb)
        raise PathEnd("loop iteration")

    def _measure(self, cb):
        t, neg = cb, False
        while z3.is_not(t):
            t, neg = t.arg(0), not neg
        if not z3.is_app(t) or t.num_args() != 2 or not z3.is_int(t.arg(0)):
            return None
        k = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            m = b - a
        elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            m = a - b
        else:
            return None
        return -m if neg else m

    def enter(self, vals):
        e = eng()
        if self.attr_store:
            raise Unsupported(f"{self.lid}: attribute assignment in a loop that needs an invariant")
        from .seq import SymList
        from .tensor import SymTensor
        for b in self.sub_bases:
            o = self.loc.get(b, None)
            if not isinstance(o, (SymTensor, SymList)) and o is not None:
                raise Unsupported(f"{self.lid}: untracked container {b} written in a loop that needs an invariant")
        e.cut_loops.add(self.lid)
        e.is_cut_path = True
        st = e.loop_state.setdefault(self.key, {"havoc": set(), "dropped": set(), "ever": None})
        self.st = st
        self.entry_vals = dict(vals)
        pre = {}
        objs = {o.oid: o for o in e.live_objs() if o.oid in st["havoc"]}
        self.pre_objs = objs
        schema = e.hooks.get("loop_schema")
        env0 = Env(self, dict(vals), dict(vals), self.k if self.kind == "for" else None, getattr(self, "n", None))
        env0.objs = {o: SymSnapshot(ob) for o, ob in objs.items()}
        cands = list(schema(env0)) if schema else []
        if self.kind == "for" and self.symseq is not None:
            k0 = self.k
            cands += [Cand("iter_lo", lambda env: core.cmp(env.k, k0, ">=")), Cand("iter_hi", lambda env: core.cmp(env.k, env.seqlen, "<="))]
        for n, v in vals.items():
            if v is not UNDEF and isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                if e.hooks.get("nl_houdini"):
                    cands.append(Cand(f"{n} unchanged", lambda env, n=n, v=v: core.cmp(env.vals[n], v, "==")))
                cands.append(Cand(f"{n}>=0", lambda env, n=n: core.cmp(env.vals[n], 0, ">=")))
        self.cands = []
        for c in cands:
            if c.name in st["dropped"]:
                continue
            if not self.holds(c, env0, f"{self.lid}: {c.name} established"):
                st["dropped"].add(c.name)
                continue
            self.cands.append(c)
        # havoc
        new = {}
        for n, v in vals.items():
            if v is UNDEF:
                new[n] = UNDEF
            elif isinstance(v, (bool, SymBool)):
                new[n] = SymBool(e.fresh("h_" + n, z3.BoolSort()))
            elif isinstance(v, (int, SymInt)):
                new[n] = SymInt(e.fresh("h_" + n))
            elif isinstance(v, (float, SymReal, core.Fraction)):
                new[n] = SymReal(e.fresh("h_" + n, z3.RealSort()))
            elif isinstance(v, SymTensor):
                new[n] = v.havoc_copy("h_" + n)
                # the variable may still name another object (as it does on entry): writes to it are then not tracked
                if v.storage.label is not None or any(m != n and isinstance(w, SymTensor) and w.storage is v.storage for m, w in list(self.loc.items()) + list(vals.items())):
                    new[n].storage.untracked = True
            else:
                raise Unsupported(f"{self.lid}: cannot havoc variable {n} of type {type(v).__name__}")
        for o in objs.values():
            o.havoc("h_obj")
        if self.kind == "for":
            self.k = SymInt(e.fresh("h_iter"))
        env = Env(self, new, dict(vals), self.k if self.kind == "for" else None, getattr(self, "n", None))
        env.objs = {o: SymSnapshot(ob) for o, ob in objs.items()}
        self.env_h = env
        for c in self.cands:
            self.assume(c, env)
        if not e.feasible():
            raise PathEnd("infeasible loop")
        return new

    def holds(self, c, env, name, record=False):
        e = eng()
        try:
            f = c.f(env)
        except (KeyError, AttributeError, TypeError):
            return False
        if f is None:
            return False
        if c.kind == "bool":
            g = f
        else:
            decl, body, guard = f
            args = [e.fresh("sk") for _ in range(decl.arity())]
            g = z3.simplify(tbool(body(*args)))
            gs = split_eqs(g, args)
        old, e.houdini = e.houdini, True
        if c.kind != "bool" and e.hooks.get("nl_mono"):
            e.hooks["nl_diff"] = args
        try:
            return all(e.prove(x, name, record=record) for x in ([g] if c.kind == "bool" else gs))
        finally:
            e.houdini = old
            e.hooks.pop("nl_diff", None)

    def assume(self, c, env):
        e = eng()
        f = c.f(env)
        if c.kind == "bool":
            n = len(e.pc)
            e.assume(f)
            e.decs += e.pc[n:]   # proved facts, not assumptions (see path_cover)
            return
        decl, body, guard = f
        q = core.Quant(decl, body, c.name)
        q.proved = True
        e.assume_quant(q)

    def check_preserved(self, cb):
        e = eng()
        env = Env(self, dict(self.cur), dict(self.entry_vals), self.k if self.kind == "for" else None, getattr(self, "n", None))
        env.objs = {o: SymSnapshot(ob) for o, ob in self.pre_objs.items()}
        # variables must keep their kind
        for n, v in self.cur.items():
            h = self.env_h.vals.get(n, UNDEF)
            if h is not UNDEF:
                kinds = ((bool, SymBool), (int, SymInt), (float, SymReal, core.Fraction))
                kv = [isinstance(v, k) for k in kinds]
                kh = [isinstance(h, k) for k in kinds]
                if isinstance(v, (bool, SymBool)):
                    kv = [True, False, False]
                if isinstance(h, SymBool):
                    kh = [True, False, False]
                if kv != kh:
                    raise Unsupported(f"{self.lid}: variable {n} changes its kind inside a loop")
        bad = []
        for c in self.cands:
            if not self.holds(c, env, f"{self.lid}: {c.name} preserved", record=False):
                bad.append(c.name)
        if bad:
            self.st["dropped"].update(bad)
            e.dbg("drop", self.lid, bad)
            raise Restart(self.key[2])
        for c in self.cands:
            e.obls.append(core.Obl(f"{self.lid}: invariant {c.name}", "proved", by="z3"))
        if self.kind == "while":
            m1 = self._measure(cb)
            if self.measure0 is not None and m1 is not None:
                e.prove(z3.Implies(cb, z3.And(m1 < self.measure0, self.measure0 >= 0)), f"{self.lid}: termination measure decreases")


class SymSnapshot:
    """contents of a mutable object at this moment"""

    def __init__(self, ob):
        self.ob = ob
        self.fn = ob.current()
        self.kind = ob.kind
        self.decl = getattr(ob, "decl", None)
