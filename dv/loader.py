"""Loads torchimage from /repo's working tree for symbolic execution.

What is changed in the source text, mechanically and on every run (nothing else is):
  * while/for loops get a loop-head call (so that a loop whose condition is undecided can be cut by an invariant);
    loops with an `else` clause are left alone;
  * list displays and list comprehensions become SymList(...), set displays / comprehensions HSet(...);
  * the modules run with a replaced __builtins__: len, range, min, max, int, float, abs, set, list, isinstance-aware
    number classes, round, sum, any/all are versions that accept symbolic values, and `import torch / numpy / math`
    yields the symbolic shims.  Everything else (classes, closures, decorators, exceptions) is executed by CPython.
"""
import ast, builtins, hashlib, importlib, os, sys, types
from . import core, seq, loops
from .core import Sym, SymInt, SymReal, SymBool, Unsupported, eng, is_num

REPO = os.environ.get("DV_REPO", "/repo")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SymInt, SymBool))

    def __call__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymReal):
            return core.trunc_real(x)
        if hasattr(x, "__dv_item__"):
            return cls(x.__dv_item__())
        if isinstance(x, core.Fraction):
            return builtins.int(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.float, SymReal, core.Fraction))

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(core.treal(x))
        if hasattr(x, "__dv_item__"):
            return cls(x.__dv_item__())
        if isinstance(x, core.Fraction):
            return x
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.bool, SymBool))

    def __call__(cls, x=False):
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class bool_(metaclass=_BoolMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.list)

    def __call__(cls, x=()):
        if isinstance(x, seq.SymList):
            return x.snapshot()
        if isinstance(x, SymRange):
            return seq.SymList.make(x.__symlen__(), x.at)
        return seq.SymList(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)


class list_(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.tuple)

    def __call__(cls, x=()):
        if isinstance(x, seq.SymList) and x.sym:
            try:
                return builtins.tuple(x)
            except Unsupported:
                return x.snapshot()
        return builtins.tuple(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.tuple

    def __hash__(cls):
        return hash(builtins.tuple)


class tuple_(metaclass=_TupleMeta):
    pass


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.set, seq.HSet))

    def __call__(cls, x=()):
        return seq.HSet(x)


class set_(metaclass=_SetMeta):
    pass


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        if isinstance(step, Sym):
            if eng().decide(core.tint(step) == 0):
                raise ValueError("range() arg 3 must not be zero")
            self.neg = not eng().decide(core.tint(step) > 0)
        else:
            if step == 0:
                raise ValueError("range() arg 3 must not be zero")
            self.neg = step < 0
        self._n = None

    def __symlen__(self):
        if self._n is None:
            if self.neg:
                n = core.floordiv(self.lo - self.hi + (-self.step) - 1, -self.step)
            else:
                n = core.floordiv(self.hi - self.lo + self.step - 1, self.step)
            self._n = core.smax(n, 0)
        return self._n

    def at(self, i):
        i = core.wrap(i) if isinstance(i, core.z3.ExprRef) else i
        return self.lo + i * self.step

    def __iter__(self):
        n = self.__symlen__()
        n = n if is_num(n) else eng().unique_int(core.tint(n))
        return iter([self.at(i) for i in builtins.range(n)])

    def __getitem__(self, k):
        n = self.__symlen__()
        if isinstance(k, slice):
            s, e, st, cnt = seq.slice_norm(k, n)
            return SymRange(self.at(s), self.at(s) + cnt * st * self.step, st * self.step)
        if eng().decide(core.tbool(core.cmp(k, 0, "<"))):
            k = k + n
        if eng().decide(core.tbool(core.cmp(k, 0, "<"))) or eng().decide(core.tbool(core.cmp(k, n, ">="))):
            raise IndexError("range object index out of range")
        return self.at(k)

    def __reversed__(self):
        return iter(list(self)[::-1])


def range_(*a):
    a = [x._i() if isinstance(x, SymBool) else x for x in a]
    if all(not isinstance(x, Sym) for x in a):
        return builtins.range(*[builtins.int(x) if type(x).__module__ == "numpy" else x for x in a])
    if any(isinstance(x, SymReal) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    # maybe concrete after all
    vals = []
    for x in (lo, hi, st):
        if isinstance(x, Sym):
            t = core.z3.simplify(x.t)
            x = t.as_long() if core.z3.is_int_value(t) else x
        vals.append(x)
    if all(not isinstance(x, Sym) for x in vals):
        return builtins.range(*vals)
    return SymRange(*vals)


def _seqargs(args):
    if len(args) == 1:
        return builtins.list(args[0])
    return builtins.list(args)


def min_(*args, key=None, default=None):
    xs = _seqargs(args)
    if key is not None or not xs or not any(isinstance(x, Sym) for x in xs):
        return builtins.min(xs, key=key) if xs or default is None else default
    return core.smin(*xs)


def max_(*args, key=None, default=None):
    xs = _seqargs(args)
    if key is not None or not xs or not any(isinstance(x, Sym) for x in xs):
        return builtins.max(xs, key=key) if xs or default is None else default
    return core.smax(*xs)


def enumerate_(it, start=0):
    if isinstance(it, SymRange) or (isinstance(it, seq.SymList) and it.sym):
        return seq.SymList.make(seq.len_(it), lambda i: (core.wrap(i) + start if isinstance(i, core.z3.ExprRef) else i + start, it.at(i)))
    return builtins.enumerate(it, start)


def type_(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return int_
        if isinstance(x, SymReal):
            return float_
        if isinstance(x, SymBool):
            return bool_
    return builtins.type(*a)


def isinstance_(x, c):
    if isinstance(c, builtins.tuple):
        return builtins.any(isinstance_(x, k) for k in c)
    if isinstance(c, types.UnionType):
        return builtins.any(isinstance_(x, k) for k in c.__args__)
    return builtins.isinstance(x, c)


def sum_(it, start=0):
    for v in it:
        start = start + v
    return start


def print_(*a, **k):
    return None


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, only_functions=True):
        self.mod = modname
        self.n = self.m = 0
        self.func, self.funcnodes = [], []

    def visit_FunctionDef(self, node):
        import copy
        self.func.append(node.name)
        self.funcnodes.append(copy.deepcopy(node))
        self.generic_visit(node)
        self.func.pop()
        self.funcnodes.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=ast.Name("__HSet__", ast.Load()), args=[lc], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name("__HSet__", ast.Load()), args=[ast.List(node.elts, ast.Load())], keywords=[]), node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async:
            # SymList comprehension: may run over a sequence of symbolic length
            if isinstance(g[0].target, ast.Name):
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
            else:
                lam = None
            if lam is not None and not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(node.elt)):
                return ast.copy_location(ast.Call(func=ast.Name("__listcomp__", ast.Load()), args=[g[0].iter, lam], keywords=[]), node)
        return ast.copy_location(ast.Call(func=ast.Name("__SymList__", ast.Load()), args=[node], keywords=[]), node)

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async and isinstance(g[0].target, ast.Name) \
                and not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(node.elt)):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
            return ast.copy_location(ast.Call(func=ast.Name("__genexp__", ast.Load()), args=[g[0].iter, lam], keywords=[]), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=ast.Name("__SymList__", ast.Load()), args=[node], keywords=[]), node)
        return node

    # ---- loops
    def _assigned(self, body, targets=()):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                s.visit(n.generators[0].iter)

            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

            def visit_NamedExpr(s, n):
                names.add(n.target.id)
                s.visit(n.value)
        v = V()
        for b in list(body) + list(targets):
            v.visit(b)
        names = {n for n in names if not n.startswith("__dv_lp")}
        return sorted(names)

    def _attr_store(self, body):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    return True
        return False

    def _sub_bases(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    v = n.value
                    out.add(v.id if isinstance(v, ast.Name) else "?")
        return sorted(out)

    def _mk(self, node, kind, names, extra):
        self.n += 1
        lp = f"__dv_lp{self.n}"
        lid = f"{self.mod}.{'.'.join(self.func)}#{self.n}"
        new = ast.Assign(targets=[ast.Name(lp, ast.Store())], value=ast.Call(
            func=ast.Name("__dv_loop__", ast.Load()),
            args=[ast.Constant(lid), ast.Constant(kind), ast.Constant(tuple(names)), ast.Constant(self._attr_store(node.body)),
                  ast.Constant(tuple(self._sub_bases(node.body)))] + extra, keywords=[]))
        head = ast.Call(func=ast.Attribute(ast.Name(lp, ast.Load()), "head", ast.Load()),
                        args=[ast.Call(func=ast.Name("locals", ast.Load()), args=[], keywords=[])], keywords=[])
        if names:
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
            headst = ast.Assign(targets=[tgt], value=head)
        else:
            headst = ast.Expr(head)
        return lp, new, headst

    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse or not self.func:
            return node
        names = self._assigned(node.body, [node.test])
        lp, new, headst = self._mk(node, "while", names, [])
        test = ast.Call(func=ast.Attribute(ast.Name(lp, ast.Load()), "test", ast.Load()), args=[node.test], keywords=[])
        guard = ast.If(test=ast.UnaryOp(ast.Not(), test), body=[
            ast.If(test=ast.Attribute(ast.Name(lp, ast.Load()), "retry", ast.Load()), body=[ast.Continue()], orelse=[]),
            ast.Break()], orelse=[])
        w = ast.While(test=ast.Constant(True), body=[headst, guard] + node.body, orelse=[])
        return [ast.copy_location(x, node) for x in (new, w)]

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and sum(isinstance(x, ast.Starred) for x in t.elts) == 1:
            k = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
            node.value = ast.Call(func=ast.Name("__unpack__", ast.Load()),
                                  args=[node.value, ast.Constant(k), ast.Constant(len(t.elts) - k - 1)], keywords=[])
            node.targets = [ast.Tuple([x.value if isinstance(x, ast.Starred) else x for x in t.elts], ast.Store())]
        return node

    def _map_loop(self, node):
        """`for x in it: ret.append(E)` over a sequence of symbolic length runs as `ret.extend([E for x in it])`"""
        if not (len(node.body) == 1 and isinstance(node.body[0], ast.Expr) and isinstance(node.target, ast.Name)):
            return None
        c = node.body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name)
                and len(c.args) == 1 and not c.keywords):
            return None
        ret, x, fn = c.func.value.id, node.target.id, self.funcnodes[-1]
        inside = sum(isinstance(n, ast.Name) and n.id == x for n in ast.walk(node))
        if sum(isinstance(n, ast.Name) and n.id == x for n in ast.walk(fn)) != inside:
            return None
        for n in ast.walk(c.args[0]):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) or isinstance(n, ast.Name) and n.id == ret:
                return None
        return ret, ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=c.args[0])

    def visit_For(self, node):
        ml = self._map_loop(node) if self.func and self.funcnodes and not node.orelse else None
        if ml:
            import copy
            ret, lam = ml[0], self.visit(copy.deepcopy(ml[1]))
            self.m += 1
            tmp = f"__dv_lpm{self.m}"
            node.iter = copy.deepcopy(node.iter)
            it = self.visit(copy.deepcopy(node.iter))
            node.iter = ast.Name(tmp, ast.Load())
            orig = self._for(node)
            ext = ast.Expr(ast.Call(func=ast.Attribute(ast.Name(ret, ast.Load()), "extend", ast.Load()),
                                    args=[ast.Call(func=ast.Name("__listcomp__", ast.Load()), args=[ast.Name(tmp, ast.Load()), lam], keywords=[])], keywords=[]))
            return [ast.copy_location(n, node) for n in (
                ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=it),
                ast.If(test=ast.Call(func=ast.Name("__symbolic__", ast.Load()), args=[ast.Name(tmp, ast.Load())], keywords=[]),
                       body=[ext], orelse=orig if isinstance(orig, list) else [orig]))]
        return self._for(node)

    def _for(self, node):
        self.generic_visit(node)
        if node.orelse or not self.func:
            return node
        names = self._assigned(node.body, [node.target])
        lp, new, headst = self._mk(node, "for", names, [node.iter])
        test = ast.Call(func=ast.Attribute(ast.Name(lp, ast.Load()), "has_next", ast.Load()), args=[], keywords=[])
        guard = ast.If(test=ast.UnaryOp(ast.Not(), test), body=[
            ast.If(test=ast.Attribute(ast.Name(lp, ast.Load()), "retry", ast.Load()), body=[ast.Continue()], orelse=[]),
            ast.Break()], orelse=[])
        nxt = ast.Assign(targets=[node.target], value=ast.Call(func=ast.Attribute(ast.Name(lp, ast.Load()), "next", ast.Load()), args=[], keywords=[]))
        w = ast.While(test=ast.Constant(True), body=[headst, guard, nxt] + node.body, orelse=[])
        return [ast.copy_location(x, node) for x in (new, w)]


def listcomp_(it, f):
    if isinstance(it, SymRange) or (isinstance(it, seq.SymList) and it.sym):
        n = seq.len_(it)
        if not is_num(n):
            kn = None
            try:
                kn = eng().unique_int(core.tint(n))
            except Unsupported:
                pass
            if kn is None:
                return seq.SymList.make(n, lambda i: f(it.at(i)))
            return seq.SymList([f(it.at(i)) for i in builtins.range(kn)])
    return seq.SymList([f(x) for x in it])


def genexp_(it, f):
    if (isinstance(it, seq.SymList) and it.sym) or isinstance(it, SymRange):
        return listcomp_(it, f)
    return (f(x) for x in it)


def symbolic_(it):
    """an iterable whose length is symbolic"""
    return (isinstance(it, seq.SymList) and bool(it.sym) or isinstance(it, SymRange)) and not _known_len(it)


def _known_len(it):
    n = seq.len_(it)
    if is_num(n):
        return True
    try:
        eng().unique_int(core.tint(n))
        return True
    except Unsupported:
        return False


def map_(f, *its):
    if len(its) == 1 and symbolic_(its[0]):
        return listcomp_(its[0], f)
    return builtins.map(f, *its)


def reversed_(it):
    if isinstance(it, seq.SymList) and symbolic_(it):
        return it[::-1]
    return builtins.reversed(it)


def iter_(it, *a):
    if not a and isinstance(it, seq.SymList) and symbolic_(it):
        return it.snapshot()
    return builtins.iter(it, *a)


def zip_(*its):
    if its and all(symbolic_(x) for x in its):
        n = seq.len_(its[0])
        if all(not eng().decide(core.tbool(core.cmp(seq.len_(x), n, "!="))) for x in its[1:]):
            its = [x.snapshot() if isinstance(x, seq.SymList) else x for x in its]
            return seq.SymList.make(n, lambda i: builtins.tuple(x.at(i) for x in its))
    return builtins.zip(*its)


def unpack_(v, nb, na):
    """the values of `a, *rest, b = v`"""
    if isinstance(v, seq.SymList) and symbolic_(v):
        if eng().decide(core.tbool(core.cmp(seq.len_(v), nb + na, "<"))):
            raise ValueError("not enough values to unpack")
        return builtins.tuple([v[i] for i in builtins.range(nb)] + [v[nb:len_neg(na)]] + [v[-(na - i)] for i in builtins.range(na)])
    v = builtins.list(v)
    if builtins.len(v) < nb + na:
        raise ValueError(f"not enough values to unpack (expected at least {nb + na}, got {builtins.len(v)})")
    m = builtins.len(v) - na
    return builtins.tuple(v[:nb] + [seq.SymList(v[nb:m])] + v[m:])


def len_neg(n):
    return -n if n else None


_CODE = {}


class Loader:
    """loads a fresh copy of the package for each verification run"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}
        from . import shim_torch, shim_np, shim_math
        self.shim = {"torch": shim_torch.torch, "numpy": shim_np.np, "math": shim_math.math}
        bi = dict(vars(builtins))
        bi.update({"len": seq.len_, "range": range_, "min": min_, "max": max_, "int": int_, "float": float_, "bool": bool_,
                   "set": set_, "list": list_, "tuple": tuple_, "isinstance": isinstance_, "type": type_, "sum": sum_, "print": print_, "enumerate": enumerate_,
                   "map": map_, "iter": iter_, "reversed": reversed_, "zip": zip_, "__unpack__": unpack_, "__symbolic__": symbolic_,
                   "frozenset": set_, "__import__": self.import_, "__HSet__": seq.HSet, "__SymList__": seq.SymList, "__listcomp__": listcomp_, "__genexp__": genexp_,
                   "__dv_loop__": loops.Loop})
        self.builtins = bi

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + "." + f))
                        except ModuleNotFoundError:
                            raise ImportError(f"cannot import name {f!r} from {full!r}")
            return m
        top = name.split(".")[0]
        if top == "torchimage":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load("torchimage")
        if top in self.shim:
            m = self.shim[top]
            parts = name.split(".")[1:]
            if fromlist:
                for p in parts:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        raise ModuleNotFoundError(name)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.path(name)
        src = open(path).read() if os.path.exists(path) else ""
        self.sources[path] = hashlib.sha256(src.encode()).hexdigest()
        code = _CODE.get((path, self.sources[path]))
        if code is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
                tree = Transformer(name).visit(tree)
                ast.fix_missing_locations(tree)
                code = compile(tree, path, "exec")
            _CODE[(path, self.sources[path])] = code
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and getattr(v, "__module__", "") == name and "__len__" in vars(v):
                try:
                    vars(v)["__len__"].__dv__ = True
                except Exception:
                    pass
        if "." in name:
            setattr(self.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def patch(self, func, stub):
        """replace a function object by a stub in every module (and module-level dict) that holds it"""
        n = 0
        for m in self.modules.values():
            for k, v in list(vars(m).items()):
                if v is func:
                    setattr(m, k, stub)
                    n += 1
                elif isinstance(v, dict) and k != "__builtins__":
                    for kk, vv in list(v.items()):
                        if vv is func:
                            v[kk] = stub
                            n += 1
        return n
