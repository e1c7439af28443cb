"""Checks the assumed contracts of torch / numpy (dv's shims) against the real libraries, operation by operation.

  /opt/venv/bin/python tools/conformance.py --real OUT.json     run every snippet on real torch / numpy
  python3-vt tools/conformance.py --sym OUT.json                run every snippet on the shims and compare with OUT.json
  python3-vt tools/conformance.py                               both

Each snippet is run on the shims twice: with concrete sizes and symbolic contents, and with symbolic sizes (fixed to the
same numbers only in the path condition) and symbolic contents; the element terms are then evaluated at the data the real
library was given.  Shapes, dtypes, elements, the exception type, and (where `V` is set) whether a write to the result is
seen by the operand are compared.  Functionals without an element formula (median, ...) are reported as opaque."""
import json, os, subprocess, sys
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# data: name -> (shape, dtype, generator of exact values)
def vals(n, k, dt):
    out = []
    for i in range(n):
        v = (i * 7 + k * 5) % 23 - 9
        if dt.startswith("float"):
            v = v / 4
        elif dt == "uint8":
            v = v % 17
        elif dt == "bool":
            v = (i + k) % 3 == 0
        out.append(v)
    return out


DATA = {"x": ((3, 4), "float64", 1), "y": ((3, 4), "float64", 2), "a": ((2, 3, 4), "float64", 3), "b": ((2, 4, 6, 4), "float64", 4),
        "v": ((4,), "float64", 5), "u": ((3,), "float64", 6), "f": ((3, 4), "float32", 7), "i": ((3, 4), "int64", 8), "c": ((3, 4), "uint8", 9),
        "m": ((3, 4), "bool", 10), "s": ((), "float64", 11), "o": ((3, 1), "float64", 12), "w": ((2, 1, 3), "float64", 13), "k": ((2, 4, 3, 3), "float64", 14),
        "one": ((1, 4), "float64", 15), "j": ((3,), "int64", 16), "z": ((2, 1, 3, 1), "float64", 17), "n": ((), "int64", 18)}
U = """
x + y|x - y|x * y|x / 4|4 / (y * y + 1)|x // 0.5|x + 1|1 - x|x * 2.5|2 * i|i + 1|i + 0.5|i / 2|i // 2|i % 3|x % 0.75|c + c|c * 2|c + 1|c - 1|c / 2|-x|-i|abs(x)|+x|x ** 2|x ** 3|i ** 2|x ** 1
x + v|x + o|o + v|x + s|s + x|i + s|f + s|f + x|f * i|f * 2.5|i * f|c + i|c + f|m + i|m * 2.5|x * m|i + 2|n + 1|n * x|n * f|s * f|s * i|n + i|2 ** i.abs()|f + 1|c * 1.5|i - s
x == y|x != y|x < y|x <= 0|x > y|x >= v|(x > 0) & (y > 0)|(x > 0) \\| m|~m|m ^ (x > 0)|x > i|i == 3|c > 3
x.T|x.transpose(0, 1)|a.permute(2, 0, 1)|a.transpose(0, -1)|a.movedim(0, 2)|a.movedim(-1, 0)|a.mT|torch.movedim(a, 1, 0)
x.unsqueeze(0)|x.unsqueeze(-1)|x.unsqueeze(1)|o.squeeze(1)|o.squeeze(0)|o.squeeze()|z.squeeze()|z.squeeze(-1)|x[None]|x[..., None]|x[:, None, :]
x[0]|x[-1]|x[1:]|x[:, 1:3]|x[:, ::2]|x[1:1]|x[5:]|x[:-1, :-2]|x[-2:]|x[..., 0]|x[..., -1:]|a[0, 1, 2]|a[:, 1]|a[..., 1:, :2]|a[1, ..., 2]|b[:, 1:, ::2, -3:]|x[(slice(None), 1)]|x[[0, 2]]|x[:, [3, 1, 1]]|a[:, [0, 2], 1:]|x[(Ellipsis, slice(0, 2))]|x[1:3][0]|x.T[1:, 0]|x[:, 1:][:, ::2]
x.flip(0)|x.flip([0, 1])|torch.flip(x, (1,))|x.flip(-1)|torch.flip(x, dims=[-1])
x.reshape(12)|x.reshape(4, 3)|x.reshape(-1)|x.reshape(2, -1)|a.reshape(6, 4)|a.reshape(2, 12)|b.reshape(8, 6, 4)|b.reshape(2, 4, 24)|b.reshape(2, 4, 3, 2, 4)|x.view(12)|x.view(2, 6)|x.T.reshape(12)|x.reshape(3, 4, 1)|x.reshape(1, 3, 1, 4)|a.flatten()|a.flatten(1)|a.flatten(0, 1)|x.ravel()|x.reshape(5, 2)|x.T.view(12)|a.unflatten(2, (2, 2))|torch.flatten(a, 1)
a.reshape(-1, 1, 4)|a.transpose(1, 2).reshape(-1, 3)|a.movedim(1, -1).reshape(-1, 1, 3)|a.movedim(1, -1).reshape(2, 4, 3)|x.contiguous()|x.T.contiguous()|x.clone()|x.detach()
o.expand(3, 4)|v.expand(3, 4)|o.expand(-1, 2)|one.expand(3, -1)|s.expand(2, 2)|o.broadcast_to((3, 5))|torch.broadcast_to(v, (2, 4))|v.expand(3, 5)|x.repeat(2, 1)|v.repeat(2, 3)|o.expand_as(x)
x.unfold(0, 2, 1)|x.unfold(1, 2, 2)|x.unfold(-1, 3, 1)|a.unfold(1, 2, 1)|b.unfold(2, 3, 2)|x.unfold(0, 4, 1)|x.unfold(0, 3, 5)|x.unfold(1, 2, 2).unfold(0, 2, 1)|x.unfold(1, 0, 1)|v.unfold(0, 4, 1)
x.narrow(1, 1, 2)|x.select(0, 1)|x.index_select(1, torch.tensor([2, 0]))|torch.narrow(x, 0, 1, 2)
x.sum()|x.sum(0)|x.sum(dim=1, keepdim=True)|a.sum(dim=(0, 2))|a.sum(dim=(1, 2), keepdim=True)|i.sum()|c.sum()|m.sum()|x.mean()|x.mean(1)|x.mean(dim=(0, 1))|a.mean(dim=[0, -1])|torch.mean(x, dim=1, keepdim=True)|torch.sum(x, 0)|i.mean()|a.sum(dim=())|a.mean(dim=(1,), keepdim=True)|m.sum(0)|a.sum([])|f.sum()|f.mean(0)|x.prod(1)|torch.prod(x, 0)
x.max()|x.min()|torch.max(x, 1, keepdim=True)[0]|torch.min(x, 0).values|x.amax(1)|torch.amin(x, 0)|torch.median(x, 1, keepdim=True)[0]|x.median(0)[0]|torch.maximum(x, y)|torch.minimum(x, o)|torch.max(x, y)|x.any()|m.any()|(x > 99).any()|m.all(1)|torch.all(x < 99)
x.clamp(0, 1)|x.clamp(min=0)|x.clamp(max=0.5)|torch.clamp(x, -1, 1)|x.clamp_min(0)|torch.clamp(x, min=0.25)|i.clamp(0, 2)|x.clamp(2, 1)|F.relu(x)|x.clip(0, 1)
torch.where(x > 0, x, y)|torch.where(x > 0, x, 0.0)|torch.where(m, 1.0, x)|torch.where(m, o, v)|x.masked_fill(m, 7.0)|torch.where(x > 0, i, f)|x.where(m, y)|torch.where(m, i, 0.5)
torch.floor(x)|torch.ceil(x)|x.floor()|torch.trunc(x)|x.sign()|torch.abs(x)|torch.square(x)|torch.neg(x)|x.reciprocal()|torch.pow(x, 2)|torch.pow(2, i.abs())|torch.pow(x, torch.tensor(2))|torch.add(x, y)|torch.add(x, y, alpha=2)|torch.sub(x, y)|torch.mul(x, v)|torch.div(x, 2)|x.add(1)|x.mul(y)|x.sub(y, alpha=3)|torch.frac(x)
x @ x.T|x @ v|v @ v|a @ v|a @ x.T|torch.matmul(x, v)|torch.matmul(a, x.T)|v @ x.T|x.unfold(1, 2, 1) @ torch.tensor([1.0, 2.0], dtype=torch.float64)|x @ o
torch.cat([x, y])|torch.cat([x, y], dim=1)|torch.cat((x, o), -1)|torch.cat([x, i])|torch.cat([x, v])|torch.stack([x, y])|torch.stack([x, y], dim=1)|torch.stack((x, y), -1)|torch.stack([x, i.double()], 2)|torch.stack([v, u])|torch.cat([v, u])
torch.arange(5)|torch.arange(2, 9, 3)|torch.arange(5, 0, -2)|torch.arange(0)|torch.arange(3, dtype=torch.float64)|torch.linspace(0, 1, 5, dtype=torch.float64)|torch.linspace(2, -1, 4, dtype=torch.float64)|torch.linspace(1, 2, 1)|torch.zeros(2, 3)|torch.zeros((2, 3), dtype=torch.int64)|torch.ones(2)|torch.full((2, 2), 7)|torch.full((2,), 1.5)|torch.full((2,), True)|torch.zeros_like(x)|torch.ones_like(i)|torch.full_like(f, 2)|x.new_zeros(2)|x.new_full((2, 2), 3)|torch.tensor([1, 2])|torch.tensor([1.5, 2])|torch.tensor([[1, 2], [3, 4]], dtype=torch.float32)|torch.tensor(True)|torch.tensor(3)|torch.tensor(2.5)|torch.tensor([True, False])|torch.as_tensor([1.5, 2])|torch.tensor(x)|torch.zeros(0, 3)|torch.zeros(-1)|torch.from_numpy(np.array([1.5, 2.5]))|torch.from_numpy(np.array([1, 2]))
x.float()|x.long()|i.double()|c.float()|x.int()|x.to(torch.float32)|i.to(x)|x.bool()|c.long()|m.float()|x.type_as(f)|x.to(torch.uint8) if False else c.to(torch.int64)|i.to(torch.uint8)|f.double()|x.abs().to(torch.int64)|x.to(dtype=torch.int32)
F.conv1d(w, w)|F.conv1d(w[:, :, :], w[:, :, :2], stride=2)|F.conv1d(a.reshape(2, 3, 4), a[:, :, :3].reshape(2, 3, 3))|F.conv1d(a[:, :1], w[:, :, :2], dilation=2)|F.conv2d(b, k)|F.conv2d(b, k, stride=2)|F.conv2d(b, k, stride=(2, 1))|F.conv2d(b, k[:, :, :1], dilation=(1, 2))|F.conv2d(b, k, torch.tensor([1.0, 2.0], dtype=torch.float64))|F.conv2d(b[:, :3], k)|F.conv1d(w, a[:, :1])|F.conv1d(f[None], w)|F.conv2d(b, k, padding=1)|F.conv2d(b[0], k)
F.pad(x, (1, 2))|F.pad(x, (1, 2, 0, 1))|F.pad(x, (1, 2), value=3.0)|F.pad(a, (1, 2), mode="reflect")|F.pad(a, (2, 1), mode="replicate")|F.pad(a, (2, 1), mode="circular")|F.pad(a, (4, 1), mode="reflect")|F.pad(b, (1, 2, 2, 1), mode="reflect")|nn.ReflectionPad2d((1, 2, 2, 1))(b)|nn.ReflectionPad2d(1)(a)|F.pixel_unshuffle(b, 2)|F.pixel_unshuffle(a[:, :2], 2)|F.pixel_unshuffle(a, 2)|nn.ReflectionPad2d(4)(b)|F.pad(x, (-1, 1))
F.mse_loss(x, y)|F.mse_loss(x, y, reduction="none")|F.l1_loss(x, y, reduction="sum")|F.l1_loss(x, y)|nn.L1Loss()(x, y)
torch.result_type(x, i)|torch.result_type(i, 1.5)|torch.result_type(s, f)|torch.promote_types(torch.uint8, torch.int64)|torch.result_type(f, 1)|torch.result_type(i, s)|torch.result_type(n, f)|torch.result_type(c, n)|torch.result_type(i, c)|torch.result_type(s, n)
x.shape|x.ndim|x.size(0)|x.size(-1)|x.numel()|len(x)|x.dim()|x.is_floating_point()|i.is_floating_point()|torch.is_tensor(x)|torch.equal(x, x)|torch.equal(x, y)|x.T.is_contiguous()|x.is_contiguous()|x[1:].is_contiguous()|x.shape[1:]|tuple(a.shape)|list(a.shape[:-1])
[t.sum() for t in x]|x[1, 2].item()|float(s)|int(n)|i.tolist()|v.tolist()|s.item() + 1|bool(s > 0)
torch.broadcast_tensors(x, v)|torch.broadcast_tensors(o, one)|torch.broadcast_shapes((3, 1), (4,))|torch.broadcast_shapes((3, 2), (4,))|x + u|x[3]|x.unsqueeze(4)|x.sum(2)|x.transpose(0, 2)|x @ u|torch.stack([x, v])|x.permute(0, 0)|x.flip(2)|x.view(5)
"""
# statements: r is what is compared (aliasing and in-place semantics)
ST = [
    "r = x.clone(); r[1:] = 5", "r = x.clone(); r[:, 1] = v[:3]", "r = x.clone(); r[..., 0] = u", "r = x.clone(); r[1:, ::2] = y[:2, 1:3]", "r = x.clone(); r[0] += y[1]",
    "r = x.clone(); q = r[1:]; q += 1", "r = x.clone(); q = r.T; q[0] = 9", "r = x.clone(); q = r.reshape(12); q[5] = 9", "r = x.clone(); q = r.T.reshape(12); q[5] = 9",
    "r = x.clone(); q = r.unsqueeze(0); q[0, 1] = 0", "r = x.clone(); q = r.flip(0); q[0] = 0", "r = x.clone(); q = r.detach(); q[0] = 0", "r = x.clone(); q = r.data; q *= 2",
    "r = x.clone(); q = r[[0, 1]]; q += 1", "r = x.clone(); r[[0, 2]] = 1", "r = x.clone(); r[x > 0] = 0", "r = x.clone(); r[m] *= 2", "r = x.clone(); r[m] = x[m] * 3", "r = x.clone(); q = r.contiguous(); q += 1",
    "r = x.clone(); q = r.to(torch.float64); q += 1", "r = x.clone(); q = r.to(torch.float32); q += 1", "r = x.clone(); q = r.double(); q += 1", "r = x.clone(); r -= 1", "r = x.clone(); r /= 2", "r = x.clone(); r **= 2",
    "r = x.clone(); r.mul_(2)", "r = x.clone(); r.add_(y)", "r = x.clone(); r.add_(y, alpha=2)", "r = x.clone(); r.clamp_(0, 1)", "r = x.clone(); r.copy_(y)", "r = x.clone(); r.fill_(3)", "r = x.clone(); r.zero_()",
    "r = i.clone(); r += 1", "r = i.clone(); r += 0.5", "r = i.clone(); r /= 2", "r = i.clone(); r[0] = 2.75", "r = c.clone(); r += 250", "r = f.clone(); r += x", "r = x.clone(); r += i",
    "r = x.clone(); r[1] = r[0]", "r = x.clone(); q = r.expand(2, 3, 4); r[0] = 7; r = q", "r = x.clone(); q = r.unfold(1, 2, 1); r[0] = 7; r = q", "r = x.clone(); q = r.narrow(0, 1, 2); q.zero_()",
    "r = x.clone(); q = r.select(1, 0); q.fill_(1)", "r = x.clone(); q = r.movedim(0, 1); q[1] = 2", "r = x.clone(); q = r.view(2, 6); q[1] = 2", "r = x.clone(); q = r.squeeze(); q[1] = 2", "r = x.clone(); q = r.clone(); q[1] = 2",
    "r = x.clone(); q = torch.as_tensor(r); q[0] = 5", "r = x.clone(); q = torch.tensor(r); q[0] = 5", "r = x.clone(); q = r + 0; q[0] = 5", "r = x.clone(); q = abs(r); q[0] = 5", "r = x.clone(); q = r.flatten(); q[0] = 5",
    "r = x.clone(); q = r.clamp(min=-99); q[0] = 5", "r = x.clone(); q = torch.broadcast_tensors(r, y)[0]; q[0] = 5", "r = x.clone(); r[1:, 1:] = r[:-1, :-1].clone()", "r = x.clone(); r[:, -1:] = o", "r = x.clone(); r[..., 1:3] = s",
    "r = x.clone(); r[0] = u", "r = x.clone(); r[:2] = y", "r = x.clone(); r[5] = 0", "r = x.clone(); del r; r = y", "r = torch.stack([x, y], 0); r[0] = 0; r = x", "r = torch.cat([x, y], 0); r[0] = 0; r = x",
    "r = x.clone(); q = r.mean(dim=()); q += 1", "r = x.clone(); q = r.sum(dim=()); q += 1", "r = x.clone(); q = r.transpose(0, 1); q += q.clone()", "r = x.clone(); q = r.masked_fill(m, 0); q += 1; r = r + q",
    "r = x.clone(); q = r.repeat(1, 1); q += 1", "r = x.clone(); q = r.pow(1); q += 1", "r = x.clone(); q = F.pad(r, (0, 0)); q += 1", "r = np.array([1.0, 2.0]); q = torch.from_numpy(r); q += 1; r = torch.from_numpy(r)",
    "r = torch.from_numpy(np.array([[1.0, 2.0]]) * 2)", "r = torch.from_numpy(np.arange(4)[::1] + 1)", "r = torch.from_numpy(np.exp(np.zeros(2)))", "r = torch.tensor(np.ones((2, 2)))", "r = torch.from_numpy(np.zeros(3))", "r = torch.from_numpy(np.diag(np.array([1.0, 2.0]), 1))",
    "r = torch.from_numpy(np.diag(np.array([1.0, 2.0]), 1) + np.diag(np.array([5.0, 6.0]), -1))", "r = torch.from_numpy(np.diag(np.array([1.0, 2.0, 3.0])) @ np.array([1.0, 1.0, 2.0]))", "r = torch.from_numpy(np.stack([np.array([1.0, 2.0]), np.array([3.0, 4.0])]))",
    "r = np.prod([2, 3])", "r = np.prod(())", "r = np.argsort([3, 1, 2]).tolist()", "r = np.argsort((-2, 5, 0)).tolist()", "r = np.broadcast_to([1, 2], (3, 2)).tolist()", "r = np.broadcast_to(5, (2,)).tolist()", "r = np.broadcast_to([1, 2, 3], (3, 2)).tolist()", "r = np.arange(3, 0, -1).tolist()",
    "r = np.array([1, 2, 3])[::-1].tolist()", "r = np.array([[1, 2], [3, 4]]).shape", "r = np.pad(np.array([1.0, 2.0]), (1, 2)).tolist()", "r = np.ones(3).sum()", "r = np.isscalar(3)",
]


def programs():
    out = []
    for part in U.strip().splitlines():
        cur = ""
        for piece in part.replace("\\|", "\0").split("|"):
            piece = piece.replace("\0", "|").replace("\\\\", "").strip()
            piece = piece.replace("\\", "")
            if piece:
                out.append("r = " + piece)
    return out + ST


def norm(r, elem):
    """-> json value"""
    if hasattr(r, "dtype") and hasattr(r, "ndim") and not isinstance(r, (int, float)):
        sh = [int(elem(s)) for s in r.shape]
        import itertools
        es = []
        for ix in itertools.product(*[range(s) for s in sh]):
            es.append(elem(r.at(*ix) if hasattr(r, "at") else r[ix].item()))
        return {"shape": sh, "dtype": str(r.dtype).replace("torch.", ""), "e": es}
    if isinstance(r, (list, tuple)):
        return [norm(q, elem) for q in r]
    if isinstance(r, str):
        return r
    if hasattr(r, "is_floating_point") and not hasattr(r, "ndim"):
        return str(r).replace("torch.", "")
    return elem(r)


def real(out):
    import torch, numpy as np
    import torch.nn as nn, torch.nn.functional as F
    import warnings
    warnings.simplefilter("ignore")
    res = []

    def elem(v):
        if isinstance(v, (bool, np.bool_)):
            return ["b", bool(v)]
        if v != v or v in (float("inf"), float("-inf")):
            return ["nan", str(v)]
        return ["n", str(Fraction(float(v) if not isinstance(v, (int, np.integer)) else int(v)))]
    for p in programs():
        env = {"torch": torch, "np": np, "nn": nn, "F": F}
        for n, (sh, dt, k) in DATA.items():
            cnt = int(np.prod(sh)) if sh else 1
            env[n] = torch.tensor(vals(cnt, k, dt), dtype=getattr(torch, dt)).reshape(sh)
        try:
            exec(p, env)
            res.append({"p": p, "r": norm(env["r"], elem)})
        except Exception as x:
            res.append({"p": p, "exc": type(x).__name__, "msg": str(x)[:100]})
    json.dump(res, open(out, "w"))


def sym(inp, verbose):
    sys.path.insert(0, HERE)
    import z3
    from dv import core, tensor as T
    from dv.loader import Loader
    from dv.tensor import SymTensor
    exp = json.load(open(inp))
    import dv.shim_torch as st, dv.shim_np as sn
    stats = {"agree": 0, "opaque": 0, "unsupported": 0, "differ": 0}
    bad, uns, opq = [], {}, {}
    for mode in ("sizes concrete", "sizes symbolic"):
        for ex in exp:
            outs = []

            def fn():
                e = core.eng()
                out = {}
                outs.append(out)
                env = {"torch": st.torch, "np": sn.np, "nn": st.nn, "F": st.F}
                from dv import loader
                for n in ("len", "list", "bool", "float", "int", "abs"):
                    b = getattr(loader, "BUILTINS", {}).get(n)
                    if b is not None:
                        env[n] = b
                funs, szs = [], []
                for n, (sh, dt, k) in DATA.items():
                    d = T.as_dtype(getattr(T, dt.upper()))
                    shape = []
                    for s in sh:
                        if mode == "sizes symbolic":
                            q = e.fresh_int("n", 0)
                            e.assume(core.eq(q, s))
                            szs.append((q.t, z3.IntVal(s)))
                            shape.append(q)
                        else:
                            shape.append(s)
                    t = SymTensor.input("in_" + n, tuple(shape), d)
                    env[n] = t
                    cnt = 1
                    for s in sh:
                        cnt *= s
                    vs = vals(cnt, k, dt)
                    srt = t.decl.range() if isinstance(t.decl, z3.FuncDeclRef) else None
                    lit = lambda v: (z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v) if srt == z3.IntSort() else z3.RealVal(str(Fraction(v))))
                    if not sh:
                        dec = t.decl
                        cst = dec() if isinstance(dec, z3.FuncDeclRef) else dec
                        v = vs[0]
                        szs.append((cst, z3.BoolVal(v) if cst.sort() == z3.BoolSort() else z3.IntVal(v) if cst.sort() == z3.IntSort() else z3.RealVal(str(Fraction(v)))))
                    else:
                        body = lit(vs[-1])
                        import itertools
                        for ix, v in reversed(list(zip(itertools.product(*[range(s) for s in sh]), vs))):
                            body = z3.If(z3.And(*[z3.Var(d_, z3.IntSort()) == c for d_, c in enumerate(ix)]), lit(v), body)
                        funs.append((t.decl, body))
                    # the contents are data: tell the solver too, so that branches on them are decided
                    for ix, v in zip(itertools.product(*[range(s) for s in sh]) if sh else [()], vs):
                        e.assume(core.eq(t.at(*ix), v if isinstance(v, (bool, int)) else Fraction(v)))

                def elem(v):
                    if isinstance(v, (bool,)):
                        return ["b", v]
                    if core.is_num(v):
                        return ["n", str(Fraction(v))]
                    t = core.term(v)
                    for _ in range(3):
                        t = z3.substitute(t, *szs)
                        t = z3.substitute_funs(t, *funs)
                        t = z3.simplify(t)
                    if z3.is_true(t) or z3.is_false(t):
                        return ["b", z3.is_true(t)]
                    if z3.is_int_value(t) or z3.is_rational_value(t):
                        return ["n", str(Fraction(t.as_fraction() if z3.is_rational_value(t) else t.as_long()))]
                    return ["opaque", str(t)[:60]]
                try:
                    exec(ex["p"], env)
                    out["r"] = norm(env["r"], elem)
                except core.Unsupported as x:
                    out["uns"] = str(x)
                except (core.Restart if hasattr(core, "Restart") else ()):
                    raise
                except Exception as x:
                    if type(x).__module__.startswith("dv"):
                        raise
                    out["exc"], out["msg"] = type(x).__name__, str(x)[:160]
            e = core.Engine(timeout_ms=2000, budget_s=30)
            core.set_engine(e)
            try:
                e.explore(fn)
            except core.Unsupported as x:
                outs.append({"uns": str(x)})
            # an operation may fork (any(), contiguous()): the real result has to be among the paths
            order = ["agree", "opaque", "unsupported", "differ"]
            tag, out = min(((compare(ex, o), o) for o in outs if o), key=lambda q: order.index(q[0]), default=("unsupported", {"uns": "no path"}))
            stats[tag] += 1
            if tag == "differ":
                bad.append((mode, ex, out))
            if tag in ("unsupported",):
                uns.setdefault(ex["p"], out["uns"])
            if tag == "opaque":
                opq[ex["p"]] = 1
    print(f"{len(exp)} snippets x 2 modes: {stats}")
    for p, u in uns.items():
        print("  unsupported (the engine refuses):", p, "--", u[:80])
    if verbose:
        for p in opq:
            print("  opaque:", p)
    for mode, ex, out in bad:
        print("DIFFER", mode, ex["p"], "\n    real:", str(ex.get("r", (ex.get("exc"), ex.get("msg"))))[:300], "\n    shim:", str(out.get("r", (out.get("exc"), out.get("msg"))))[:300])
    return 1 if bad else 0


def close(a, b):
    fa, fb = Fraction(a), Fraction(b)
    return abs(fa - fb) <= Fraction(1, 10**6) * (1 + abs(fa))


def compare(ex, out):
    if "uns" in out:
        return "unsupported"
    if "exc" in ex or "exc" in out:
        if "exc" in ex and "exc" in out:
            return "agree"
        return "differ"
    if "r" not in out:
        return "unsupported" if not out.setdefault("uns", "no result") else "unsupported"
    st = {"op": False}

    def go(a, b):
        if isinstance(a, dict) and isinstance(b, list) and a["shape"] == [] and len(a["e"]) == 1:
            a = a["e"][0]  # a numpy scalar
        if isinstance(a, dict) != isinstance(b, dict):
            return False
        if isinstance(a, dict):
            if a["shape"] != b["shape"] or a["dtype"] != b["dtype"]:
                return False
            return all(go(x, y) for x, y in zip(a["e"], b["e"]))
        if isinstance(a, list) and len(a) == 2 and a and a[0] in ("n", "b", "nan", "opaque") and isinstance(a[1], (str, bool)):
            if not isinstance(b, list) or not b:
                return False
            if b[0] == "opaque" or a[0] == "nan":
                st["op"] = True
                return True
            va = str(int(a[1])) if a[0] == "b" else a[1]
            vb = str(int(b[1])) if b[0] == "b" else b[1]
            return close(va, vb)
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(go(x, y) for x, y in zip(a, b))
        return a == b
    if not go(ex["r"], out["r"]):
        return "differ"
    return "opaque" if st["op"] else "agree"


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--real"]:
        real(a[1])
    elif a[:1] == ["--sym"]:
        sys.exit(sym(a[1], "-v" in a))
    else:
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "real.json")
            subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real", f], check=True)
            sys.exit(sym(f, "-v" in a))
