"""random bases and exponents: tensors (float32, float64, int64, uint8) of rank 0-3 under broadcasting and Python numbers, with zeros, negatives, integral and fractional exponents mixed, against Python's float power element by element; inputs compared before and after"""
import math
from util import *
from torchimage.misc.power import safe_power

KINDS = ["f64", "f32", "i64", "u8", "float", "int"]
DT = {"f64": torch.float64, "f32": torch.float32, "i64": torch.int64, "u8": torch.uint8}


def rand(r):
    while True:
        xk, ek = r.choice(KINDS), r.choice(KINDS)
        if xk in DT or ek in DT:
            break
    n = r.randint(0, 3)
    full = [r.randint(1, 3) for _ in range(n)]
    sh = lambda: [1 if r.random() < .25 else s for s in full][r.randint(0, n):] if n else []
    return {"xk": xk, "ek": ek, "xs": sh() if xk in DT else [], "es": sh() if ek in DT else [], "eps": r.choice([1e-6, 0.0, .25]), "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def values(r, kind, n, base, inte):
    out = []
    for _ in range(n):
        if kind in ("float", "f64", "f32"):
            v = r.choice([0.0, 0.0, -1.0, 1.0, r.uniform(-3, 3), r.uniform(-3, 0), r.choice([.5, .25, 1.5, 2.0, 3.0])]) if base else r.choice([.5, 1.5, 2.0, 0.0, 1.0, 3.0, 2.25, .1, -.5, -1.5, -2.0])
        elif kind == "u8":
            v = r.randint(0, 3)
        else:
            v = r.randint(-3, 3) if base or not inte else r.randint(0, 3)
        out.append(v)
    return out


def operand(kind, shape, vals):
    if kind in DT:
        return torch.tensor(vals, dtype=torch.float64).reshape(shape).to(DT[kind])
    return type(1.0)(vals[0]) if kind == "float" else int(vals[0])


def run(c):
    r = rng(c["seed"])
    cnt = lambda s: int(np.prod(s)) if s else 1
    inte = not any(k in ("f64", "f32", "float") for k in (c["xk"], c["ek"]))
    xs, es = values(r, c["xk"], cnt(c["xs"]), True, inte), values(r, c["ek"], cnt(c["es"]), False, inte)
    if c["ek"] in ("f64", "f32") and r.random() < .3:     # exponents that are all integral
        es = [float(round(v)) for v in es]
    x, p = operand(c["xk"], c["xs"], xs), operand(c["ek"], c["es"], es)
    x0, p0 = (t.clone() if torch.is_tensor(t) else t for t in (x, p))
    y = safe_power(x, p, epsilon=c["eps"])
    for a, b, n in ((x, x0, "base"), (p, p0, "exponent")):
        if torch.is_tensor(a) and not torch.equal(a, b):
            return f"safe_power modified its {n}"
    A = np.asarray(x.double() if torch.is_tensor(x) else float(x))
    B = np.asarray(p.double() if torch.is_tensor(p) else float(p))
    dt = torch.result_type(x, p)
    if dt == torch.float32:
        B, A = B.astype(np.float32).astype(float), A.astype(np.float32).astype(float)
    sh = np.broadcast_shapes(A.shape, B.shape)
    if tuple(y.shape) != sh:
        return f"result of shape {tuple(y.shape)}, expected {sh}"
    A, B = np.broadcast_to(A, sh), np.broadcast_to(B, sh)
    for i in np.ndindex(*sh):
        a, b = float(A[i]), float(B[i])
        if b == math.floor(b) or a > 0:
            want = (math.inf if b < 0 else a ** b) if a == 0 else a ** b
            if a == 0 and b < 0 and b % 2 == 1 and math.copysign(1, a) < 0:
                want = -math.inf
        elif a == 0:
            want = c["eps"] ** b if c["eps"] > 0 else (math.inf if b < 0 else 0.0)
        else:
            want = -(abs(a) ** b)
        if y.dtype == torch.uint8:
            want = want % 256
        got = float(y[i])
        tol = 1e-9 if dt == torch.float64 else 2e-5
        if got != want and not abs(got - want) <= tol * (1 + abs(want)):
            return f"{a}^{b} (epsilon {c['eps']}, {c['xk']}^{c['ek']}): {got} instead of {want}"
    return None
