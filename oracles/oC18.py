"""random channel counts, odd kernels 3-9, batched and unbatched inputs, all alignments in random case, with and without bias, several calls of one layer with different alignments and shapes; against an explicit double loop over sites (numpy)"""
from util import *
import torch.nn.functional as F
from torchimage.cfa import BayerConv2d, BayerConv2dUnshuffle

ALIGN = ("GBRG", "GRBG", "BGGR", "RGGB")


def rand(r):
    half = r.choice([1, 1, 1, 2, 2, 3, 4])
    return {"n": [r.randint(1, 3)] if r.random() < .7 else [], "ci": r.randint(1, 3), "co": r.randint(1, 3), "k": 2 * half + 1, "h": r.randint(half // 2 + 1, 5 + half // 2), "w": r.randint(half // 2 + 1, 5 + half // 2), "bias": r.random() < .5,
            "sa": "".join(c if r.random() < .7 else c.lower() for c in r.choice(ALIGN)), "cls": r.choice(["BayerConv2d", "BayerConv2dUnshuffle"]), "un": r.random() < .5, "seed": r.randint(0, 10**6)}


def cases(tier, seed, k, n):
    yield from endless(seed, k, rand)


def want(x, layer, k, sa):
    """x: (n, ci, H, W) numpy"""
    p = k // 2
    z = np.pad(x, [(0, 0), (0, 0), (p, p), (p, p)], mode="reflect")
    n, ci, H, W = x.shape
    s = sa.upper()
    out = None
    for r in (0, 1):
        for c in (0, 1):
            t = s[2 * r + c]
            name = t if t != "G" else "G" + s[2 * r + 1 - c]
            conv = layer.conv_dict[name]
            w = conv.weight.detach().double().numpy()
            b = conv.bias.detach().double().numpy() if conv.bias is not None else np.zeros(w.shape[0])
            if out is None:
                out = np.zeros((n, w.shape[0], H, W))
            for u in range(k):
                for v in range(k):
                    out[:, :, r::2, c::2] += np.einsum("ncij,oc->noij", z[:, :, u + r:u + H:2, v + c:v + W:2], w[:, :, u, v])
            out[:, :, r::2, c::2] += b[None, :, None, None]
    return out


def run(c):
    if c.get("bad"):
        for cls in (BayerConv2d, BayerConv2dUnshuffle):
            o = cls(1, 1, 3, False)
            for s in ("RGBG", "RGG", "", 3, None):
                for f in (o.forward, o.forward_unshuffle):
                    try:
                        f(torch.rand(1, 1, 4, 4), s)
                    except AssertionError:
                        continue
                    return f"{cls.__name__}: alignment {s!r} accepted"
        return None
    torch.manual_seed(c["seed"])
    un = c["un"] or c["cls"] == "BayerConv2dUnshuffle"
    layer = {"BayerConv2d": BayerConv2d, "BayerConv2dUnshuffle": BayerConv2dUnshuffle}[c["cls"]](c["ci"], c["co"], c["k"], c["bias"])
    for nm in ("R", "B", "GR", "GB"):
        conv = layer.conv_dict[nm]
        if (conv.bias is not None) != c["bias"] or tuple(conv.weight.shape) != (c["co"], c["ci"], c["k"], c["k"]):
            return f"{nm}: bias {conv.bias is not None}, weights {tuple(conv.weight.shape)}"
    lead = c["n"] or ([1] if un else [])
    other = ALIGN[(ALIGN.index(c["sa"].upper()) + 1) % 4]
    for sa, extra in ((c["sa"], 0), (other, 0), (c["sa"], 2), (c["sa"], 0)):
        x = tensor(c["seed"] + extra, lead + [c["ci"], 2 * c["h"] + extra, 2 * c["w"]]).float()
        kx = x.clone()
        kw = {k: v.clone() for k, v in layer.state_dict().items()}
        f = layer.forward_unshuffle if un and c["cls"] == "BayerConv2d" else layer.forward
        y = f(x, sa)
        X = kx.double().numpy()
        w = want(X if lead else X[None], layer, c["k"], sa)
        w = w if lead else w[0]
        if un:
            w = F.pixel_unshuffle(torch.from_numpy(w), 2).numpy()
        if y.dtype != x.dtype:
            return f"dtype {y.dtype}"
        if not close(y.double(), w, 1e-4):
            return f"alignment {sa}: " + diff(y.double(), w)
        if not torch.equal(x, kx) or any(not torch.equal(kw[k], v) for k, v in layer.state_dict().items()):
            return "input or weights modified"
    return None
