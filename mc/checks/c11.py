"""Global spherical attention = softmax with quadrature measure over the whole input grid."""
import itertools
import math

import numpy as np
import torch

import extras
import ref
from checks.c08 import layout
from checks.c10 import LAYOUTS, dense

RULE = (
    "one state per (in/out shape, grids) x (heads, channels) x qk-norm x bias x scale kind x aliasing x score regime x dtype x train/eval; "
    "output and all gradients compared with a dense quadrature-weighted softmax"
)
ASSUMPTIONS = ["CPU scaled_dot_product_attention of torch is trusted", "dropout only checked to be inactive in eval mode and at rate 0"]
GR = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
SH = [((2, 1), (2, 1)), ((3, 4), (3, 4)), ((4, 6), (4, 6)), ((5, 8), (3, 4)), ((4, 6), (6, 2)), ((7, 3), (2, 3)), ((5, 9), (4, 3)), ((9, 2), (2, 1))]
CH = [(1, 1, 1, 1), (1, 4, 4, 4), (2, 3, 4, 2), (4, 4, 4, 8), (3, 2, 6, 3)]
ALIAS = ["q", "q,k,k", "q,k,v", "q,q,v", "q,k,q", "q,k"]


def cases(tier):
    q = tier == "quick"
    sh = SH if q else SH + [((n, 2 * n), (n, 2 * n)) for n in (6, 7, 8, 9, 10)] + [((8, 16), (5, 4))]
    out = []
    for (i, o), gi, ch in itertools.product(sh, GR, CH):
        for qkn in (False, True):
            out.append({"i": list(i), "o": list(o), "gi": gi, "ch": list(ch), "qkn": qkn})
    for (i, o), ch, b in itertools.product([SH[2], SH[3]], [(1, 17, 17, 17), (8, 16, 16, 8), (2, 33, 66, 34), (16, 3, 16, 32), (1, 2, 2, 3)], (1, 5)):
        out.append({"i": list(i), "o": list(o), "gi": GR[1], "ch": list(ch), "qkn": False, "big": True, "b": b})
    for (i, o), gi in itertools.product([((24, 36), (24, 36)), ((33, 32), (20, 16))], GR):
        out.append({"i": list(i), "o": list(o), "gi": gi, "ch": [2, 3, 4, 2], "qkn": False, "big": True, "b": 2})
    for (i, o), lay in itertools.product([SH[1], SH[3], ((4, 4), (4, 4))], itertools.product(LAYOUTS, LAYOUTS)):
        out.append({"i": list(i), "o": list(o), "gi": GR[1], "ch": [2, 3, 4, 2], "qkn": False, "big": True, "b": 2, "lay": [lay[0], lay[1], lay[0]]})
    return out


def run_case(c, R):
    import torch_harmonics as th

    i, o = tuple(c["i"]), tuple(c["o"])
    heads, cin, kch, och = c["ch"]
    _, w = ref.colatitudes(i[0], c["gi"])
    wq = 2 * math.pi * w / i[1]
    wq = np.where(np.abs(wq) < 1e-12, 0, wq)
    if not (wq > 0).any():
        return
    mask = np.ones((*o, *i), bool)
    for go, bias, scale, alias, regime, dtype, mode in itertools.product(
        GR[:2], (True, False), ("none", "float", "tensor", "param"), ALIAS, ("normal", "huge", "negative"), ("float32", "float64"), ("train", "eval")
    ):
        if alias in ("q", "q,q,v", "q,k,q", "q,k") and i != o:
            continue
        if (go != GR[0]) + (not bias) + (scale != "none") + (alias != "q,k,v") + (regime != "normal") + (mode != "train") > 1:
            continue
        if regime == "negative" and not bias:
            continue
        if c.get("big") and (regime != "normal" or scale in ("tensor", "param") or mode != "train" or alias not in ("q", "q,k,v")):
            continue
        R.state(go, bias, scale, alias, regime, dtype, mode, str(sorted(c.items())))
        dt = getattr(torch, dtype)
        f32 = dtype == "float32"
        s = {"none": None, "float": 0.3, "tensor": torch.tensor(0.7, dtype=dt), "param": torch.nn.Parameter(torch.tensor(0.45, dtype=dt))}[scale]
        m = th.AttentionS2(cin, heads, i, o, grid_in=c["gi"], grid_out=go, scale=s, use_qknorm=c["qkn"], bias=bias, k_channels=kch, out_channels=och, drop_rate=0.5 if mode == "eval" else 0.0).to(dt)
        m.train(mode == "train")
        with torch.no_grad():
            for j, (n, p) in enumerate(sorted(m.named_parameters())):
                if n != "scale":
                    p.copy_(torch.as_tensor(ref.pattern(*p.shape, k=j)) * (0.3 if "norm" in n else 1.0))
            if regime == "huge":
                m.q_weights.mul_(25.0)
            if regime == "negative":
                m.q_weights.zero_()
                m.k_weights.mul_(0.01)
                m.q_bias.fill_(10.0)
                m.k_bias.fill_(-30.0)
        fields = {"q": torch.as_tensor(ref.pattern(c.get("b", 2), cin, *o, k=1)).to(dt), "k": torch.as_tensor(ref.pattern(c.get("b", 2), cin, *i, k=2)).to(dt), "v": torch.as_tensor(ref.pattern(c.get("b", 2), cin, *i, k=3)).to(dt)}
        names = alias.split(",")
        if "lay" in c:
            fields = {n: layout(t, l) for (n, t), l in zip(fields.items(), c["lay"])}
        leaf = {n: (fields[n].detach() if "lay" in c else fields[n].clone()).requires_grad_(True) for n in names}
        fields = {n: t.detach().clone() for n, t in fields.items()}
        rleaf = {n: fields[n].double().clone().requires_grad_(True) for n in names}
        rn = names + ["q"] * (3 - len(names))
        pd = {n: p.detach().double().clone().requires_grad_(True) for n, p in m.named_parameters()}
        sc = pd["scale"] if "scale" in pd else (1 / math.sqrt(kch // heads) if s is None else float(s))
        pd["_f32"] = f32
        y = m(*[leaf[n] for n in names])
        want = dense(pd, *[rleaf[n] for n in rn], mask, wq, heads, sc)
        R.step()
        tol = (3e-5 if regime == "normal" else 1e-3) if f32 else 1e-5
        R.close(y, want, tol * max(1.0, float(want.abs().max())), 0, f"forward-{regime}-{dtype}")
        if f32 and regime == "normal" and alias == "q,k,v" and go == GR[0]:
            wl = [rleaf[n] for n in names] + [pd[n] for n, _ in m.named_parameters()]
            if not c["qkn"] and not c.get("big"):  # the norm of a rounded, nearly vanishing vector is ill-conditioned
                extras.autocast(R, m, [leaf[n] for n in names], want.detach(), lambda ct: torch.autograd.grad(want, wl, ct, retain_graph=True), "global", tol=6e-2)
            extras.abstract(R, m, [leaf[n] for n in names], "global")
            if not c["qkn"] and not c.get("big"):
                order = [n for n, _ in m.named_parameters()]
                extras.second(R, m, [leaf[n] for n in names], lambda a, q: dense(dict(zip(order, q), _f32=True), *a, mask, wq, heads, q[order.index("scale")] if "scale" in order else sc), "global", 1e-3)
            m.zero_grad(set_to_none=True)
        ct = torch.as_tensor(ref.pattern(*want.shape, k=5)).to(dt)
        y.backward(layout(ct, c["lay"][0]) if "lay" in c and c["lay"][0] != "expanded" else ct)
        want.backward(ct.double())
        R.step()
        gt = tol * (2 if regime == "normal" else 10) * (30 if c["qkn"] else 1)
        for n in set(names):
            R.check(torch.equal(leaf[n].detach(), fields[n]), "input-modified", n)
            R.close(leaf[n].grad, rleaf[n].grad, gt * max(1.0, float(rleaf[n].grad.abs().max())), 0, f"grad-{n}-{regime}")
        mx = max(1.0, max(float(pd[n].grad.abs().max()) for n in pd if n != "_f32"))
        for n, p in m.named_parameters():
            R.close(p.grad, pd[n].grad, gt * mx, 0, f"grad-param-{regime}")
    if i[1] > 1:
        R.step()
        try:
            th.AttentionS2(cin, heads, i, (o[0], i[1] + 1))
            R.fail("invalid-accepted", "nlon_out does not divide nlon_in")
        except ValueError:
            R.trace()
    if heads > 1:
        for kw in ({"k_channels": kch + 1}, {"out_channels": och + 1}):
            R.step()
            try:
                th.AttentionS2(cin, heads, i, o, **kw)
                R.fail("invalid-accepted", str(kw))
            except ValueError:
                R.trace()
