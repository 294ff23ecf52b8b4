"""Neighborhood attention = quadrature-weighted softmax over the geodesic disk; value and all gradients."""
import itertools
import math

import numpy as np
import torch
import torch.nn.functional as F

import extras
import ref
import ref_disco as rd
from checks.c08 import layout

RULE = (
    "one state per (geometry: self/down/up-sampling, grids, cutoff) x (heads, channels, qk-norm, bias, scale) x query/key/value aliasing pattern x score regime "
    "x execution path x gradient subset; output and every requested gradient are compared with a dense masked softmax in double precision; "
    "longitude counts around the kernels' block size, memory layouts of every input, inputs sharing a buffer, wide layers and large grids are included"
)
ASSUMPTIONS = [
    "neighbourhoods whose boundary passes within 1e-8 of a grid point and output points with an empty or zero-weight neighbourhood are outside the claim",
    "CPU kernels: float32 (float64 on the reference path)",
]
G4 = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
SELF = [((3, 4), (3, 4)), ((4, 6), (4, 6)), ((5, 8), (5, 8)), ((3, 1), (3, 1))]
DOWN = [((5, 8), (3, 4)), ((4, 6), (4, 2)), ((5, 9), (3, 3)), ((4, 8), (6, 8)), ((4, 5), (3, 1)), ((6, 4), (3, 4)), ((3, 8), (5, 2))]
UP = [((3, 4), (5, 8)), ((3, 3), (4, 6)), ((3, 2), (4, 8)), ((4, 1), (4, 5)), ((5, 2), (3, 6))]
BLOCK = [63, 64, 65, 128, 129]
# heads, in, k, out
CH = [(1, 1, 1, 1), (1, 4, 4, 4), (2, 3, 4, 2), (4, 4, 4, 8), (3, 2, 6, 3), (2, 5, 2, 6)]
WIDE = [((1, 17, 17, 17), 2), ((8, 16, 16, 8), 3), ((2, 33, 66, 34), 1), ((1, 130, 64, 65), 1), ((16, 3, 16, 32), 2), ((1, 2, 2, 3), 37)]
LAYOUTS = ["channels_last", "transposed", "strided", "expanded", "offset"]
REG = ["normal", "zero", "huge", "negative"]
ALIAS = ["q", "q,k,k", "q,k,v", "q,q,v", "q,k,q", "q,k"]


def cases(tier):
    q = tier == "quick"
    out = []
    for i, o in SELF + DOWN + UP:
        for gi, go in itertools.product(G4, G4):
            if gi == go or not q or G4.index(gi) + G4.index(go) in (1, 3):
                out += [{"p": "geo", "i": list(i), "o": list(o), "gi": gi, "go": go, "path": p} for p in ("optimized", "torch")]
    for (i, o), ch, path in itertools.product([SELF[1], SELF[2], DOWN[0], DOWN[2], UP[0], UP[2]], CH, ("optimized", "torch")):
        for qkn in (False, True):
            out.append({"p": "chan", "i": list(i), "o": list(o), "ch": list(ch), "qkn": qkn, "path": path})
    for n in BLOCK if q else BLOCK + [62, 127, 192, 193, 256, 257]:
        for i, o in (((3, n), (2, n)), ((2, 2 * n), (3, n)), ((3, n), (2, 2 * n)), ((2, 3 * n), (2, n)), ((2, n), (2, 3 * n))):
            out.append({"p": "block", "i": list(i), "o": list(o), "path": "optimized"})
    for (i, o), path in itertools.product([SELF[1], DOWN[0], UP[0], ((4, 4), (4, 4))], ("optimized", "torch")):
        out.append({"p": "layout", "i": list(i), "o": list(o), "path": path})
        for ch, b in WIDE:
            out.append({"p": "wide", "i": list(i), "o": list(o), "path": path, "ch": list(ch), "b": b})
    for (i, o), g, path in itertools.product([((24, 36), (24, 36)), ((33, 32), (20, 16)), ((13, 18), (34, 36))], G4[:2], ("optimized", "torch")):
        out.append({"p": "large", "i": list(i), "o": list(o), "g": g, "path": path})
    return out


def neighbours(i, o, gi, go, cut):
    """mask[ho, wo, hi, wi]"""
    if i[1] % o[1] == 0:
        _, ok, mem = rd.psi_dense(i, o, gi, go, "zernike", 1, cut, "none", False)
        m = mem[0]  # ho, hi, wi at wo=0
        ps = i[1] // o[1]
        full = np.stack([np.roll(m, w * ps, -1) for w in range(o[1])], 1)
    else:
        _, ok, mem = rd.psi_dense(o, i, go, gi, "zernike", 1, cut, "none", True)
        m = mem[0]  # hi, ho, wo at wi=0
        ps = o[1] // i[1]
        full = np.stack([np.roll(m, w * ps, -1) for w in range(i[1])], 1)  # hi, wi, ho, wo
        full = full.transpose(2, 3, 0, 1)
    return full, ok


def dense(m, q, k, v, mask, wq, heads, scale):
    """double precision reference with autograd; parameters taken from dict m"""
    def lin(x, w, b):
        y = torch.einsum("oi,bihw->bohw", w.reshape(w.shape[0], -1), x)
        return y if b is None else y + b.reshape(1, -1, 1, 1)

    Q, K_, V = lin(q, m["q_weights"], m.get("q_bias")), lin(k, m["k_weights"], m.get("k_bias")), lin(v, m["v_weights"], m.get("v_bias"))
    B = Q.shape[0]
    Q = Q.reshape(B, heads, -1, Q.shape[-2] * Q.shape[-1])
    K_ = K_.reshape(B, heads, -1, K_.shape[-2] * K_.shape[-1])
    sh = V.shape
    V = V.reshape(B, heads, -1, V.shape[-2] * V.shape[-1])
    if "q_norm_weights" in m:
        eps = torch.finfo(torch.float32).eps if m["_f32"] else torch.finfo(torch.float64).eps
        Q = Q * torch.rsqrt(Q.pow(2).mean(2, keepdim=True) + eps) * (1 + m["q_norm_weights"]).reshape(1, 1, -1, 1)
        K_ = K_ * torch.rsqrt(K_.pow(2).mean(2, keepdim=True) + eps) * (1 + m["k_norm_weights"]).reshape(1, 1, -1, 1)
    s = torch.einsum("bhcp,bhcq->bhpq", Q * scale, K_)
    M = torch.as_tensor(mask.reshape(mask.shape[0] * mask.shape[1], -1).copy())
    lw = torch.as_tensor(np.repeat(np.where(wq > 0, np.log(np.maximum(wq, 1e-300)), -np.inf), mask.shape[-1]))
    s = s.masked_fill(~M, -math.inf) + lw
    a = torch.softmax(s, -1)
    y = torch.einsum("bhpq,bhcq->bhcp", a, V).reshape(B, -1, mask.shape[0], mask.shape[1])
    return lin(y, m["proj_weights"], m.get("proj_bias"))


def params(mod, names):
    d = {n: p.detach().double().clone().requires_grad_(True) for n, p in mod.named_parameters()}
    d["_f32"] = mod.q_weights.dtype == torch.float32
    return d


def one(R, c, i, o, gi, go, cut, ch, path, alias="q,k,v", qkn=False, bias=True, scale=None, regime="normal", B=2, dtype="float32", sub="all", tag="", lay=None, share=False):
    import torch_harmonics as th

    heads, cin, kch, och = ch
    mask, ok = neighbours(i, o, gi, go, cut)
    ti, w = ref.colatitudes(i[0], gi)
    wq = 2 * math.pi * w / i[1]
    wq = np.where(np.abs(wq) < 1e-14, 0, wq)
    tot = (mask * wq[None, None, :, None]).sum((2, 3))
    if not ok:
        R.note("skipped-boundary")
        return
    if (tot <= 0).any():
        R.note("skipped-empty-neighbourhood")
        return
    dt = getattr(torch, dtype)
    up = i[1] % o[1] != 0
    default = math.pi / ((i[0] if up else o[0]) - 1)
    torch.manual_seed(1)
    m = th.NeighborhoodAttentionS2(
        cin, i, o, grid_in=gi, grid_out=go, num_heads=heads, scale=scale, use_qknorm=qkn, bias=bias, theta_cutoff=None if abs(cut - default) < 1e-15 else cut, k_channels=kch, out_channels=och,
        optimized_kernel=path != "torch",
    ).to(dt)
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(torch.as_tensor(ref.pattern(*p.shape, k=j)) * (0.3 if "norm" in n else 1.0))
        if regime in ("huge", "zero"):
            # regimes acting on the scores
            f = {"huge": 25.0, "zero": 0.0}[regime]
            m.q_weights.mul_(f)
            if bias:
                m.q_bias.mul_(f)
    # pattern index chosen so that the fields are all different
    qx = torch.as_tensor(ref.pattern(B, cin, *o, k=1)).to(dt)
    kx = torch.as_tensor(ref.pattern(B, cin, *i, k=2)).to(dt)
    vx = torch.as_tensor(ref.pattern(B, cin, *i, k=3)).to(dt)
    if regime == "negative":
        # all scores far below zero
        with torch.no_grad():
            m.q_weights.zero_()
            m.k_weights.mul_(0.01)
            if not bias:
                return
            m.q_bias.fill_(10.0)
            m.k_bias.fill_(-30.0 / math.sqrt(max(1, kch // heads)))
    sc = scale if scale is not None else 1.0 / math.sqrt(kch // heads)
    needs = {"all": {"q", "k", "v", "p"}, "q": {"q"}, "k": {"k"}, "v": {"v"}, "p": {"p"}, "none": set()}[sub]
    if "q" in alias and i == o and alias in ("q", "q,q,v", "q,k,q", "q,k"):
        pass
    elif alias in ("q", "q,q,v", "q,k,q", "q,k"):
        return  # aliasing query needs equal grids
    if lay:
        qx, kx, vx = [layout(t, l) for t, l in zip((qx, kx, vx), lay)]
    if share:
        # key and value are two views of one buffer
        buf = torch.as_tensor(ref.pattern(B, B, *i, k=2)).to(dt)
        kx, vx = buf, buf.transpose(0, 1) if share == "swap" else buf.flip(0)
        if share == "slice":
            big = torch.as_tensor(ref.pattern(B + 1, cin, *i, k=2)).to(dt)
            kx, vx = big[:-1], big[1:]
    leaf = {n: (t.detach() if lay or share else t.clone()).requires_grad_(n in needs) for n, t in (("q", qx), ("k", kx), ("v", vx))}
    qx, kx, vx = [t.detach().clone() for t in (qx, kx, vx)]
    rleaf = {n: t.double().clone().requires_grad_(n in needs) for n, t in (("q", qx), ("k", kx), ("v", vx))}
    names = alias.split(",")
    args = [leaf[n] for n in names]
    rargs = [rleaf[n] for n in names]
    rq = rargs[0]
    rk = rargs[1] if len(rargs) > 1 else rq
    rv = rargs[2] if len(rargs) > 2 else rq
    for p in m.parameters():
        p.requires_grad_("p" in needs)
    pd = params(m, None)
    if "p" not in needs:
        for n in pd:
            if n != "_f32":
                pd[n].requires_grad_(False)
    y = m(*args)
    want = dense(pd, rq, rk, rv, mask, wq, heads, float(sc))
    R.step()
    R.state(tag, alias, qkn, bias, str(scale), regime, B, dtype, sub, path, lay, share, str(i), str(o), gi, go, round(cut, 6), str(ch))
    tol = 1e-8 if (dtype == "float64" and not qkn) else (3e-5 if regime in ("normal", "zero") else 1e-3)
    if dtype == "float64":
        tol = max(tol, 1e-5)  # quadrature weights are stored in float32
    lab = f"{tag}-{path}"
    R.close(y, want, tol * max(1.0, float(want.abs().max())), 0, f"forward-{lab}")
    for n, t in (("q", qx), ("k", kx), ("v", vx)):
        if n in names:
            R.check(torch.equal(leaf[n].detach(), t), "input-modified", n)
    if tag == "chan" and sub == "all" and alias == "q,k,v" and regime == "normal" and dtype == "float32":
        # mixed precision, and the shapes promised to torch.compile
        order = [n for n, _ in m.named_parameters()]
        wl = [rleaf["q"], rleaf["k"], rleaf["v"]] + [pd[n] for n in order]
        if not qkn:  # the norm of a rounded, nearly vanishing vector is ill-conditioned
            extras.autocast(R, m, args, want.detach(), lambda ct: torch.autograd.grad(want, wl, ct, retain_graph=True), lab, tol=6e-2)
        if path != "torch":
            extras.abstract(R, m, args, lab)
        if not qkn:
            extras.second(R, m, args, lambda a, q: dense(dict(zip(order, q), _f32=True), *a, mask, wq, heads, float(sc)), lab, 1e-3)
        m.zero_grad(set_to_none=True)
    if not needs & (set(names) | {"p"}):
        R.check(not y.requires_grad, "requires-grad")
        return
    ct = torch.as_tensor(ref.pattern(*want.shape, k=5)).to(dt)
    y.backward(layout(ct, lay[0]) if lay and lay[0] != "expanded" else ct)
    want.backward(ct.double())
    R.step()
    gt = tol * (2 if regime == "normal" else 10) * (30 if qkn else 1)  # rms-norm gradients are ill-conditioned
    for n in set(names):
        if n in needs:
            R.close(leaf[n].grad, rleaf[n].grad, gt * max(1.0, float(rleaf[n].grad.abs().max())), 0, f"grad-{n}-{lab}")
        else:
            R.check(leaf[n].grad is None, "grad-unwanted", n)
    if "p" in needs:
        mx = max(1.0, max(float(pd[n].grad.abs().max()) for n in pd if n != "_f32" and pd[n].grad is not None))
        for n, p in m.named_parameters():
            R.close(p.grad, pd[n].grad, gt * mx, 0, f"grad-param-{lab}")


def run_case(c, R):
    i, o = tuple(c["i"]), tuple(c["o"])
    up = i[1] % o[1] != 0
    base = math.pi / ((i[0] if up else o[0]) - 1)
    path = c["path"]
    if c["p"] == "geo":
        for cf in (1.0, 0.62, 1.37, 2.3, "all"):
            cut = 3.3 if cf == "all" else base * cf
            for dt in ("float32", "float64") if path == "torch" else ("float32",):
                one(R, c, i, o, c["gi"], c["go"], cut, (2, 3, 4, 2), path, dtype=dt, tag="geo")
                if path == "optimized":
                    one(R, c, i, o, c["gi"], c["go"], cut, (1, 2, 2, 2), path, alias="q", dtype=dt, tag="geo", B=1)
    elif c["p"] == "chan":
        ch = tuple(c["ch"])
        quick_torch = path == "torch"
        for g, (regime, sub, alias, bias) in itertools.product(("legendre-gauss",), itertools.product(REG, ("all", "q", "k", "v", "p", "none"), ALIAS, (True, False))):
            if sub != "all" and (regime != "normal" or not bias):
                continue
            if quick_torch and (sub in ("q", "k", "v", "p", "none")) and alias != "q,k,v":
                continue
            if quick_torch and alias in ("q,k", "q,k,q") and regime != "normal":
                continue
            if regime != "normal" and c["qkn"] and regime == "zero":
                continue  # rms-norm of a zero vector: value fixed by eps only
            one(R, c, i, o, g, g, base * 1.37, ch, path, alias=alias, qkn=c["qkn"], bias=bias, regime=regime, sub=sub, tag="chan" if regime == "normal" else regime)
        for scale in (0.3, torch.tensor(0.7), 0.0):
            one(R, c, i, o, "legendre-gauss", "legendre-gauss", base * 1.37, ch, path, qkn=c["qkn"], scale=scale, tag="scale")
    elif c["p"] == "layout":
        for a, b in itertools.product(LAYOUTS, LAYOUTS):
            for d in LAYOUTS if a == "channels_last" else [b]:
                one(R, c, i, o, "legendre-gauss", "legendre-gauss", base * 1.37, (2, 3, 4, 2), path, lay=(a, b, d), tag="layout", B=2 if a != b else 3)
                if i == o:
                    one(R, c, i, o, "legendre-gauss", "legendre-gauss", base * 1.37, (1, 2, 2, 2), path, alias="q", lay=(a, b, d), tag="layout")
        for share in ("swap", "flip", "slice"):
            one(R, c, i, o, "legendre-gauss", "legendre-gauss", base * 1.37, (2, 3, 4, 2), path, share=share, tag="shared-buffer", B=3)
    elif c["p"] == "wide":
        for alias in ("q,k,v", "q"):
            one(R, c, i, o, "legendre-gauss", "legendre-gauss", base * 1.37, tuple(c["ch"]), path, alias=alias, tag="wide", B=c["b"], scale=0.05)
    elif c["p"] == "large":
        for cf in (1.37, 2.3):
            one(R, c, i, o, c["g"], c["g"], base * cf, (2, 3, 4, 2), path, tag="large")
    else:
        for cf in (0.03, 0.3):
            lon = 2 * math.pi / max(i[1], o[1])
            for ch in ((1, 1, 1, 1), (2, 2, 2, 4)):
                one(R, c, i, o, "legendre-gauss", "legendre-gauss", 1.9 + cf, ch, path, B=1, tag="block")
