"""Every DISCO convolution path computes the same grouped layer: value, gradients, layouts, dtypes."""
import itertools
import math

import numpy as np
import torch

import extras
import ref
import ref_disco as rd

RULE = (
    "one state per (shape pair incl. longitude ratio 1..6, grid, basis, cutoff) x (groups, in/out channels, bias) x execution path "
    "(reference, optimized, optimized with saved activation, fused) x dtype x memory layout x subset of {x, weight, bias} requiring gradients; "
    "on each, value and all requested gradients of the real layer are compared with the dense grouped operator"
)
ASSUMPTIONS = ["CPU kernels; CUDA and K-packed Hopper paths cannot run here", "tolerances: 2e-6 relative (float32/64: psi is compared with an independent construction), 4e-2 (bfloat16)"]
GR = ["equiangular", "legendre-gauss"]
# (in, out, grid, basis, kernel shape, cutoff factor, norm)
GEO = [
    ((3, 4), (3, 4), "equiangular", "piecewise linear", 1, None),
    ((4, 6), (3, 3), "legendre-gauss", "piecewise linear", 3, None),
    ((5, 8), (5, 8), "legendre-gauss", "piecewise linear", (3, 4), 0.55),
    ((5, 9), (4, 3), "equiangular", "zernike", 2, 1.37),
    ((5, 8), (3, 2), "legendre-gauss", "piecewise linear", (3, 3), 1.37),
    ((4, 10), (3, 2), "legendre-gauss", "harmonic", (2, 2), 1.37),
    ((3, 6), (4, 1), "legendre-gauss", "piecewise linear", (3,), None),
    ((6, 7), (3, 7), "legendre-gauss", "piecewise linear", 2, 0.55),
    ((4, 5), (6, 5), "equiangular", "morlet", (2, 2), 1.37),
    ((5, 8), (3, 4), "equiangular", "fourier-bessel", (2, 1), 1.37),
    ((24, 48), (24, 48), "legendre-gauss", "zernike", 2, 1.37),
    ((33, 40), (20, 20), "legendre-gauss", "piecewise linear", 3, 1.37),
]
NSMALL = 10
# every (channels per group in 1..4, outputs per group in 1..3, groups 1..3), and two shapes past it
CH = [(a * g, b * g, g) for a, b, g in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3))] + [(5, 2, 1), (12, 8, 2)]
LAYOUTS = ["contig", "channels_last", "transposed", "strided", "expanded", "offset"]
PATHS = ["torch", "optimized", "fused"]


def cases(tier):
    q = tier == "quick"
    out = []
    for g, (ci, co, gr), path in itertools.product(range(NSMALL), CH, PATHS):
        for batch in (1, 2) if q else (1, 2, 3, 5):
            out.append({"geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": batch})
    # wide layers, large batches, empty batches, large grids
    for path in PATHS:
        for g, (ci, co, gr) in itertools.product(range(NSMALL), [(2, 3, 1), (4, 2, 2)]):
            out.append({"geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": 0, "big": True})
        for g, (ci, co, gr), b in [(4, (33, 17, 1), 3), (8, (40, 24, 8), 2), (4, (66, 4, 2), 1), (9, (3, 70, 1), 2), (1, (130, 129, 1), 2), (2, (2, 2, 1), 70), (3, (4, 2, 2), 33), (6, (1, 3, 1), 257), (10, (2, 3, 1), 2), (10, (4, 4, 4), 1), (11, (3, 2, 1), 3), (11, (4, 2, 2), 2)]:
            out.append({"geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": b, "big": True})
    return out


def layout(x, kind):
    """same values, different strides"""
    if kind == "contig":
        return x.contiguous()
    if kind == "channels_last":
        return x.contiguous(memory_format=torch.channels_last)
    if kind == "transposed":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if kind == "strided":
        z = torch.full((*x.shape[:-1], 2 * x.shape[-1]), float("nan"), dtype=x.dtype)
        z[..., ::2] = x
        return z[..., ::2]
    if kind == "expanded":
        return x[:1].contiguous().expand_as(x)
    if kind == "offset":
        z = torch.full((x.numel() + 3,), float("nan"), dtype=x.dtype)
        z[3:] = x.reshape(-1)
        return z[3:].reshape(x.shape)
    raise ValueError(kind)


def model(op, x, w, b, groups):
    """dense grouped layer; op (K,ho,wo,hi,wi)"""
    B, C = x.shape[:2]
    O = w.shape[0]
    xe = torch.einsum("kpqhw,bchw->bckpq", op, x)
    xe = xe.reshape(B, groups, C // groups, *xe.shape[2:])
    y = torch.einsum("bgckpq,gock->bgopq", xe, w.reshape(groups, O // groups, C // groups, -1)).reshape(B, O, *xe.shape[-2:])
    return y if b is None else y + b.reshape(1, -1, 1, 1)


def mx(t):
    return max(1.0, float(t.abs().max())) if t.numel() else 1.0


def geo(c):
    i, o, g, bt, ks, cf = GEO[c["geo"]]
    cut = None if cf is None else cf * math.pi / (o[0] - 1)
    return i, o, g, bt, ks, cut


def run_case(c, R):
    import torch_harmonics as th

    i, o, g, bt, ks, cut = geo(c)
    K = rd.kernel_size(bt, ks)
    psi, ok, _ = rd.psi_dense(i, o, g, g, bt, ks, cut or math.pi / (o[0] - 1), "geometric", False)
    assert ok, "geometry table must only hold well-conditioned filters"
    op = torch.as_tensor(rd.conv_operator(psi, o[1]).copy())
    ci, co, gr, B = c["ci"], c["co"], c["gr"], c["b"]
    for bias in (False, True):
        kw = dict(basis_type=bt, basis_norm_mode="geometric", groups=gr, grid_in=g, grid_out=g, bias=bias, theta_cutoff=cut, optimized_kernel=c["path"] != "torch")
        m = th.DiscreteContinuousConvS2(ci, co, i, o, ks, fused=c["path"] == "fused", **kw)
        with torch.no_grad():
            m.weight.copy_(torch.as_tensor(ref.pattern(*m.weight.shape)))
            if bias:
                m.bias.copy_(torch.as_tensor(0.3 + 0.1 * np.arange(co)))
        if B == 2:
            xa = torch.as_tensor(ref.pattern(B, ci, *i)).float()
            wp = [xa.double().requires_grad_()] + [p.detach().double().requires_grad_() for p in (m.weight, *([m.bias] if bias else []))]
            want = model(op, wp[0], wp[1], wp[2] if bias else None, gr)
            # same order as m.parameters()
            order = [0] + [1 + ["weight", "bias"].index(n) for n, _ in m.named_parameters()]
            R.state("autocast", bias, tuple(sorted((k, str(v)) for k, v in c.items())))
            extras.autocast(R, m, [xa], want.detach(), lambda ct: torch.autograd.grad(want, [wp[j] for j in order], ct, retain_graph=True), c["path"])
            if c["path"] != "torch":
                extras.abstract(R, m, [xa], c["path"])
            if not c.get("big"):
                pn = [n for n, _ in m.named_parameters()]
                for dt in (torch.float32, torch.float64):
                    R.state("second", bias, str(dt), tuple(sorted((k, str(v)) for k, v in c.items())))
                    m = m.to(dt)
                    extras.second(R, m, [xa.to(dt)], lambda a, q: model(op, a[0], q[pn.index("weight")], q[pn.index("bias")] if bias else None, gr), c["path"], 1e-4 if dt == torch.float32 else 1e-5)
                m = m.to(torch.float32)
        for dt in ("float32", "float64", "bfloat16"):
            dtype = getattr(torch, dt)
            if dt == "bfloat16" and (B != 2 or c["path"] == "torch" or not bias):
                continue
            mm = m.to(dtype)
            tol = {"float32": 4e-6, "float64": 1.5e-6, "bfloat16": 5e-2}[dt]
            x0 = torch.as_tensor(ref.pattern(B, ci, *i)).to(dtype)
            ct = torch.as_tensor(ref.pattern(B, co, *o)).roll(1, -1).to(dtype)
            names = ["x", "w"] + (["b"] if bias else [])
            subsets = [s for r in range(len(names) + 1) for s in itertools.combinations(names, r)]
            for li, kind in enumerate(LAYOUTS):
                # all gradient subsets in the natural layout, the full one in every other layout
                for sub in subsets if li == 0 else [tuple(names)]:
                    if c.get("big") and (li > 1 or len(sub) != len(names)):
                        continue
                    if dt == "bfloat16" and (li or len(sub) != len(names)):
                        continue
                    xs = layout(x0, kind)
                    xr = xs.double().clone().requires_grad_("x" in sub)
                    keep = xs.clone()
                    xs = xs.detach().requires_grad_("x" in sub)
                    mm.weight.requires_grad_("w" in sub)
                    wr = mm.weight.detach().double().clone().requires_grad_("w" in sub)
                    br = None
                    if bias:
                        mm.bias.requires_grad_("b" in sub)
                        br = mm.bias.detach().double().clone().requires_grad_("b" in sub)
                    mm.zero_grad(set_to_none=True)
                    y = mm(xs)
                    want = model(op, xr, wr, br, gr)
                    R.step()
                    R.state(bias, dt, kind, sub, tuple(sorted((k, str(v)) for k, v in c.items())))
                    tag = f"{c['path']}-{dt}"
                    R.check(y.dtype == dtype, "dtype", f"{y.dtype}")
                    R.close(y, want, tol * mx(want), 0, f"forward-{tag}")
                    R.check(torch.equal(xs.detach(), keep), "input-modified")
                    R.check(y.requires_grad == bool(sub), "requires-grad", f"{sub}")
                    if sub:
                        ct_l = layout(ct, kind) if kind != "expanded" else ct
                        y.backward(ct_l)
                        want.backward(ct_l.double())
                        R.step()
                        for nm, got, wg in (("x", xs.grad, xr.grad), ("w", mm.weight.grad, wr.grad), ("b", mm.bias.grad if bias else None, br.grad if bias else None)):
                            if nm in sub:
                                R.close(got, wg, tol * mx(wg), 0, f"grad-{nm}-{tag}")
                            else:
                                R.check(got is None, "grad-unwanted", nm)
            m = mm
