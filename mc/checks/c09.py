"""DISCO transpose convolution: scatter form of the documented operator, all modes, paths, gradients."""
import itertools
import math

import numpy as np
import torch

import extras
import ref
import ref_disco as rd
from checks.c08 import layout, mx, LAYOUTS

RULE = (
    "part op: one state per (grids, in/out shape, basis, normalisation, cutoff) layer, whole operator recovered by impulses on both execution paths; "
    "part path: one state per (geometry, groups, channels, bias, path, dtype, layout, gradient subset); value and gradients compared with the dense scatter operator"
)
ASSUMPTIONS = ["CPU kernels", "configurations where a grid point lies on the filter boundary within 1e-8 are skipped and counted"]
GR = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
MODES = ["none", "nodal", "modal", "mean", "support", "geometric", "individual", "area ratio"]
BAS = [("piecewise linear", 1), ("piecewise linear", 3), ("piecewise linear", (3, 4)), ("harmonic", (2, 2)), ("morlet", (2, 3)), ("zernike", 3), ("fourier-bessel", (2, 2))]
# forward-operator shapes: (fine, coarse)
SHAPES = [((3, 4), (3, 4)), ((4, 6), (3, 3)), ((5, 8), (3, 4)), ((6, 9), (4, 3)), ((4, 8), (7, 8)), ((5, 12), (4, 3)), ((4, 5), (5, 1))]
GEO = [
    ((3, 4), (3, 4), "equiangular", "piecewise linear", 1, None),
    ((4, 6), (3, 3), "legendre-gauss", "piecewise linear", 3, None),
    ((5, 8), (5, 8), "legendre-gauss", "piecewise linear", (3, 4), 0.55),
    ((5, 9), (4, 3), "equiangular", "zernike", 2, 1.37),
    ((5, 8), (3, 2), "legendre-gauss", "piecewise linear", (3, 3), 1.37),
    ((4, 10), (3, 2), "legendre-gauss", "harmonic", (2, 2), 1.37),
    ((3, 6), (4, 1), "legendre-gauss", "piecewise linear", (3,), None),
    ((6, 7), (3, 7), "legendre-gauss", "piecewise linear", 2, 0.55),
    ((4, 5), (6, 5), "equiangular", "morlet", (2, 2), 1.37),
    ((24, 48), (24, 48), "legendre-gauss", "zernike", 2, 1.37),
    ((33, 40), (20, 20), "legendre-gauss", "piecewise linear", 3, 1.37),
]
NSMALL = 9
# every (channels per group in 1..3, outputs per group in 1..3, groups 1..3), and shapes past it
CH = [(a * g, b * g, g) for a, b, g in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))] + [(4, 1, 1), (5, 2, 1), (8, 6, 2), (3, 8, 1)]


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = SHAPES if q else SHAPES + [((7, 14), (7, 14)), ((8, 16), (4, 8)), ((9, 12), (5, 12)), ((9, 15), (6, 5))]
    for (f, co), gf, gc, (b, k) in itertools.product(shapes, GR, GR, BAS):
        if q and gf != gc and gf in GR[2:] and gc in GR[2:]:
            continue
        out.append({"part": "op", "f": list(f), "c": list(co), "gf": gf, "gc": gc, "b": b, "ks": k if isinstance(k, int) else list(k)})
    for g, (ci, co, gr), path, b in itertools.product(range(NSMALL), CH, ("torch", "optimized"), (1, 2) if q else (1, 2, 3, 5)):
        out.append({"part": "path", "geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": b})
    # wide layers, large batches, empty batches, large grids
    for path in ("torch", "optimized"):
        for g, (ci, co, gr) in itertools.product(range(NSMALL), [(2, 3, 1), (4, 2, 2)]):
            out.append({"part": "path", "geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": 0, "big": True})
        for g, (ci, co, gr), b in [(4, (33, 17, 1), 3), (8, (40, 24, 8), 2), (4, (66, 4, 2), 1), (0, (3, 70, 1), 2), (1, (130, 129, 1), 2), (2, (2, 2, 1), 70), (3, (4, 2, 2), 33), (6, (1, 3, 1), 257), (9, (2, 3, 1), 2), (9, (4, 4, 4), 1), (10, (3, 2, 1), 3), (10, (4, 2, 2), 2)]:
            out.append({"part": "path", "geo": g, "ci": ci, "co": co, "gr": gr, "path": path, "b": b, "big": True})
    for (f, co), (b, k), g in itertools.product([((20, 40), (20, 40)), ((33, 36), (18, 18))], [("piecewise linear", 3), ("zernike", 2)], GR[:2]):
        out.append({"part": "op", "f": list(f), "c": list(co), "gf": g, "gc": g, "b": b, "ks": k if isinstance(k, int) else list(k), "big": True})
    return out


def model(op, x, w, b, groups):
    B, C = x.shape[:2]
    O = w.shape[0]
    xg = x.reshape(B, groups, C // groups, *x.shape[2:])
    z = torch.einsum("bgcpq,gock->bgokpq", xg, w.reshape(groups, O // groups, C // groups, -1))
    y = torch.einsum("bgokpq,kpqhw->bgohw", z, op).reshape(B, O, *op.shape[-2:])
    return y if b is None else y + b.reshape(1, -1, 1, 1)


def run_case(c, R):
    (op_part if c["part"] == "op" else path_part)(c, R)


def op_part(c, R):
    import torch_harmonics as th

    f, co = tuple(c["f"]), tuple(c["c"])
    b, ks = c["b"], c["ks"]
    ks = ks if isinstance(ks, int) else tuple(ks)
    K = rd.kernel_size(b, ks)
    base = math.pi / (co[0] - 1)
    n = co[0] * co[1]
    x = torch.eye(n, dtype=torch.float64).reshape(n, 1, *co)
    for mode, cf in itertools.product(MODES, (None, 0.55, 1.37, 2.2)):
        if mode in ("individual", "area ratio") and cf is not None:
            continue
        if c.get("big") and (mode, cf) not in (("nodal", 1.37), ("none", 0.55)):
            continue
        cut = base if cf is None else base * cf
        if cut >= math.pi:
            continue
        psi, ok, _ = rd.psi_dense(f, co, c["gf"], c["gc"], b, ks, cut, mode, True)
        if not ok:
            R.note("skipped-ill-conditioned")
            continue
        op = torch.as_tensor(rd.conv_operator(psi, co[1]).copy())
        want = op.permute(1, 2, 0, 3, 4).reshape(n, K, *f)
        tol = 2e-6 * max(1.0, float(want.abs().max()))
        for optk in (True, False):
            R.state(mode, cf, optk, tuple(sorted((k, str(v)) for k, v in c.items())))
            m = th.DiscreteContinuousConvTransposeS2(
                1, K, co, f, ks, basis_type=b, basis_norm_mode=mode, grid_in=c["gc"], grid_out=c["gf"], bias=False, theta_cutoff=None if cf is None else cut, optimized_kernel=optk
            ).double()
            with torch.no_grad():
                m.weight.copy_(torch.eye(K, dtype=torch.float64).reshape(K, 1, K))
                y = m(x)
            R.step()
            R.close(y, want, tol, 0, f"operator-{mode}-{'optimized' if optk else 'torch'}")
    for bad in ({"f": (f[0], co[1] * 2 + 1)}, {"cut": 0.0}, {"cut": -1.0}, {"mode": "no-such-mode"}):
        kw = dict(f=f, cut=base, mode="nodal")
        kw.update(bad)
        if kw["f"][1] % co[1] == 0 and "f" in bad:
            continue
        R.step()
        try:
            th.DiscreteContinuousConvTransposeS2(1, 1, co, kw["f"], 3, theta_cutoff=kw["cut"], basis_norm_mode=kw["mode"])
            R.fail("invalid-accepted", str(bad))
        except ValueError:
            R.trace()


def path_part(c, R):
    import torch_harmonics as th

    f, o, g, bt, ks, cf = GEO[c["geo"]]
    cut = (cf or 1.0) * math.pi / (o[0] - 1)
    psi, ok, _ = rd.psi_dense(f, o, g, g, bt, ks, cut, "geometric", True)
    assert ok
    op = torch.as_tensor(rd.conv_operator(psi, o[1]).copy())
    ci, co, gr, B = c["ci"], c["co"], c["gr"], c["b"]
    for bias in (False, True):
        m = th.DiscreteContinuousConvTransposeS2(
            ci, co, o, f, ks, basis_type=bt, basis_norm_mode="geometric", groups=gr, grid_in=g, grid_out=g, bias=bias, theta_cutoff=None if cf is None else cut, optimized_kernel=c["path"] != "torch"
        )
        with torch.no_grad():
            m.weight.copy_(torch.as_tensor(ref.pattern(*m.weight.shape)))
            if bias:
                m.bias.copy_(torch.as_tensor(0.3 + 0.1 * np.arange(co)))
        if B == 2:
            xa = torch.as_tensor(ref.pattern(B, ci, *o)).float()
            wp = [xa.double().requires_grad_()] + [p.detach().double().requires_grad_() for p in (m.weight, *([m.bias] if bias else []))]
            want = model(op, wp[0], wp[1], wp[2] if bias else None, gr)
            # same order as m.parameters()
            order = [0] + [1 + ["weight", "bias"].index(n) for n, _ in m.named_parameters()]
            R.state("autocast", bias, tuple(sorted((k, str(v)) for k, v in c.items())))
            extras.autocast(R, m, [xa], want.detach(), lambda ct: torch.autograd.grad(want, [wp[j] for j in order], ct, retain_graph=True), c["path"])
            if c["path"] != "torch":
                extras.abstract(R, m, [xa], c["path"])
            if not c.get("big"):
                pn = [n for n, _ in m.named_parameters()]
                for dt in (torch.float32, torch.float64):
                    R.state("second", bias, str(dt), tuple(sorted((k, str(v)) for k, v in c.items())))
                    m = m.to(dt)
                    extras.second(R, m, [xa.to(dt)], lambda a, q: model(op, a[0], q[pn.index("weight")], q[pn.index("bias")] if bias else None, gr), c["path"], 1e-4 if dt == torch.float32 else 1e-5)
                m = m.to(torch.float32)
        for dt in ("float32", "float64", "bfloat16"):
            dtype = getattr(torch, dt)
            if dt == "bfloat16" and (B != 2 or c["path"] == "torch" or not bias):
                continue
            m = m.to(dtype)
            tol = {"float32": 4e-6, "float64": 1.5e-6, "bfloat16": 5e-2}[dt]
            x0 = torch.as_tensor(ref.pattern(B, ci, *o)).to(dtype)
            ct = torch.as_tensor(ref.pattern(B, co, *f)).roll(1, -1).to(dtype)
            names = ["x", "w"] + (["b"] if bias else [])
            subsets = [s for r in range(len(names) + 1) for s in itertools.combinations(names, r)]
            for li, kind in enumerate(LAYOUTS):
                for sub in subsets if li == 0 else [tuple(names)]:
                    if c.get("big") and (li > 1 or len(sub) != len(names)):
                        continue
                    if dt == "bfloat16" and (li or len(sub) != len(names)):
                        continue
                    xs = layout(x0, kind)
                    xr = xs.double().clone().requires_grad_("x" in sub)
                    keep = xs.clone()
                    xs = xs.detach().requires_grad_("x" in sub)
                    m.weight.requires_grad_("w" in sub)
                    wr = m.weight.detach().double().clone().requires_grad_("w" in sub)
                    br = None
                    if bias:
                        m.bias.requires_grad_("b" in sub)
                        br = m.bias.detach().double().clone().requires_grad_("b" in sub)
                    m.zero_grad(set_to_none=True)
                    y = m(xs)
                    want = model(op, xr, wr, br, gr)
                    R.step()
                    R.state(bias, dt, kind, sub, tuple(sorted((k, str(v)) for k, v in c.items())))
                    tag = f"{c['path']}-{dt}"
                    R.check(y.dtype == dtype, "dtype", f"{y.dtype}")
                    R.close(y, want, tol * mx(want), 0, f"forward-{tag}")
                    R.check(torch.equal(xs.detach(), keep), "input-modified")
                    if sub:
                        ct_l = layout(ct, kind) if kind != "expanded" else ct
                        y.backward(ct_l)
                        want.backward(ct_l.double())
                        R.step()
                        for nm, got, wg in (("x", xs.grad, xr.grad), ("w", m.weight.grad, wr.grad), ("b", m.bias.grad if bias else None, br.grad if bias else None)):
                            if nm in sub:
                                R.close(got, wg, tol * mx(wg), 0, f"grad-{nm}-{tag}")
                            else:
                                R.check(got is None, "grad-unwanted", nm)
