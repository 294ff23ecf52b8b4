"""Resampling: interpolation between every pair of grids in the bound."""
import itertools
import math

import numpy as np
import torch

import ref

RULE = (
    "one state per (input grid/size, output grid/size, mode) operator; transitions are applications: complete impulse basis (linear "
    "mode), impulses of every position x height x background and dense fields (spherical mode), gradients, leading-dimension and "
    "stride variants; compared with a direct bracketing interpolation in float64"
)
ASSUMPTIONS = ["interpolation weights are held in single precision (documented behaviour of the module), tolerances follow", "angular differences kept below pi"]
GR = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


def cases(tier):
    q = tier == "quick"
    out = []
    latp = [(2, 2), (2, 3), (3, 2), (3, 5), (4, 4), (5, 3), (4, 7), (5, 9), (6, 4)] if q else list(itertools.product(range(2, 8), range(2, 10)))
    lonp = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4), (4, 8), (3, 6), (6, 3), (5, 7), (7, 5)] if q else list(itertools.product(range(1, 9), [1, 2, 3, 4, 5, 6, 8, 9, 12]))
    for (a, b), gi, go in itertools.product(latp, GR, GR):
        out.append({"lat": [a, b], "gi": gi, "go": go, "lon": [list(p) for p in lonp]})
    for (a, b), (o, p), gi in itertools.product([(16, 33), (33, 16)], [(32, 48), (48, 20)], GR):
        out.append({"lat": [a, b], "gi": gi, "go": "equiangular", "lon": [[o, p]], "big": 1})
    # large grids: same number of rows on every pair of different grid types, and near-equal sizes
    for n, gi, go in itertools.product([48, 181, 361] if q else [48, 64, 181, 256, 361, 720], GR, GR):
        out.append({"lat": [n, n], "gi": gi, "go": go, "lon": [[8, 8]], "big": 1})
        if gi == go:
            out.append({"lat": [n, n + 1], "gi": gi, "go": go, "lon": [[6, 7]], "big": 1})
            out.append({"lat": [n, n - 1], "gi": gi, "go": go, "lon": [[n, n + 1]], "big": 1} if n < 100 else {"lat": [4, 5], "gi": gi, "go": go, "lon": [[2 * n, 2 * n + 1], [2 * n, 4 * n]], "big": 1})
    return out


def slerp(f0, f1, t):
    om = f1 - f0
    so = torch.sin(om)
    m = so.abs() > 1e-4
    so = torch.where(m, so, torch.ones_like(so))
    a = torch.where(m, torch.sin((1 - t) * om) / so, 1 - t)
    b = torch.where(m, torch.sin(t * om) / so, t)
    return a * f0 + b * f1


def lin(f0, f1, t):
    return (1 - t) * f0 + t * f1


def reference(x, nin, nout, gi, go, mode):
    """x: (..., nlat, nlon) float64; explicit bracketing search per output point"""
    ip = slerp if mode == "bilinear-spherical" else lin
    ti, to = ref.colatitudes(nin[0], gi)[0], ref.colatitudes(nout[0], go)[0]
    li, lo = ref.longitudes(nin[1]), ref.longitudes(nout[1])
    eps = 1e-9
    pts = [(t, x[..., i, :]) for i, t in enumerate(ti)]
    if to[0] < ti[0] - eps or to[-1] > ti[-1] + eps:
        n = x.shape[-1]
        pts = [(0.0, x[..., 0, :].mean(-1, keepdim=True).expand(*x.shape[:-2], n))] + pts + [(math.pi, x[..., -1, :].mean(-1, keepdim=True).expand(*x.shape[:-2], n))]
    rows = []
    for t in to:
        k = 0
        while k < len(pts) - 2 and pts[k + 1][0] <= t - 1e-12:
            k += 1
        w = (t - pts[k][0]) / (pts[k + 1][0] - pts[k][0])
        w = float(np.float32(min(max(w, 0.0), 1.0)))
        rows.append(ip(pts[k][1], pts[k + 1][1], w))
    y = torch.stack(rows, -2)
    cols = []
    dl = 2 * math.pi / nin[1]
    for l in lo:
        k = int(math.floor(l / dl + 1e-9)) % nin[1]
        w = float(np.float32((l - li[k]) / dl))
        cols.append(ip(y[..., k], y[..., (k + 1) % nin[1]], w))
    return torch.stack(cols, -1)


def run_case(c, R):
    import torch_harmonics as th

    T = torch.as_tensor
    a, b = c["lat"]
    gi, go = c["gi"], c["go"]
    for (o, p), mode in itertools.product(c["lon"], ("bilinear", "bilinear-spherical")):
        R.state(a, b, o, p, gi, go, mode)
        op = th.ResampleS2(a, o, b, p, grid_in=gi, grid_out=go, mode=mode)
        ident = a == b and o == p and gi == go
        rf = (lambda x: x) if ident else (lambda x: reference(x, (a, o), (b, p), gi, go, mode))
        fields = []
        n = a * o
        if mode == "bilinear":
            fields.append(torch.eye(n, dtype=torch.float64).reshape(n, a, o) if not c.get("big") else torch.eye(n, dtype=torch.float64)[:: max(7, n // 100)].reshape(-1, a, o))
        elif not c.get("big"):
            e = torch.eye(n, dtype=torch.float64).reshape(n, a, o)
            for h, bg in ((1.0, 0.0), (-1.0, 0.0), (2.6, -1.0), (-2.6, 1.3), (0.3, 0.5), (-0.01, 0.0)):
                fields.append(h * e + bg)
        fields.append(T(ref.pattern(3, a, o)) * 0.8)
        fields.append(torch.full((1, a, o), 0.7, dtype=torch.float64))
        x = torch.cat(fields)
        y = op(x)
        w = rf(x)
        R.step()
        R.close(y, w, 3e-6, 2e-6, f"{mode}-values")
        if mode == "bilinear":
            R.close(op(torch.ones(2, a, o, dtype=torch.float64)), torch.ones(2, b, p, dtype=torch.float64), 1e-6, 0, "constant-preserved")
        # gradient
        xs = (T(ref.pattern(2, a, o, k=1)) * 0.8).requires_grad_()
        xr = xs.detach().clone().requires_grad_()
        g = T(ref.pattern(2, b, p, k=2))
        op(xs).backward(g)
        rf(xr).backward(g) if not ident else None
        R.step(2)
        R.close(xs.grad, xr.grad if not ident else g, 2e-5, 2e-5, f"{mode}-grad")
        xc = torch.full((1, a, o), 0.3, dtype=torch.float64, requires_grad=True)
        op(xc).sum().backward()
        R.check(bool(torch.isfinite(xc.grad).all()), f"{mode}-grad-finite")
        # input not modified; ranks; strides; single precision
        xv = T(ref.pattern(2, 2, 3, a, o, k=4)) * 0.8
        w5 = rf(xv)
        keep = xv.clone()
        R.close(op(xv), w5, 3e-6, 2e-6, "leading-dims")
        R.check(torch.equal(keep, xv), "input-modified")
        R.close(op(xv[0, 0, 0]), w5[0, 0, 0], 3e-6, 2e-6, "no-batch")
        R.close(op(xv.transpose(-1, -2).contiguous().transpose(-1, -2)), w5, 3e-6, 2e-6, "strided")
        if not c.get("big") and (o, p) in ((4, 8), (5, 7), (6, 3), (3, 2)):
            x3 = xv[0]
            for form, v in ref.memory_forms(x3):
                R.step()
                R.close(op(v), w5[0], 3e-6, 2e-6, f"storage-{form}")
                R.check(torch.equal(v, x3), f"storage-{form}-modified")
            for lead in ((0,), (0, 2), (1, 1, 1, 1)) + (((257,), (2, 129), (1030,)) if gi != go and a <= 4 else ()):
                R.step()
                z = torch.zeros(*lead, a, o, dtype=torch.float64) if 0 in lead else T(ref.pattern(*lead, a, o, k=6)) * 0.8
                got = op(z)
                R.check(got.shape == (*lead, b, p), "leading-shape", f"{lead} {tuple(got.shape)}")
                R.close(got, rf(z), 3e-6, 2e-6, "leading-entries")
        y32 = op(xv.float())
        R.check(y32.dtype == torch.float32 and y32.shape == w5.shape, "dtype-shape", f"{y32.dtype} {y32.shape}")
        R.close(y32, w5, 2e-5, 1e-5, "single-precision")
        R.step(5)
