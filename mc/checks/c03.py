"""Grids and quadrature: nodes, weights, exactness, spherical integrals, for every size and grid in the bound."""
import itertools
import math

import numpy as np
import torch

import ref

RULE = (
    "one state per (rule,n,interval,periodic) or (grid,nlat,nlon,normalize,rank,dtype) integrator; transitions are calls of the node/weight "
    "routines and integrator applications on the full impulse basis; compared with closed-form nodes/weights and exact integrals of "
    "every monomial/harmonic up to the guaranteed degree"
)
ASSUMPTIONS = ["scipy roots/closed-form Clenshaw-Curtis weights as oracle", "sizes bounded as stated"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


def degree(n, grid):
    return {"legendre-gauss": 2 * n - 1, "lobatto": 2 * n - 3, "equiangular": n - 1, "equiangular-trapezoidal": 1}[grid]


def cases(tier):
    q = tier == "quick"
    out = [{"k": "rule", "n": n, "grid": g} for n in list(range(1, 49 if q else 200)) for g in GRIDS]
    out += [{"k": "s2", "nlat": a, "nlon": b, "grid": g} for a in range(2, 10 if q else 18) for b in range(1, 10 if q else 18) for g in GRIDS]
    out += [{"k": "s2", "nlat": a, "nlon": b, "grid": g} for a, b in ((33, 64), (64, 33), (20, 128), (91, 7)) for g in GRIDS]
    out += [{"k": "lon", "n": n} for n in range(1, 65 if q else 257)]
    if q:
        out += [{"k": "rule", "n": n, "grid": g} for n in (64, 65, 96, 127, 128, 181, 256, 257, 361, 512, 721) for g in GRIDS]
    return out


def run_case(c, R):
    import torch_harmonics as th
    from torch_harmonics import quadrature as Q

    T = torch.as_tensor
    if c["k"] == "lon":
        n = c["n"]
        R.state("lon", n)
        R.step()
        lon = Q.precompute_longitudes(n)
        R.check(lon.dtype == torch.float64, "lon-dtype")
        R.close(lon, T(ref.longitudes(n)), 1e-13, 0, "longitudes")
        x, w = Q.trapezoidal_weights(n, a=0.0, b=2 * math.pi, periodic=True)
        R.close(x, T(ref.longitudes(n)), 1e-13, 0, "periodic-nodes")
        R.close(w, T(np.full(n, 2 * math.pi / n)), 1e-13, 0, "periodic-weights")
        return
    if c["k"] == "rule":
        n, grid = c["n"], c["grid"]
        fn = {"legendre-gauss": Q.legendre_gauss_weights, "lobatto": Q.lobatto_weights, "equiangular": Q.clenshaw_curtiss_weights, "equiangular-trapezoidal": Q.trapezoidal_weights}[grid]
        if n == 1 and grid != "legendre-gauss":
            return
        x0, w0 = ref.nodes_weights(n, grid)
        for a, b in ((-1.0, 1.0), (0.0, 1.0), (2.0, 5.5), (-3.0, -1.0)):
            R.state("rule", n, grid, a, b)
            R.step(2)
            x, w = fn(n, a=a, b=b)
            x2, w2 = Q._precompute_quadrature_weights(n, grid=grid, a=a, b=b) if hasattr(Q, "_precompute_quadrature_weights") else (x, w)
            h = (b - a) / 2
            R.check(x.dtype == w.dtype == torch.float64, "dtype", f"{x.dtype} {w.dtype}")
            R.close(x, T(h * x0 + (a + b) / 2), 2e-12, 0, "nodes")
            R.close(w, T(h * w0), 1e-12, 1e-11, "weights")
            R.close(x2, x, 0, 0, "nodes-by-name")
            R.close(w2, w, 0, 0, "weights-by-name")
            R.check(bool((x[1:] > x[:-1]).all()) and bool((w > 0).all()), "ordered-positive")
            # exact integrals of shifted Legendre polynomials up to the guaranteed degree
            t = (x.numpy() - (a + b) / 2) / h
            got = w.numpy() @ np.polynomial.legendre.legvander(t, degree(n, grid))
            got[0] -= 2 * h
            for p in np.arange(len(got))[~(np.abs(got) < 1e-11 * max(1, h))]:
                R.fail("exactness", f"degree {p}: off by {got[p]}")
            R.trace(len(got))
        R.step()
        x, w = fn(n)
        R.close(x, T(x0), 2e-12, 0, "nodes-default-interval")
        R.close(w, T(w0), 1e-12, 1e-11, "weights-default-interval")
        lat, wl = Q.precompute_latitudes(n, grid=grid)
        if grid == "equiangular":
            R.same(Q.precompute_latitudes(n)[0], lat, "default-grid")
        rl, rw = ref.colatitudes(n, grid)
        R.step()
        R.check(bool(torch.isfinite(lat).all()) and bool((lat[1:] > lat[:-1]).all()) and float(lat[0]) >= 0 and float(lat[-1]) <= math.pi, "colatitudes-order", f"{lat[:2]} {lat[-2:]}")
        R.close(torch.cos(lat), T(np.cos(rl)), 2e-12, 0, "colatitudes")
        R.close(lat, T(rl), 2e-7, 0, "colatitudes-abs")
        R.close(wl, T(rw), 1e-12, 1e-11, "latitude-weights")
        if grid != "equiangular-trapezoidal" and n > 1:
            try:
                Q._precompute_quadrature_weights(n, grid=grid, periodic=True)
                R.fail("periodic-rejected", "periodic non-trapezoidal rule accepted")
            except ValueError:
                pass
            except AttributeError:
                pass
        return
    nlat, nlon, grid = c["nlat"], c["nlon"], c["grid"]
    _, w = ref.colatitudes(nlat, grid)
    W = np.outer(w, np.full(nlon, 2 * math.pi / nlon))
    for normalize in (False, True):
        Wn = W / (4 * math.pi) if normalize else W
        R.state("s2", nlat, nlon, grid, normalize)
        q = th.QuadratureS2((nlat, nlon), grid=grid, normalize=normalize)
        e = torch.eye(nlat * nlon).reshape(1, -1, nlat, nlon)
        R.step()
        R.close(q(e), T(Wn.reshape(1, -1)), 1e-7, 3e-7, "integrator-impulses")
        R.close(q(torch.ones(2, 3, nlat, nlon)), torch.full((2, 3), 1.0 if normalize else 4 * math.pi), 1e-6, 2e-6, "total-area")
        for shp in ((), (3,), (2, 3), (2, 1, 3)):
            for dt in (torch.float32, torch.float64):
                xv = ref.pattern(*shp, nlat, nlon, k=len(shp))
                x = T(xv).to(dt).requires_grad_()
                y = q(x)
                y.sum().backward()
                R.step(2)
                R.close(y, T((xv * Wn).sum((-2, -1))), 1e-5, 1e-6, "integral")
                R.close(x.grad, T(np.broadcast_to(Wn, xv.shape).copy()), 1e-7, 3e-7, "integral-grad")
        # strided input
        xv = ref.pattern(2, 3, nlon, nlat)
        R.step()
        R.close(q(T(xv).float().transpose(-1, -2)), T((np.swapaxes(xv, -1, -2) * Wn).sum((-2, -1))), 1e-5, 1e-6, "integral-strided")
        if nlat in (2, 5, 6) and nlon in (1, 4, 7):
            x3 = T(ref.pattern(2, 3, nlat, nlon, k=3))
            for form, v in ref.memory_forms(x3):
                R.step()
                R.close(q(v), T((x3.numpy() * Wn).sum((-2, -1))), 1e-5, 1e-6, f"integral-{form}")
                R.check(torch.equal(v, x3), f"integral-{form}-modified")
            for lead in ((0,), (0, 2), (1, 1, 1, 1), (257,), (3, 129), (1030,)):
                R.step()
                z = torch.zeros(*lead, nlat, nlon, dtype=torch.float64) if 0 in lead else T(ref.pattern(*lead, nlat, nlon, k=6))
                got = q(z)
                R.check(got.shape == lead, "integral-shape", f"{lead} {tuple(got.shape)}")
                R.close(got, T((z.numpy() * Wn).sum((-2, -1))), 1e-5, 1e-6, "integral-many")
        # exact integrals of real harmonics
        if grid != "equiangular-trapezoidal":
            L = degree(nlat, grid) + 1
            M = min((nlon + 1) // 2, L)
            P = ref.plm(max(M, 1), L, nlat, grid)
            lam = ref.longitudes(nlon)
            fs, want = [], []
            for m in range(M):
                for l in range(m, L):
                    for tr in (np.cos, np.sin):
                        fs.append(np.outer(P[m, l], tr(m * lam)))
                        want.append((math.sqrt(4 * math.pi) if (l, m) == (0, 0) and tr is np.cos else 0.0) / (4 * math.pi if normalize else 1.0))
            got = q(T(np.stack(fs)[None]))
            R.step()
            R.close(got, T(np.array(want)[None]), 3e-6, 0, "harmonic-integrals")
