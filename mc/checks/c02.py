"""Vector SHT: same exploration as C01 for tangential vector fields."""
import itertools

import numpy as np
import torch

import ref
from checks.c01 import GRIDS, truncs, usage

RULE = (
    "one state per (grid,nlat,nlon,lmax,mmax,norm,csphase) operator pair; transitions are operator applications: the full impulse "
    "basis of both tangential components forward, of spheroidal/toroidal coefficients inverse, adjoints through autograd, round "
    "trips; every result is compared with explicit sums of gradient/curl harmonics in float64"
)
ASSUMPTIONS = ["linearity extends the impulse basis to all vector fields", "scipy Gegenbauer polynomials as oracle", "sizes bounded as stated; CPU"]


def cases(tier):
    nl = range(2, 8) if tier == "quick" else range(2, 13)
    no = range(1, 9) if tier == "quick" else range(1, 15)
    out = [{"k": "small", "grid": g, "nlat": a, "nlon": b} for a, b, g in itertools.product(nl, no, GRIDS)]
    out += [{"k": "use", "grid": g, "nlat": a, "nlon": b} for (a, b), g in itertools.product([(4, 7), (5, 8)] if tier == "quick" else [(4, 7), (5, 8), (8, 15), (7, 3)], GRIDS)]
    big = [(16, 32), (33, 64), (24, 24)] if tier == "quick" else [(16, 32), (33, 64), (24, 24), (48, 96), (65, 130), (91, 180)]
    cut = [(33, 64, 11, None), (40, 36, None, 7), (20, 90, 45, None), (9, 200, 100, None), (91, 60, None, None)]
    out += [{"k": "big", "grid": g, "nlat": a, "nlon": b, "lm": l, "mm": m} for (a, b, l, m), g in itertools.product(cut, GRIDS)]
    return out + [{"k": "big", "grid": g, "nlat": a, "nlon": b} for (a, b), g in itertools.product(big, GRIDS)]


def run_case(c, R):
    import torch_harmonics as th

    grid, nlat, nlon = c["grid"], c["nlat"], c["nlon"]
    T = torch.as_tensor
    if c["k"] == "use":
        L, M = ref.default_truncation(nlat, nlon, None, None, grid)
        f, b = th.RealVectorSHT(nlat, nlon, grid=grid), th.InverseRealVectorSHT(nlat, nlon, grid=grid)
        A = T(ref.vsht_matrix(nlat, nlon, L, M, grid, "ortho", True))
        SA, SB = [T(a) for a in ref.ivsht_matrices(nlat, nlon, L, M, grid, "ortho", True)]
        fwd = lambda x: torch.einsum("clmdkj,...dkj->...clm", A, x.to(A.dtype))
        fadj = lambda g: torch.einsum("clmdkj,...clm->...dkj", A.conj(), g).real
        inv = lambda v: torch.einsum("dkjclm,...clm->...dkj", SA, v.real) + torch.einsum("dkjclm,...clm->...dkj", SB, v.imag)
        iadj = lambda g: torch.complex(torch.einsum("dkjclm,...dkj->...clm", SA, g), torch.einsum("dkjclm,...dkj->...clm", SB, g))
        return usage(R, (grid, nlat, nlon), [("forward", f, fwd, fadj, (2, nlat, nlon), False), ("inverse", b, inv, iadj, (2, L, M), True)])
    small = c["k"] == "small"
    tr = truncs(nlat, nlon) if small else [(c.get("lm"), c.get("mm"))]
    for (lm, mm), norm, cs in itertools.product(tr, ("ortho", "schmidt", "unnorm"), (True, False)):
        L, M = ref.default_truncation(nlat, nlon, lm, mm, grid)
        if L < 1 or (not small and (norm, cs) not in (("ortho", True), ("schmidt", False), ("unnorm", True))):
            continue
        R.state(grid, nlat, nlon, lm, mm, norm, cs)
        f = th.RealVectorSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        b = th.InverseRealVectorSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        R.check((f.lmax, f.mmax) == (L, M) == (b.lmax, b.mmax), "truncation", f"{(f.lmax, f.mmax)} {(b.lmax, b.mmax)} != {(L, M)}")
        # resolved band: l >= 1, m <= l, real where the transform can only carry a real value
        keep = np.tril(np.ones((L, M)))
        keep[0] = 0
        ck = ref.cpattern(2, 2, L, M) * keep
        ny = nlon // 2 if nlon % 2 == 0 and nlon // 2 < M else None
        ck[..., 0] = ck[..., 0].real
        if ny is not None:
            ck[..., ny] = 0  # mixes real and imaginary parts between components
        if small:
            A = ref.vsht_matrix(nlat, nlon, L, M, grid, norm, cs)
            SA, SB = ref.ivsht_matrices(nlat, nlon, L, M, grid, norm, cs)
            n = nlat * nlon
            y = f(torch.eye(2 * n, dtype=torch.float64).reshape(-1, 2, nlat, nlon))
            R.step()
            R.close(y, T(np.moveaxis(A.reshape(2, L, M, -1), -1, 0)), 1e-10 * max(1, np.abs(A).max()), 0, "forward-impulses")
            xv = ref.pattern(2, 2, nlat, nlon)
            x = T(xv).requires_grad_()
            gv = ref.cpattern(2, 2, L, M, k=2)
            y = f(x)
            y.backward(T(gv))
            R.step(2)
            R.close(y, T(np.einsum("clmdkj,bdkj->bclm", A, xv)), 1e-9, 1e-9, "forward-dense")
            R.close(x.grad, T(np.einsum("clmdkj,bclm->bdkj", A.conj(), gv).real), 1e-9, 1e-9, "forward-grad")
            ec = torch.eye(2 * L * M, dtype=torch.complex128).reshape(-1, 2, L, M)
            z = b(torch.cat([ec, 1j * ec]))
            want = np.concatenate([np.moveaxis(SA.reshape(2, nlat, nlon, -1), -1, 0), np.moveaxis(SB.reshape(2, nlat, nlon, -1), -1, 0)])
            R.step()
            R.close(z, T(want), 1e-10 * max(1, np.abs(want).max()), 0, "inverse-impulses")
            cv = ref.cpattern(2, 2, L, M)
            ct = T(cv).requires_grad_()
            g = ref.pattern(2, 2, nlat, nlon, k=3)
            z = b(ct)
            z.backward(T(g))
            R.step(2)
            R.close(z, T(np.einsum("dkjclm,bclm->bdkj", SA, cv.real) + np.einsum("dkjclm,bclm->bdkj", SB, cv.imag)), 1e-9, 1e-9, "inverse-dense")
            R.close(ct.grad, T(np.einsum("dkjclm,bdkj->bclm", SA, g) + 1j * np.einsum("dkjclm,bdkj->bclm", SB, g)), 1e-9, 1e-9, "inverse-grad")
            if lm is None and mm is None:
                x5 = ref.pattern(2, 3, 2, nlat, nlon, k=4)
                w5 = np.einsum("clmdkj,abdkj->abclm", A, x5)
                R.close(f(T(x5)), T(w5), 1e-9, 1e-9, "leading-dims")
                R.close(f(T(x5[0, 0])), T(w5[0, 0]), 1e-9, 1e-9, "no-batch")
                R.close(f(T(np.ascontiguousarray(np.swapaxes(x5, -1, -2))).transpose(-1, -2)), T(w5), 1e-9, 1e-9, "strided-input")
                R.close(f(T(np.ascontiguousarray(np.swapaxes(x5, -3, -2))).transpose(-3, -2)), T(w5), 1e-9, 1e-9, "strided-input2")
                R.step(4)
                bad = 0
                for mod, shps, dt in (
                    (f, ((2, nlat + 1, nlon), (2, nlat, nlon + 1), (3, nlat, nlon), (1, nlat, nlon), (nlat, nlon)), torch.float64),
                    (b, ((2, L + 1, M), (2, L, M + 1), (3, L, M), (1, L, M), (L, M)), torch.complex128),
                ):
                    for s in shps:
                        if len(s) == 2 and s[0] == 2:
                            continue
                        try:
                            mod(torch.zeros(s, dtype=dt))
                            bad += 1
                        except Exception:
                            pass
                R.check(bad == 0, "rejects-wrong-shape", f"{bad} accepted")
        else:
            D = ref.dplm(M, L, nlat, grid)
            A_, B_ = ref.dft_inv(nlon, M)
            ph = np.array([ref.phase(m, cs) for m in range(M)])
            si = np.array([ref.scale(l, norm, True) for l in range(L)])
            E = np.einsum("dmlk,m,l->dmlk", D, ph, si)
            cv = ref.cpattern(2, L, M)
            s0 = [np.einsum("mlk,lm->km", E[d], cv[cc]) for d in (0, 1) for cc in (0, 1)]
            vt, vl = s0[0] + 1j * s0[3], 1j * s0[2] - s0[1]
            want = np.stack([v.real @ A_.T + v.imag @ B_.T for v in (vt, vl)])
            R.step()
            ct = T(cv).requires_grad_()
            z = b(ct)
            R.close(z, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "inverse-dense-big")
            g = ref.pattern(2, nlat, nlon, k=3)
            z.backward(T(g))
            h = np.stack([x @ A_ + 1j * (x @ B_) for x in g])  # adjoint of the azimuthal synthesis
            r = lambda d, x: np.einsum("mlk,km->lm", E[d], x)
            want = np.stack([r(0, h[0]) - 1j * r(1, h[1]), -1j * r(1, h[0]) - r(0, h[1])])
            R.step()
            R.close(ct.grad, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "inverse-grad-big")
            _, w = ref.colatitudes(nlat, grid)
            sf = np.array([ref.scale(l, norm, False) / max(1, l * (l + 1)) for l in range(L)])
            Ef = np.einsum("dmlk,k,m,l->dmlk", D, w, ph, sf)
            xv = ref.pattern(2, nlat, nlon, k=1)
            X = np.einsum("mj,dkj->dkm", ref.dft_fwd(nlon, M), xv)
            q = lambda d, cc: np.einsum("mlk,km->lm", Ef[d], X[cc])
            want = np.stack([q(0, 0) - 1j * q(1, 1), -1j * q(1, 0) - q(0, 1)])
            R.step()
            xt = T(xv).requires_grad_()
            y = f(xt)
            R.close(y, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "forward-dense-big")
            g = ref.cpattern(2, L, M, k=2)
            y.backward(T(g))
            u = lambda d, cc: np.einsum("mlk,lm->km", Ef[d], g[cc])
            v = np.stack([u(0, 0) + 1j * u(1, 1), 1j * u(1, 0) - u(0, 1)])
            want = np.einsum("mj,dkm->dkj", ref.dft_fwd(nlon, M).conj(), v).real
            R.step()
            R.close(xt.grad, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "forward-grad-big")
        if lm is None and mm is None:
            R.step(2)
            R.close(f(b(T(ck))), T(ck), 1e-9, 1e-9, "roundtrip")
            r32 = f(b(T(ck).to(torch.complex64)))
            R.check(r32.dtype == torch.complex64, "dtype", str(r32.dtype))
            R.close(r32, T(ck), 1e-4, 1e-4, "roundtrip-f32")
            R.step(2)
