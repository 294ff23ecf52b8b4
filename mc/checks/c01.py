"""Scalar SHT: every grid/size/truncation/normalisation/phase in the bound, every field (impulse basis + linearity)."""
import itertools
import math
from math import lgamma as sp_lgamma

import numpy as np
import torch

import ref

RULE = (
    "one state per (grid,nlat,nlon,lmax,mmax,norm,csphase,dtype) operator; transitions are operator applications: the full "
    "impulse basis of the input space forward, its adjoint through autograd, dense/strided/multi-batch inputs and round trips; "
    "every result is compared with explicit float64 spherical-harmonic sums"
)
ASSUMPTIONS = [
    "linearity of the operator (checked on dense superpositions) extends the impulse basis to all fields",
    "scipy Gegenbauer polynomials, Jacobi/Legendre roots as oracle",
    "sizes bounded as stated; CPU",
]
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]


def cases(tier):
    nl = range(2, 9) if tier == "quick" else range(2, 15)
    no = range(1, 11) if tier == "quick" else range(1, 18)
    out = []
    for nlat, nlon, grid in itertools.product(nl, no, GRIDS):
        out.append({"k": "small", "grid": grid, "nlat": nlat, "nlon": nlon})
    for (nlat, nlon), grid in itertools.product([(5, 9), (6, 12), (8, 1)] if tier == "quick" else [(5, 9), (6, 12), (8, 1), (9, 16), (12, 7)], GRIDS):
        out.append({"k": "use", "grid": grid, "nlat": nlat, "nlon": nlon})
    for m in range(1, 8 if tier == "quick" else 12):
        out.append({"k": "legpoly", "mmax": m, "grid": "none", "nlat": 0, "nlon": 0})
    big = [(33, 64), (64, 33), (16, 32), (24, 96)] if tier == "quick" else [(33, 64), (64, 33), (16, 32), (24, 96), (48, 48), (65, 130), (91, 180), (128, 256), (129, 97)]
    for (nlat, nlon), grid in itertools.product(big, GRIDS):
        out.append({"k": "big", "grid": grid, "nlat": nlat, "nlon": nlon})
    # truncated large grids, and high degrees on few latitudes
    cut = [(33, 64, 11, None), (40, 36, None, 7), (20, 90, 45, None), (9, 260, 130, None), (6, 402, 201, None), (91, 60, None, None), (129, 256, 65, 33)]
    for (nlat, nlon, lm, mm), grid in itertools.product(cut, GRIDS):
        out.append({"k": "big", "grid": grid, "nlat": nlat, "nlon": nlon, "lm": lm, "mm": mm})
    return out


def truncs(nlat, nlon):
    s = {(None, None)}
    for l in (1, 2, nlat - 1, nlat, nlat + 2):
        if l >= 1:
            s.add((l, None))
            s.add((l, l))
    for m in (1, 2, nlon // 2, nlon // 2 + 1, nlon // 2 + 3):
        if m >= 1:
            s.add((None, m))
            s.add((nlat + 3, m))
    return sorted(s, key=lambda t: (t[0] or 0, t[1] or 0))


def run_case(c, R):
    import torch_harmonics as th

    grid, nlat, nlon = c["grid"], c["nlat"], c["nlon"]
    if c["k"] == "big":
        return big(c, R, th)
    if c["k"] == "legpoly":
        return legpoly(c, R)
    if c["k"] == "use":
        return use(c, R, th)
    T = torch.as_tensor
    for (lm, mm), norm, cs in itertools.product(truncs(nlat, nlon), ("ortho", "schmidt", "unnorm"), (True, False)):
        L, M = ref.default_truncation(nlat, nlon, lm, mm, grid)
        if L < 1:
            continue
        tag = f"lmax={lm},mmax={mm},norm={norm},cs={cs}"
        R.state(grid, nlat, nlon, lm, mm, norm, cs)
        f = th.RealSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        b = th.InverseRealSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        R.check((f.lmax, f.mmax) == (L, M) == (b.lmax, b.mmax), "truncation", f"{tag}: {(f.lmax, f.mmax)} {(b.lmax, b.mmax)} != {(L, M)}")
        A = ref.sht_matrix(nlat, nlon, L, M, grid, norm, cs)
        SA, SB = ref.isht_matrices(nlat, nlon, L, M, grid, norm, cs)
        if (lm, mm, norm, cs) == (None, None, "ortho", True) and grid == "equiangular":
            xd, cd = T(ref.pattern(nlat, nlon)), T(ref.cpattern(L, M))
            R.close(th.RealSHT(nlat, nlon)(xd), f(xd), 1e-14, 1e-14, "defaults-forward")
            R.close(th.InverseRealSHT(nlat, nlon)(cd), b(cd), 1e-14, 1e-14, "defaults-inverse")
        # the coefficients grow like a product of norms; relative to the largest entry
        e = torch.eye(nlat * nlon, dtype=torch.float64).reshape(-1, nlat, nlon)
        y = f(e)
        R.step()
        R.close(y, T(np.moveaxis(A.reshape(L, M, -1), -1, 0)), 1e-11 * max(1, np.abs(A).max()), 0, f"forward-impulses")
        # adjoint through autograd: dense cotangent
        x = T(ref.pattern(2, nlat, nlon)).requires_grad_()
        g = T(ref.cpattern(2, L, M))
        y = f(x)
        y.backward(g)
        R.step(2)
        R.close(y, T(np.einsum("lmkj,bkj->blm", A, ref.pattern(2, nlat, nlon))), 1e-10, 1e-10, "forward-dense")
        R.close(x.grad, T(np.einsum("lmkj,blm->bkj", A.conj(), g.numpy()).real), 1e-10, 1e-10, "forward-grad")
        # inverse: complex impulse basis
        ec = torch.eye(L * M, dtype=torch.complex128).reshape(-1, L, M)
        z = b(torch.cat([ec, 1j * ec]))
        R.step()
        want = np.concatenate([np.moveaxis(SA.reshape(nlat, nlon, -1), -1, 0), np.moveaxis(SB.reshape(nlat, nlon, -1), -1, 0)])
        R.close(z, T(want), 1e-11 * max(1, np.abs(want).max()), 0, "inverse-impulses")
        ccv = ref.cpattern(2, L, M)
        cv = T(ccv).requires_grad_()
        gv = ref.pattern(2, nlat, nlon, k=3)
        z = b(cv)
        z.backward(T(gv))
        R.step(2)
        R.close(z, T(np.einsum("kjlm,blm->bkj", SA, ccv.real) + np.einsum("kjlm,blm->bkj", SB, ccv.imag)), 1e-10, 1e-10, "inverse-dense")
        R.close(cv.grad, T(np.einsum("kjlm,bkj->blm", SA, gv) + 1j * np.einsum("kjlm,bkj->blm", SB, gv)), 1e-10, 1e-10, "inverse-grad")
        # round trip on the resolved band
        if lm is None and mm is None:
            keep = np.tril(np.ones((L, M)))
            ck = ccv * keep
            ck[..., 0] = ck[..., 0].real
            if nlon % 2 == 0 and nlon // 2 < M:
                ck[..., nlon // 2] = ck[..., nlon // 2].real
            rt = f(b(T(ck)))
            R.step(2)
            R.close(rt, T(ck), 1e-10, 1e-10, "roundtrip")
            rf = b(f(b(T(ck))))
            R.close(rf, b(T(ck)), 1e-10, 1e-10, "roundtrip-field")
            # single precision, other layouts
            rt32 = f(b(T(ck).to(torch.complex64)))
            R.check(rt32.dtype == torch.complex64, "dtype", f"{tag} {rt32.dtype}")
            R.close(rt32, T(ck), 3e-5, 3e-5, "roundtrip-f32")
            xx = ref.pattern(2, 3, 2, nlat, nlon, k=5)
            want5 = np.einsum("lmkj,abckj->abclm", A, xx)
            R.close(f(T(xx)), T(want5), 1e-10, 1e-10, "leading-dims")
            R.close(f(T(xx[0, 0, 0])), T(want5[0, 0, 0]), 1e-10, 1e-10, "no-batch")
            R.close(f(T(np.ascontiguousarray(np.swapaxes(xx, -1, -2))).transpose(-1, -2)), T(want5), 1e-10, 1e-10, "strided-input")
            R.close(f(T(xx).permute(2, 0, 1, 3, 4)), T(np.moveaxis(want5, 2, 0)), 1e-10, 1e-10, "permuted-input")
            cc5 = ref.cpattern(2, 2, L, M, k=2)
            w5 = np.einsum("kjlm,ablm->abkj", SA, cc5.real) + np.einsum("kjlm,ablm->abkj", SB, cc5.imag)
            R.close(b(T(np.ascontiguousarray(np.swapaxes(cc5, -1, -2))).transpose(-1, -2)), T(w5), 1e-10, 1e-10, "inverse-strided")
            R.close(b(T(cc5[0, 0])), T(w5[0, 0]), 1e-10, 1e-10, "inverse-no-batch")
            R.step(9)
            bad = 0
            for shp in ((nlat + 1, nlon), (nlat, nlon + 1), (nlon,)):
                try:
                    f(torch.zeros(shp, dtype=torch.float64))
                    bad += 1
                except Exception:
                    pass
            for shp in ((L + 1, M), (L, M + 1), (M,)):
                try:
                    b(torch.zeros(shp, dtype=torch.complex128))
                    bad += 1
                except Exception:
                    pass
            R.check(bad == 0, "rejects-wrong-shape", f"{bad} wrong shapes accepted")


def use(c, R, th):
    """every number of leading entries, every storage of the input, every autograd mode, on one operator pair"""
    grid, nlat, nlon = c["grid"], c["nlat"], c["nlon"]
    L, M = ref.default_truncation(nlat, nlon, None, None, grid)
    T = torch.as_tensor
    f, b = th.RealSHT(nlat, nlon, grid=grid), th.InverseRealSHT(nlat, nlon, grid=grid)
    A = T(ref.sht_matrix(nlat, nlon, L, M, grid, "ortho", True))
    SA, SB = [T(a) for a in ref.isht_matrices(nlat, nlon, L, M, grid, "ortho", True)]
    fwd = lambda x: torch.einsum("lmkj,...kj->...lm", A, x.to(A.dtype))
    fadj = lambda g: torch.einsum("lmkj,...lm->...kj", A.conj(), g).real
    inv = lambda v: torch.einsum("kjlm,...lm->...kj", SA, v.real) + torch.einsum("kjlm,...lm->...kj", SB, v.imag)
    iadj = lambda g: torch.complex(torch.einsum("kjlm,...kj->...lm", SA, g), torch.einsum("kjlm,...kj->...lm", SB, g))
    usage(R, (grid, nlat, nlon), [("forward", f, fwd, fadj, (nlat, nlon), False), ("inverse", b, inv, iadj, (L, M), True)])


def usage(R, key, ops):
    T = torch.as_tensor
    for (name, op, fn, adj, shape, cplx), lead, dbl in itertools.product(ops, [()] + ref.LEADS, (True, False)):
        mk = ref.cpattern if cplx else ref.pattern
        x0 = T(mk(*lead, *shape, k=len(lead))) if 0 not in lead else torch.zeros(*lead, *shape, dtype=torch.complex128 if cplx else torch.float64)
        want = fn(x0)
        gv = T((ref.pattern if cplx else ref.cpattern)(*want.shape, k=2)) if 0 not in lead else torch.zeros_like(want)
        wg = adj(gv)
        xs = x0 if dbl else x0.to(torch.complex64 if cplx else torch.float32)
        tol = 1e-10 if dbl else 1e-4
        few = math.prod(lead) <= 48
        for form, v in ref.memory_forms(xs) if few else [("plain", xs.clone()), ("outer-last", xs.movedim(0, -1).contiguous().movedim(-1, 0))]:
            for gform, g in ref.memory_forms(gv.to(want.dtype if dbl else (torch.float32 if cplx else torch.complex64))) if few and form == "plain" else [("plain", gv.to(want.dtype if dbl else (torch.float32 if cplx else torch.complex64)))]:
                R.state(*key, name, lead, form, gform, dbl)
                leaf = v.detach().requires_grad_()
                keep = v.detach().clone()
                y = op(leaf)
                R.step(2)
                R.check(y.shape == want.shape, f"{name}-shape", f"{lead} {form}: {tuple(y.shape)}")
                R.close(y, want, tol, tol, f"{name}-{form}")
                (gx,) = torch.autograd.grad(y, leaf, g)
                R.close(gx, wg, tol, tol, f"{name}-grad-{form}-{gform}")
                R.check(torch.equal(leaf.detach(), keep), f"{name}-input-modified")
        for mode in (torch.no_grad, torch.inference_mode):
            with mode():
                R.step()
                y = op(xs)
                R.check(not y.requires_grad, f"{name}-{mode.__name__}")
                R.close(y, want, tol, tol, f"{name}-{mode.__name__}")
        if few and dbl and 0 not in lead:
            # differentiating the gradient: the operator again
            leaf = xs.clone().requires_grad_()
            g = gv.clone().requires_grad_()
            (gx,) = torch.autograd.grad(op(leaf), leaf, g, create_graph=True)
            R.step(2)
            R.close(torch.autograd.grad(gx, g, xs)[0], want, tol, tol, f"{name}-second-order")
            # two live graphs, differentiated in the opposite order, one of them twice
            l1, l2 = xs.clone().requires_grad_(), (2 * xs).requires_grad_()
            y1, y2 = op(l1), op(l2)
            R.step(5)
            R.close(torch.autograd.grad(y2, l2, gv)[0], wg, tol, tol, f"{name}-two-graphs")
            R.close(torch.autograd.grad(y1, l1, gv, retain_graph=True)[0], wg, tol, tol, f"{name}-two-graphs")
            R.close(torch.autograd.grad(y1, l1, 2 * gv)[0], 2 * wg, tol, tol, f"{name}-retained")


def big(c, R, th):
    """larger sizes: all orders/degrees by impulses in the spectral domain"""
    grid, nlat, nlon = c["grid"], c["nlat"], c["nlon"]
    T = torch.as_tensor
    for norm, cs in (("ortho", True), ("schmidt", False), ("unnorm", True)):
        lm, mm = c.get("lm"), c.get("mm")
        L, M = ref.default_truncation(nlat, nlon, lm, mm, grid)
        R.state(grid, nlat, nlon, lm, mm, norm, cs)
        f = th.RealSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        b = th.InverseRealSHT(nlat, nlon, lmax=lm, mmax=mm, grid=grid, norm=norm, csphase=cs)
        P = ref.plm(M, L, nlat, grid)
        _, w = ref.colatitudes(nlat, grid)
        ph = np.array([ref.phase(m, cs) for m in range(M)])
        sf = np.array([ref.scale(l, norm, False) for l in range(L)])
        si = np.array([ref.scale(l, norm, True) for l in range(L)])
        F = ref.dft_fwd(nlon, M)
        A_, B_ = ref.dft_inv(nlon, M)
        # one batch entry per latitude ring impulse at longitude 1: exercises every (l,m,k)
        e = torch.zeros(nlat, nlat, nlon, dtype=torch.float64)
        j = min(1, nlon - 1)
        for k in range(nlat):
            e[k, k, j] = 1.0
        want = np.einsum("mlk,k,m,l,m->klm", P, w, ph, sf, F[:, j])
        R.step()
        R.close(f(e), T(want), 1e-10 * np.abs(want).max(), 0, "forward-impulses-big")
        x = ref.pattern(nlat, nlon)
        want = np.einsum("mlk,k,m,l,mj,kj->lm", P, w, ph, sf, F, x, optimize=True)
        R.step()
        xt = T(x).requires_grad_()
        y = f(xt)
        R.close(y, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "forward-dense-big")
        gv = ref.cpattern(L, M, k=2)
        y.backward(T(gv))
        want = np.einsum("mlk,k,m,l,mj,lm->kj", P, w, ph, sf, F.conj(), gv, optimize=True).real
        R.close(xt.grad, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "forward-grad-big")
        cc = ref.cpattern(L, M)
        G = np.einsum("mlk,m,l,lm->km", P, ph, si, cc)
        want = G.real @ A_.T + G.imag @ B_.T
        R.step()
        ct = T(cc).requires_grad_()
        z = b(ct)
        R.close(z, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "inverse-dense-big")
        gv = ref.pattern(nlat, nlon, k=3)
        z.backward(T(gv))
        want = np.einsum("mlk,m,l,km->lm", P, ph, si, gv @ A_ + 1j * (gv @ B_), optimize=True)
        R.close(ct.grad, T(want), 1e-9 * max(1, np.abs(want).max()), 0, "inverse-grad-big")
        ec = torch.zeros(L, L, M, dtype=torch.complex128)
        for l in range(L):
            ec[l, l, :] = T((1.0 + 0.5j) / (1.0 + np.arange(M)))
        v = (1.0 + 0.5j) / (1.0 + np.arange(M))
        G = np.einsum("mlk,m,l,m->lkm", P, ph, si, v)
        want = G.real @ A_.T + G.imag @ B_.T
        R.step()
        R.close(b(ec), T(want), 1e-9 * max(1, np.abs(want).max()), 0, "inverse-degrees-big")
        ck = cc * np.tril(np.ones((L, M)))
        ck[:, 0] = ck[:, 0].real
        if nlon % 2 == 0 and nlon // 2 < M:
            ck[:, nlon // 2] = ck[:, nlon // 2].real
        if L <= ref.default_truncation(nlat, 4 * L, None, None, grid)[0]:
            R.step(2)
            R.close(f(b(T(ck))), T(ck), 1e-9, 1e-9, "roundtrip-big")
            R.step(2)
            R.close(f(b(T(ck).to(torch.complex64))), T(ck), 2e-4, 2e-4, "roundtrip-f32-big")


def legpoly(c, R):
    """the Legendre routine by itself: rectangular degree/order ranges at arbitrary points, and its normalisation factor"""
    from torch_harmonics import legendre as lg

    M = c["mmax"]
    x = np.array([-1.0, -0.97, -0.5, -1e-3, 0.0, 0.2, 0.6180339, 0.999, 1.0])
    s = np.sqrt((1 - x) * (1 + x))
    for L, norm, inv, cs in itertools.product(range(1, 10), ("ortho", "schmidt", "unnorm"), (False, True), (True, False)):
        R.state("legpoly", M, L, norm, inv, cs)
        want = np.zeros((M, L, len(x)))
        for l in range(L):
            for m in range(min(M, l + 1)):
                want[m, l] = np.exp(ref._lognorm(l, m)) * s**m * ref._q(l, m, x) * ref.scale(l, norm, inv) * ref.phase(m, cs)
        R.step()
        R.close(lg.legpoly(M, L, torch.as_tensor(x), norm=norm, inverse=inv, csphase=cs), torch.as_tensor(want), 1e-12 * max(1, np.abs(want).max()), 0, "legpoly")
        if (norm, inv, cs) == ("ortho", False, True):
            R.close(lg.legpoly(M, L, torch.as_tensor(x)), torch.as_tensor(want), 1e-12 * max(1, np.abs(want).max()), 0, "legpoly-defaults")
    for l in range(0, 12):
        for m in range(0, l + 1):
            R.step()
            w = np.exp(ref._lognorm(l, m)) * math.exp(-(sp_lgamma(2 * m + 1) - m * math.log(2.0) - sp_lgamma(m + 1)))
            R.check(abs(lg.clm(l, m) - w) <= 1e-12 * w, "normalisation-factor", f"clm({l},{m})")
