"""Azimuthal FFT helpers and spectral truncation."""
import itertools

import numpy as np
import torch

import ref

RULE = (
    "one state per (function, signal length, number of modes, axis, rank, norm) or (nlat,nlon,lmax,mmax,grid); transitions are calls "
    "on complete impulse bases plus a dense input and its gradient; compared with explicit trigonometric sums / the documented rule"
)
ASSUMPTIONS = ["linearity extends impulse bases to all signals", "sizes bounded as stated"]


def cases(tier):
    N = 12 if tier == "quick" else 24
    out = [{"k": "rfft", "n": n} for n in range(1, N + 1)]
    out += [{"k": "irfft", "m": m} for m in range(1, N + 1)]
    out += [{"k": "use", "n": n} for n in (1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 180, 243, 256, 257, 360, 511, 512, 720)]
    out += [{"k": "trunc", "nlat": a} for a in range(1, 20 if tier == "quick" else 60)]
    return out


def sc(norm, n, fwd):
    if norm == "forward":
        return 1.0 / n if fwd else 1.0
    if norm == "ortho":
        return n**-0.5
    return 1.0 if fwd else 1.0 / n


def run_case(c, R):
    from torch_harmonics.fft import irfft, rfft

    T = torch.as_tensor
    if c["k"] == "trunc":
        from torch_harmonics import truncate_sht

        a = c["nlat"]
        for b, lm, mm, g in itertools.product(range(1, 16), [None, 1, 2, 5, 9, 30], [None, 1, 2, 5, 9, 30], ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]):
            if g == "lobatto" and a == 1 and lm is None:
                continue
            R.state("t", a, b, lm, mm, g)
            R.step()
            got = truncate_sht(a, b, lm, mm, g)
            want = ref.default_truncation(a, b, lm, mm, g)
            R.outcome(got)
            R.check(tuple(got) == tuple(want), "truncation", f"{(a, b, lm, mm, g)} -> {got} != {want}")
        try:
            truncate_sht(a, 4, grid="no-such-grid")
            R.fail("unknown-grid-accepted")
        except ValueError:
            pass
        return
    if c["k"] == "use":
        return use(c["n"], R, rfft, irfft)
    norms = ["forward", "backward", "ortho"]
    if c["k"] == "rfft":
        n = c["n"]
        for norm, nm in itertools.product(norms, [None] + list(range(1, n // 2 + 4))):
            M = nm or (n // 2 + 1)
            F = ref.dft_fwd(n, M) * (n / (2 * np.pi)) * sc(norm, n, True)
            R.state("r", n, nm, norm)
            e = torch.eye(n, dtype=torch.float64)
            y = rfft(e, nmodes=nm, dim=-1, norm=norm)
            R.step()
            R.close(y, T(F.T.copy()), 1e-12, 0, "rfft-impulses")
            for rank, dim in ((1, 0), (1, -1), (2, 0), (2, -2), (3, 1), (3, -1), (3, 2), (3, 0), (4, -2), (4, 1)):
                shp = [2, 3, 2, 3][:rank]
                shp[dim] = n
                xv = ref.pattern(*shp, k=rank)
                for variant in ("contig", "strided", "f32"):
                    x = T(xv)
                    if variant == "strided":
                        x = T(np.ascontiguousarray(xv.transpose())).permute(*range(rank - 1, -1, -1))
                    elif variant == "f32":
                        x = x.float()
                    x = x.clone(memory_format=torch.preserve_format).requires_grad_()
                    keep = x.detach().clone()
                    y = rfft(x, nmodes=nm, dim=dim, norm=norm)
                    want = np.moveaxis(np.moveaxis(xv, dim, -1) @ F.T, -1, dim)
                    tol = 1e-11 if variant != "f32" else 2e-5
                    R.close(y, T(want), tol, 0, "rfft-dense")
                    R.check(y.dtype == (torch.complex64 if variant == "f32" else torch.complex128), "rfft-dtype", str(y.dtype))
                    gv = ref.cpattern(*want.shape, k=3)
                    y.backward(T(gv).to(y.dtype))
                    wg = np.moveaxis((np.moveaxis(gv, dim, -1) @ F.conj()).real, -1, dim)
                    R.close(x.grad, T(wg), tol, 0, "rfft-grad")
                    R.check(torch.equal(x.detach(), keep), "rfft-mutates-input")
                    R.step(2)
        try:
            rfft(torch.zeros(n), n=n)
            R.fail("rfft-n-accepted")
        except ValueError:
            pass
        return
    m = c["m"]
    for norm, n in itertools.product(norms, [None] + list(range(1, 2 * m + 4))):
        N = n if n is not None else 2 * (m - 1)
        if N < 1:
            continue
        A, B = ref.dft_inv(N, m)
        A, B = A * sc(norm, N, False), B * sc(norm, N, False)
        R.state("i", m, n, norm)
        e = torch.eye(m, dtype=torch.complex128)
        z = irfft(torch.cat([e, 1j * e]), n=n, dim=-1, norm=norm)
        R.step()
        R.close(z, T(np.concatenate([A.T, B.T])), 1e-12, 0, "irfft-impulses")
        for rank, dim in ((1, 0), (1, -1), (2, 0), (2, -2), (3, 1), (3, -1), (3, 2), (3, 0), (4, -2), (4, 1)):
            shp = [2, 3, 2, 3][:rank]
            shp[dim] = m
            xv = ref.cpattern(*shp, k=rank)
            for variant in ("contig", "strided", "f32"):
                x = T(xv)
                if variant == "strided":
                    x = T(np.ascontiguousarray(xv.transpose())).permute(*range(rank - 1, -1, -1))
                elif variant == "f32":
                    x = x.to(torch.complex64)
                x = x.clone(memory_format=torch.preserve_format).requires_grad_()
                keep = x.detach().clone()
                y = irfft(x, n=n, dim=dim, norm=norm)
                v = np.moveaxis(xv, dim, -1)
                want = np.moveaxis(v.real @ A.T + v.imag @ B.T, -1, dim)
                tol = 1e-11 if variant != "f32" else 5e-5
                R.close(y, T(want), tol, 0, "irfft-dense")
                gv = ref.pattern(*want.shape, k=5)
                y.backward(T(gv).to(y.dtype))
                g = np.moveaxis(gv, dim, -1)
                R.close(x.grad, T(np.moveaxis(g @ A + 1j * (g @ B), -1, dim)), tol, 0, "irfft-grad")
                R.check(torch.equal(x.detach(), keep), "irfft-mutates-input")
                R.step(2)


def use(n, R, rfft, irfft):
    """long signals, every storage of the input and of the cotangent, many leading entries"""
    T = torch.as_tensor
    H = n // 2 + 1
    for nm, norm in itertools.product(sorted({1, 2, H // 2 + 1, H - 1, H, H + 3} - {0}), ("forward", "backward", "ortho")):
        F = T(ref.dft_fwd(n, nm) * (n / (2 * np.pi)) * sc(norm, n, True))
        A, B = [T(a * sc(norm, n, False)) for a in ref.dft_inv(n, nm)]
        fw = lambda x, **k: rfft(x, nmodes=nm, norm=norm, **k)
        bw = lambda x, **k: irfft(x, n=n, norm=norm, **k)
        leads = [(), (2, 3)] if n > 33 else [(), (2, 3), (3, 2, 2), (1, 1, 1, 1), (0,), (2, 0), (129,), (1030,)]
        for (name, op, size, cplx), lead in itertools.product((("rfft", fw, n, False), ("irfft", bw, nm, True)), leads):
            mk = ref.cpattern if cplx else ref.pattern
            if 0 in lead:
                x = torch.zeros(*lead, size, dtype=torch.complex128 if cplx else torch.float64)
            else:
                x = T(mk(*lead, size, k=len(lead)))
            want = x.real @ A.T + x.imag @ B.T if cplx else x.to(F.dtype) @ F.T
            g = T((ref.pattern if cplx else ref.cpattern)(*want.shape, k=4)) if 0 not in lead else torch.zeros_like(want)
            wg = torch.complex(g @ A, g @ B) if cplx else (g @ F.conj()).real
            tol = 1e-12 * max(n, 10) * max(1.0, float(want.abs().max()) if want.numel() else 1.0)
            gt = 1e-12 * max(n, 10) * max(1.0, float(wg.abs().max()) if wg.numel() else 1.0)
            forms = ref.memory_forms(x) if len(lead) < 3 and sum(lead) < 100 else [("plain", x)]
            for form, v in forms:
                leaf = v.detach().requires_grad_()
                R.state(name, n, nm, norm, lead, form)
                y = op(leaf, dim=-1)
                R.step(2)
                R.check(y.shape == want.shape, f"{name}-shape", f"{tuple(y.shape)}")
                R.close(y, want, tol, 0, f"{name}-{form}")
                R.close(torch.autograd.grad(y, leaf, g)[0], wg, gt, 0, f"{name}-grad-{form}")
            if lead == (2, 3):
                for gform, gg in ref.memory_forms(g):
                    leaf = x.clone().requires_grad_()
                    R.step(2)
                    R.close(torch.autograd.grad(op(leaf, dim=-1), leaf, gg)[0], wg, gt, 0, f"{name}-grad-plain-{gform}")
                for dim in (0, 1, -2):
                    R.step()
                    R.close(op(x.movedim(-1, dim), dim=dim), want.movedim(-1, dim), tol, 0, f"{name}-axis{dim}")
