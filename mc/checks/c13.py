"""Gaussian random fields follow the documented Karhunen-Loeve expansion."""
import itertools
import math

import numpy as np
import torch

import ref

RULE = (
    "one state per (nlat, grid, alpha, tau, sigma, radius, dtype); the complete noise basis (every real and imaginary unit coefficient) is fed through the sampler "
    "and compared with sqrt(C_l) times the harmonic; fields drawn from the built-in noise are analysed back into the modelled spectrum; device/dtype moves are histories"
)
ASSUMPTIONS = ["torch's normal sampler is trusted to be standard normal", "the mean (l=0) is defined to be absent, as the field is centred"]
GR = ["equiangular", "legendre-gauss", "lobatto"]


def cases(tier):
    n = [2, 3, 4, 5, 6] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8, 10, 12]
    return [{"n": k, "grid": g, "alpha": a, "tau": t, "sigma": s, "r": r} for k, g, a, t, s, r in itertools.product(n, GR, (1.5, 2.0, 3.5), (1.0, 3.0, 7.5), (None, 0.7), (1.0, 2.0))] + [
        {"n": 4, "grid": "equiangular", "alpha": a, "tau": 3.0, "sigma": 1.3, "r": 1.0} for a in (0.0, 0.5, 1.0)
    ] + [{"n": k, "grid": g, "alpha": 2.5, "tau": 3.0, "sigma": None, "r": 1.0} for k in (9, 16, 33) for g in GR]


def run_case(c, R):
    from torch_harmonics.random_fields import GaussianRandomFieldS2

    T = torch.as_tensor
    n = c["n"]
    L, M = ref.default_truncation(n, 2 * n, None, None, c["grid"])
    if L < 1:
        return
    SA, SB = [T(a) for a in ref.isht_matrices(n, 2 * n, L, M, c["grid"], "unnorm", True)]
    A = T(ref.sht_matrix(n, 2 * n, L, M, c["grid"], "unnorm", True))
    sig = c["sigma"] if c["sigma"] is not None else c["tau"] ** (c["alpha"] - 1)
    l = np.arange(L)
    C = T(np.broadcast_to((sig * (l * (l + 1) / c["r"] ** 2 + c["tau"] ** 2) ** (-c["alpha"] / 2))[:, None], (L, M)).copy())
    C = torch.tril(C)
    C[0, 0] = 0
    e = torch.eye(L * M, dtype=torch.complex128).reshape(-1, L, M)
    basis = torch.cat([e, 1j * e])
    want = torch.einsum("kjlm,blm->bkj", SA, basis.real * C) + torch.einsum("kjlm,blm->bkj", SB, basis.imag * C)
    scale = max(1.0, float(want.abs().max()))
    for dtype in ("float32", "float64"):
        dt = getattr(torch, dtype)
        for hist in itertools.product(("", "to", "double", "float", "copy", "call"), repeat=2):
            if n > 16 and hist not in (("", ""), ("double", "copy"), ("float", "call")):
                continue
            R.state(dtype, hist, str(sorted(c.items(), key=str)))
            m = GaussianRandomFieldS2(n, alpha=c["alpha"], tau=c["tau"], sigma=c["sigma"], radius=c["r"], grid=c["grid"], dtype=dt)
            cur = dt
            for h in hist:
                if h == "to":
                    m = m.to(torch.device("cpu"))
                elif h == "double":
                    m, cur = m.to(torch.float64), torch.float64
                elif h == "float":
                    m, cur = m.to(torch.float32), torch.float32
                elif h == "copy":
                    import copy

                    m = copy.deepcopy(m)
                elif h == "call":
                    m(1)
                R.step()
            y = m(basis.shape[0], xi=basis.to(torch.complex64 if cur == torch.float32 else torch.complex128))
            R.close(y, want, 3e-6 * scale, 0, f"expansion-{cur}")
            if hist[1] == "call" and hist[0] != "":
                continue
            for N in (1, 3, 70) if hist == ("", "") and n <= 16 else (1, 3):
                torch.manual_seed(11 + N)
                a = m(N)
                b = m(N)
                torch.manual_seed(11 + N)
                R.check(torch.equal(a, m(N)), "reproducible-from-seed")
                R.step(2)
                R.check(tuple(a.shape) == (N, n, 2 * n), "shape", a.shape)
                R.check(a.dtype == cur, "dtype", f"{a.dtype} after {hist} from {dtype}")
                if L > 1:
                    R.check(not torch.equal(a, b), "fresh-noise", "two draws are identical")
                    R.check(len({a[j].numpy().tobytes() for j in range(N)}) == N, "fresh-noise", "two samples of a batch are identical")
                # built-in noise stays inside the modelled spectrum: analysing and re-synthesising reproduces the field
                co = torch.einsum("lmkj,bkj->blm", A, a.to(torch.complex128))
                back = torch.einsum("kjlm,blm->bkj", SA, co.real) + torch.einsum("kjlm,blm->bkj", SB, co.imag)
                R.close(a, back, 1e-5 * max(1.0, float(a.abs().max())), 0, "noise-spectrum")
                R.close(co[:, 0, 0].abs(), torch.zeros(N), 1e-5 * max(1.0, float(a.abs().max())), 0, "noise-mean")
    if c["alpha"] == 2.0 and c["tau"] == 3.0 and c["r"] == 1.0 and L > 1:
        # second moments of the built-in noise (fixed seed, 8 sigma)
        m = GaussianRandomFieldS2(n, alpha=c["alpha"], tau=c["tau"], sigma=c["sigma"], radius=c["r"], grid=c["grid"], dtype=torch.float64)
        torch.manual_seed(5)
        N = 4000
        co = torch.einsum("lmkj,bkj->blm", A, m(N).to(torch.complex128))
        idx = [(a, b) for a in range(1, L) for b in range(min(a, M - 1) + 1)]
        cols = [co[:, a, b].real / C[a, b] for a, b in idx] + [co[:, a, b].imag / C[a, b] for a, b in idx if b > 0]
        X = torch.stack(cols, 1)
        cov = X.T @ X / N
        R.step()
        R.close(cov, torch.eye(cov.shape[0], dtype=torch.float64), 8 * math.sqrt(2.0 / N), 0, "noise-covariance")
        R.close(X.mean(0), torch.zeros(X.shape[1]), 8 / math.sqrt(N), 0, "noise-expectation")
    if c["sigma"] is None:
        for bad in (1.0, 0.5, -1.0):
            R.step()
            try:
                GaussianRandomFieldS2(n, alpha=bad, tau=c["tau"])
                R.fail("invalid-accepted", f"alpha={bad}")
            except ValueError:
                R.trace()
