"""Spectral convolution = SHT, degree-wise grouped channel mixing (plus integral-modulated bias), inverse SHT."""
import itertools
import math

import numpy as np
import torch

import ref
from checks.c08 import layout, LAYOUTS

RULE = "one state per (in/out shape, in/out grid) x (groups, channels) x bias x batch x dtype x gradient subset; value and all gradients compared with dense transform matrices"
ASSUMPTIONS = ["layer computes in float32 (documented by its complex64 weights); tolerance 2e-5 relative", "TorchDynamo disabled: the compiled contraction runs eagerly"]
GR = ["equiangular", "legendre-gauss", "lobatto"]
SH = [((3, 4), (3, 4)), ((4, 8), (4, 8)), ((5, 8), (3, 6)), ((4, 6), (7, 12)), ((6, 3), (5, 9)), ((7, 5), (4, 2)), ((5, 1), (3, 4)), ((8, 16), (5, 7)), ((3, 5), (8, 16))]
CH = [(a * g, b * g, g) for a, b, g in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))] + [(5, 2, 1), (2, 5, 1), (8, 4, 4)]


def cases(tier):
    q = tier == "quick"
    sh = SH if q else SH + [((n, 2 * n), (k, 2 * k)) for n in (6, 9, 12) for k in (5, 10)]
    out = []
    for k, ((i, o), gi, go) in enumerate(itertools.product(sh, GR, GR)):
        # quick: the complete channel lattice on one grid pair per shape pair, a third of it on the others
        for n, ch in enumerate(CH):
            if q and (gi, go) != (GR[(k // 9) % 3], GR[(k // 9 + 1) % 3]) and (n + n // 3 + n // 9) % 3 != k % 3:
                continue
            out.append({"i": list(i), "o": list(o), "gi": gi, "go": go, "ch": list(ch)})
    # wide and large layers
    for k, ((i, o), ch) in enumerate(itertools.product([((24, 48), (20, 30)), ((17, 32), (33, 40)), ((20, 40), (20, 40))], [(2, 3, 1), (33, 17, 1), (32, 64, 16), (18, 18, 18)])):
        out.append({"i": list(i), "o": list(o), "gi": GR[k % 3], "go": GR[(k + k // 3) % 3], "ch": list(ch)})
    return out


def mx(t):
    return max(1.0, float(t.abs().max())) if t.numel() else 1.0


def run_case(c, R):
    import torch_harmonics as th

    T = torch.as_tensor
    i, o = tuple(c["i"]), tuple(c["o"])
    ci, co, g = c["ch"]
    li, mi = ref.default_truncation(*i, None, None, c["gi"])
    lo, mo = ref.default_truncation(*o, None, None, c["go"])
    L = min(li, lo, mi, mo)
    if L < 1:
        return
    A = T(ref.sht_matrix(*i, L, L, c["gi"], "ortho", True))
    SA, SB = [T(a) for a in ref.isht_matrices(*o, L, L, c["go"], "ortho", True)]
    _, w = ref.colatitudes(i[0], c["gi"])
    W = T(w).reshape(-1, 1) * (2 * math.pi / i[1]) * torch.ones(i, dtype=torch.float64)
    batches = (0, 1, 2, 5, 65) if (ci, co, g) in ((2, 1, 1), (4, 2, 2)) and i[0] < 9 else (1, 2)
    for bias, B, dtype in itertools.product((False, True), batches, ("float32", "float64", "bfloat16")):
        if B not in (1, 2) and dtype != "float32":
            continue
        m = th.SpectralConvS2(i, o, ci, co, num_groups=g, grid_in=c["gi"], grid_out=c["go"], bias=bias)
        R.check((m.lmax, m.mmax) == (L, L), "truncation", f"{(m.lmax, m.mmax)} {L}")
        with torch.no_grad():
            m.weight.copy_(T(ref.cpattern(*m.weight.shape)))
            if bias:
                m.spectral_bias.copy_(T(ref.cpattern(*m.spectral_bias.shape)).roll(1, -1))
        names = ["x", "w"] + (["b"] if bias else [])
        dt = getattr(torch, dtype)
        x0 = T(ref.pattern(B, ci, *i)).to(dt) if B else torch.zeros(B, ci, *i, dtype=dt)
        with torch.no_grad():
            y0 = m(x0)
            for kind in LAYOUTS[1:] if B else ():
                xs = layout(x0, kind)
                if torch.equal(xs, x0):  # (the expanded layout is a different field)
                    R.step()
                    R.close(m(xs), y0.double(), (2e-2 if dtype == "bfloat16" else 2e-5) * mx(y0), 0, f"layout-{kind}-{dtype}")
            if dtype != "bfloat16":
                with torch.autocast("cpu", dtype=torch.bfloat16):
                    R.step()
                    R.close(m(x0), y0.double(), 3e-2 * mx(y0), 0, f"autocast-{dtype}")
        for r in range(len(names) + 1):
            for sub in itertools.combinations(names, r):
                if (dtype != "float32" or i[0] > 14) and r not in (0, len(names)):
                    continue
                R.state(bias, B, dtype, sub, str(sorted(c.items())))
                x = x0.clone().requires_grad_("x" in sub)
                xr = x0.double().clone().requires_grad_("x" in sub)
                m.weight.requires_grad_("w" in sub)
                wr = m.weight.detach().to(torch.complex128).clone().requires_grad_("w" in sub)
                br = None
                if bias:
                    m.spectral_bias.requires_grad_("b" in sub)
                    br = m.spectral_bias.detach().to(torch.complex128).clone().requires_grad_("b" in sub)
                m.zero_grad(set_to_none=True)
                y = m(x)
                u = torch.einsum("lmkj,bckj->bclm", A, xr.to(torch.complex128))
                if bias:
                    u = u + (xr * W).sum((-1, -2))[..., None, None] * br
                v = torch.einsum("bgilm,giol->bgolm", u.reshape(B, g, ci // g, L, L), wr).reshape(B, co, L, L)
                want = torch.einsum("kjlm,bclm->bckj", SA, v.real) + torch.einsum("kjlm,bclm->bckj", SB, v.imag)
                R.step()
                tol = 2e-2 if dtype == "bfloat16" else 2e-5
                R.check(y.dtype == dt, "dtype", y.dtype)
                R.close(y, want, tol * mx(want), 0, f"forward-{dtype}")
                R.check(torch.equal(x.detach(), x0), "input-modified")
                if sub:
                    ct = T(ref.pattern(*want.shape, k=5)).to(dt) if B else torch.zeros_like(want).to(dt)
                    y.backward(ct)
                    want.backward(ct.double())
                    R.step()
                    for n, got, wg in (("x", x.grad, xr.grad), ("w", m.weight.grad, wr.grad), ("b", m.spectral_bias.grad if bias else None, br.grad if bias else None)):
                        if n in sub:
                            R.close(got, wg, tol * mx(wg), 0, f"grad-{n}-{dtype}")
                        else:
                            R.check(got is None, "grad-unwanted", n)
    if g > 1:
        for a, b in ((ci + 1, co), (ci, co + 1)):
            R.step()
            try:
                th.SpectralConvS2(i, o, a, b, num_groups=g)
                R.fail("invalid-accepted", f"{a} {b} {g}")
            except (ValueError, AssertionError):
                R.trace()
