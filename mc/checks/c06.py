"""Filter bases: values, support, size, isotropy and normalisation on a dense polar lattice."""
import itertools
import math

import numpy as np
import torch

import ref_disco as rd

RULE = (
    "one state per (basis, kernel shape, cutoff); transitions are evaluations on a complete polar lattice (radii inside, at and beyond "
    "the cutoff x angles) and L2 norms; compared with closed-form basis functions (Jacobi/Bessel/hat/trigonometric)"
)
ASSUMPTIONS = ["lattice of evaluation points bounded as stated", "scipy special functions as oracle"]

BASES = (
    [("piecewise linear", k) for k in (1, 2, 3, 4, 5, (3,), (2,), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (5, 4), (6, 5), (7, 3))]
    + [("harmonic", k) for k in (1, 2, 3, (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 5), (5, 4))]
    + [("morlet", k) for k in (2, (2, 3), (3, 3))]
    + [("zernike", k) for k in (1, 2, 3, 4, 5, 6, 7, (3,), (4,))]
    + [("fourier-bessel", k) for k in (1, 2, 3, (2,), (1, 2), (2, 1), (2, 0), (3, 2), (3, 4), (4, 4), (5, 7))]
)


def cases(tier):
    bs = list(BASES)
    if tier != "quick":
        bs += [("piecewise linear", (a, b)) for a in range(1, 10) for b in range(1, 9)]
        bs += [("harmonic", (a, b)) for a in range(1, 7) for b in range(1, 7)]
        bs += [("zernike", a) for a in range(8, 12)]
        bs += [("fourier-bessel", (a, b)) for a in range(1, 7) for b in range(0, 8)]
    cs = [1.0, 0.3, 0.05] if tier == "quick" else [1.0, 0.3, 0.05, 2.2, 0.01, 3.1]
    return [{"b": b, "ks": k if isinstance(k, int) else list(k), "R": R} for b, k in dict.fromkeys(bs) for R in cs]


def run_case(c, R):
    from torch_harmonics.filter_basis import get_filter_basis

    b, ks, rc = c["b"], c["ks"], c["R"]
    ks = ks if isinstance(ks, int) else tuple(ks)
    R.state(b, ks, rc)
    fb = get_filter_basis(kernel_shape=ks, basis_type=b)
    K = rd.kernel_size(b, ks)
    R.check(fb.kernel_size == K, "kernel-size", f"{fb.kernel_size} != {K}")
    R.check([bool(v) for v in fb.isotropic_mask] == rd.isotropic(b, ks), "isotropic-mask", f"{fb.isotropic_mask}")
    # radii chosen off the hat boundaries, including the centre neighbourhood, and beyond the cutoff
    rr = np.array([1e-3, 0.011, 0.07, 0.13, 0.21, 0.29, 0.37, 0.41, 0.53, 0.59, 0.61, 0.71, 0.79, 0.83, 0.91, 0.97, 0.9999, 1.0001, 1.1, 1.5, 2.3]) * rc
    pp = np.concatenate([np.linspace(0, 2 * math.pi, 37, endpoint=False) + 0.0123, [1e-6, 2 * math.pi - 1e-6]])
    for shape in ("grid", "row", "col"):
        r, p = np.meshgrid(rr, pp, indexing="ij")
        if shape == "row":
            r, p = r[:1] * 0 + 0.35 * rc, p[:1]
        elif shape == "col":
            r, p = r[:, :1], p[:, :1]
        v, mem, amb = rd.basis_values(b, ks, r, p, rc)
        for dt in (torch.float64, torch.float32):
            iidx, vals = fb.compute_support_vals(torch.as_tensor(r).to(dt), torch.as_tensor(p).to(dt), r_cutoff=rc)
            R.step()
            dense = torch.zeros(v.shape, dtype=torch.float64)
            cnt = torch.zeros(v.shape, dtype=torch.int64)
            i = iidx.t()
            R.check(iidx.dim() == 2 and iidx.shape[1] == 3 and iidx.shape[0] == vals.shape[0], "index-format", f"{iidx.shape}")
            dense.index_put_((i[0], i[1], i[2]), vals.double(), accumulate=True)
            cnt.index_put_((i[0], i[1], i[2]), torch.ones_like(i[0]), accumulate=True)
            R.check(int(cnt.max()) <= 1 if cnt.numel() and iidx.shape[0] else True, "duplicate-index")
            tol = 1e-9 if dt == torch.float64 else 2e-4
            if b == "zernike" and dt == torch.float64:
                tol = 1e-7
            R.close(dense, torch.as_tensor(v), tol * max(1.0, np.abs(v).max()), 0, f"basis-values-{dt}".replace("torch.", ""))
            R.check(not bool((cnt[:, torch.as_tensor(r > rc * 1.00005)] > 0).any()), "support-beyond-cutoff")
            if dt == torch.float64 and not amb["member"]:
                R.check(torch.equal(cnt > 0, torch.as_tensor(mem)), "support-set")
            # lexicographic order is what the sparse layout relies on
            key = (i[0] * 10000 + i[1]) * 10000 + i[2]
            R.check(bool((key[1:] > key[:-1]).all()), "index-order")
        # functions flagged isotropic do not depend on the angle
        for k, iso in enumerate(fb.isotropic_mask):
            if iso and shape == "grid":
                R.check(float((dense[k].max(1).values - dense[k].min(1).values).abs().max()) < 1e-3, "isotropy", f"k={k}")
    # unit L2 norm on the disk where the basis promises it (fine quadrature)
    if b in ("harmonic", "zernike", "fourier-bessel") and rc == 1.0:
        xg, wg = np.polynomial.legendre.leggauss(80)
        r1, w1 = 0.5 * (xg + 1), 0.5 * wg
        ph = np.arange(128) * 2 * math.pi / 128
        r, p = np.meshgrid(r1, ph, indexing="ij")
        iidx, vals = fb.compute_support_vals(torch.as_tensor(r), torch.as_tensor(p), r_cutoff=1.0)
        d = torch.zeros((K,) + r.shape, dtype=torch.float64)
        i = iidx.t()
        d[i[0], i[1], i[2]] = vals.double()
        w = torch.as_tensor(np.outer(w1 * r1, np.full(128, 2 * math.pi / 128)))
        n2 = (d**2 * w).sum((-2, -1))
        R.step()
        R.close(n2, torch.ones(K, dtype=torch.float64), 5e-3 if b == "harmonic" else 1e-6, 0, "unit-norm")
        if b in ("zernike", "fourier-bessel"):
            gram = torch.einsum("aij,bij,ij->ab", d, d, w)
            R.close(gram, torch.eye(K, dtype=torch.float64), 1e-6, 0, "orthonormal")
        l2 = fb.compute_l2_norms(r_cutoff=1.0)
        R.close(l2 if b != "fourier-bessel" else torch.ones(K, dtype=torch.float64), torch.ones(K, dtype=torch.float64), 2e-2, 0, "l2-norms")
    f = fb.get_init_factors()
    R.close(f, torch.full((K,), K**-0.5), 1e-6, 0, "init-factors")
    for bad in ("no such basis", "Zernike"):
        try:
            get_filter_basis(kernel_shape=3, basis_type=bad)
            R.fail("unknown-basis-accepted", bad)
        except ValueError:
            pass
