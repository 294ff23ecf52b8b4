"""DISCO convolution = documented quadrature of rotated, normalised filters: whole operator recovered by impulses."""
import itertools
import math

import numpy as np
import torch

import ref
import ref_disco as rd

RULE = (
    "one state per (grids, in/out shape, basis, kernel shape, normalisation, cutoff) layer; the whole linear operator of the real layer is "
    "recovered by feeding the complete impulse basis with a unit weight per filter function, and compared entry by entry with a dense "
    "operator built from great-circle geometry and closed-form filters; layers whose filter is decided by rounding are counted as skipped"
)
ASSUMPTIONS = ["linearity in field and weights", "configurations where a grid point lies on the filter boundary within 1e-8 are skipped and counted", "sizes bounded as stated; CPU"]
GR = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
MODES = ["none", "nodal", "modal", "mean", "support", "geometric", "individual", "area ratio"]
BAS = [
    ("piecewise linear", 1), ("piecewise linear", 3), ("piecewise linear", (2,)), ("piecewise linear", 4), ("piecewise linear", (2, 2)), ("piecewise linear", (3, 3)),
    ("piecewise linear", (3, 4)), ("piecewise linear", (2, 4)), ("harmonic", (1, 2)), ("harmonic", (2, 2)), ("harmonic", (3, 3)), ("morlet", (2, 3)),
    ("zernike", 1), ("zernike", 2), ("zernike", 3), ("zernike", 4), ("fourier-bessel", (1, 1)), ("fourier-bessel", (2, 2)), ("fourier-bessel", (3, 1)),
]  # fmt: skip
SHAPES = [((3, 4), (3, 4)), ((4, 6), (3, 3)), ((5, 8), (5, 8)), ((5, 8), (3, 4)), ((6, 9), (4, 3)), ((4, 8), (7, 8)), ((5, 12), (4, 3)), ((4, 5), (5, 1)), ((3, 5), (6, 5))]


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = SHAPES if q else SHAPES + [((7, 14), (7, 14)), ((8, 16), (4, 8)), ((9, 12), (5, 12)), ((9, 15), (6, 5)), ((10, 20), (10, 10))]
    for (i, o), gi, go in itertools.product(shapes, GR, GR):
        if q and gi != go and gi in ("lobatto", "equiangular-trapezoidal") and go in ("lobatto", "equiangular-trapezoidal"):
            continue
        for b, k in BAS:
            out.append({"i": list(i), "o": list(o), "gi": gi, "go": go, "b": b, "ks": k if isinstance(k, int) else list(k)})
    # large grids: thresholds on the resolution
    for (i, o), (b, k), g in itertools.product([((24, 48), (24, 48)), ((33, 40), (20, 20)), ((20, 66), (33, 33))], [("piecewise linear", (2, 3)), ("zernike", 2), ("harmonic", (2, 2))], GR[:2]):
        out.append({"i": list(i), "o": list(o), "gi": g, "go": g, "b": b, "ks": k if isinstance(k, int) else list(k), "big": True})
    return out


def run_case(c, R):
    import torch_harmonics as th

    i, o = tuple(c["i"]), tuple(c["o"])
    b, ks = c["b"], c["ks"]
    ks = ks if isinstance(ks, int) else tuple(ks)
    K = rd.kernel_size(b, ks)
    base = math.pi / (o[0] - 1)
    n = i[0] * i[1]
    x = torch.eye(n, dtype=torch.float64).reshape(n, 1, *i)
    for mode, cf in itertools.product(MODES, (None, 0.55, 1.37, 2.2)):
        if mode in ("individual", "area ratio") and cf is not None:
            continue
        if c.get("big") and (mode, cf) not in (("nodal", 1.37), ("none", 0.55), ("modal", 2.2), ("geometric", 1.37), ("mean", None)):
            continue
        cut = base if cf is None else base * cf
        if cut >= math.pi:
            continue
        psi, ok, mem = rd.psi_dense(i, o, c["gi"], c["go"], b, ks, cut, mode, False)
        if not ok:
            R.note("skipped-ill-conditioned")
            continue
        R.state(mode, cf, tuple(sorted((k, str(v)) for k, v in c.items())))
        m = th.DiscreteContinuousConvS2(1, K, i, o, ks, basis_type=b, basis_norm_mode=mode, grid_in=c["gi"], grid_out=c["go"], bias=False, theta_cutoff=None if cf is None else cut).double()
        with torch.no_grad():
            m.weight.copy_(torch.eye(K, dtype=torch.float64).reshape(K, 1, K))
        R.check(abs(m.theta_cutoff - cut) < 1e-12, "default-cutoff", f"{m.theta_cutoff} {cut}")
        with torch.no_grad():
            y = m(x)
        R.step()
        op = rd.conv_operator(psi, o[1])
        want = torch.as_tensor(np.moveaxis(op.reshape(K, o[0], o[1], n), -1, 0).copy())
        R.close(y, want, 2e-6 * max(1.0, float(want.abs().max())), 0, f"operator-{mode}")
        # shift by one output cell commutes exactly (p-shift symmetry)
        ps = i[1] // o[1]
        xs = torch.as_tensor(ref.pattern(1, 1, *i))
        with torch.no_grad():
            y0, y1 = m(xs), m(torch.roll(xs, ps, -1))
        R.step(2)
        R.close(y1, torch.roll(y0, 1, -1), 1e-10 * max(1.0, float(y0.abs().max())), 0, "rotation")
    for bad in ({"out_shape": (o[0], i[1] + 1)}, {"theta_cutoff": 0.0}, {"theta_cutoff": -1.0}, {"basis_norm_mode": "no-such-mode"}):
        kw = dict(in_shape=i, out_shape=o, theta_cutoff=base, basis_norm_mode="nodal")
        kw.update(bad)
        R.step()
        try:
            th.DiscreteContinuousConvS2(1, 1, kw["in_shape"], kw["out_shape"], 3, theta_cutoff=kw["theta_cutoff"], basis_norm_mode=kw["basis_norm_mode"])
            R.fail("invalid-accepted", str(bad))
        except ValueError:
            R.trace()
