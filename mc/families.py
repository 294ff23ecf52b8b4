"""Families of component configurations whose members differ from the first in one (or two) arguments, near values included."""
import torch

import ref
from zoo import _p, _x


def _c(*s, k=0):
    return torch.as_tensor(ref.cpattern(*s, k=k))


class _Field(torch.nn.Module):
    def __init__(self, n, **kw):
        super().__init__()
        from torch_harmonics.random_fields import GaussianRandomFieldS2

        self.m = GaussianRandomFieldS2(n, dtype=torch.float64, **kw)

    def forward(self, xi):
        return self.m(xi.shape[0], xi=xi)


def _transforms():
    alts = [{}, {"nlat": 5}, {"nlat": 7}, {"nlat": 12}, {"nlon": 9}, {"nlon": 11}, {"nlon": 12}, {"nlon": 20}, {"nlat": 10, "nlon": 6}]
    alts += [{"lmax": 2}, {"lmax": 3}, {"lmax": 4}, {"mmax": 2}, {"mmax": 3}, {"lmax": 3, "mmax": 2}, {"lmax": 2, "mmax": 3}]
    alts += [{"grid": "legendre-gauss"}, {"grid": "lobatto"}, {"grid": "legendre-gauss", "nlat": 5}, {"grid": "lobatto", "nlat": 7}]
    alts += [{"norm": "schmidt"}, {"norm": "unnorm"}, {"csphase": False}, {"norm": "schmidt", "csphase": False}, {"norm": "unnorm", "csphase": False}, {"grid": "lobatto", "norm": "unnorm"}]
    return [dict({"nlat": 6, "nlon": 10, "lmax": None, "mmax": None, "grid": "equiangular", "norm": "ortho", "csphase": True}, **a) for a in alts]


def families():
    import torch_harmonics as th

    F = {}
    for name, cls in (("sht", "RealSHT"), ("isht", "InverseRealSHT"), ("vsht", "RealVectorSHT"), ("ivsht", "InverseRealVectorSHT")):
        mem = []
        for a in _transforms():
            L, M = ref.default_truncation(a["nlat"], a["nlon"], a["lmax"], a["mmax"], a["grid"])
            lead = (2, 2) if "v" in name else (2,)
            mem.append((a, lambda a=a, cls=cls: getattr(th, cls)(**a), (lambda a=a, lead=lead: [_x(*lead, a["nlat"], a["nlon"])]) if "i" not in name else (lambda L=L, M=M, lead=lead: [_c(*lead, L, M)])))
        F[name] = mem
    base = {"in_channels": 2, "out_channels": 2, "in_shape": (6, 12), "out_shape": (6, 12), "kernel_shape": (2, 2), "theta_cutoff": 1.2, "bias": False}
    alts = [{}, {"in_shape": (5, 12)}, {"in_shape": (6, 24)}, {"out_shape": (3, 6)}, {"out_shape": (4, 12)}, {"out_shape": (6, 4)}, {"kernel_shape": 2}, {"kernel_shape": (2,)}, {"kernel_shape": (2, 1)}, {"kernel_shape": (1, 2)}, {"kernel_shape": 3}, {"kernel_shape": (3, 1)}, {"kernel_shape": (2, 3)}]
    alts += [{"theta_cutoff": t} for t in (1.2001, 1.201, 1.25, 1.0, 2.4, None)]
    alts += [{"grid_in": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_out": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_in": "lobatto", "grid_out": "lobatto"}]
    alts += [{"basis_type": b, "kernel_shape": k} for b, k in (("zernike", 2), ("zernike", 3), ("harmonic", (2, 2)), ("harmonic", (1, 2)), ("morlet", (2, 2)), ("morlet", (1, 2)), ("fourier-bessel", (2, 2)), ("fourier-bessel", (2, 1)))]
    alts += [{"basis_norm_mode": b} for b in ("none", "modal", "geometric")] + [{"basis_type": "zernike", "kernel_shape": 2, "basis_norm_mode": b} for b in ("none", "modal", "geometric")]
    alts += [{"groups": 2}, {"bias": True}, {"optimized_kernel": False}, {"in_channels": 4}, {"out_channels": 4}]
    for name, cls in (("conv", "DiscreteContinuousConvS2"), ("convT", "DiscreteContinuousConvTransposeS2")):
        mem = []
        for a in alts:
            a = {**base, **a}
            if name == "convT":
                a["in_shape"], a["out_shape"] = a["out_shape"], a["in_shape"]
                a = {{"grid_in": "grid_out", "grid_out": "grid_in"}.get(k, k): v for k, v in a.items()}
            mem.append((a, lambda a=a, cls=cls: _p(getattr(th, cls)(**a)), lambda a=a: [_x(1, a["in_channels"], *a["in_shape"])]))
        F[name] = mem
    # both directions in one family: the same shapes, grids and basis, only the direction differs
    F["conv+convT"] = [F[n][i] for i in (0, 1, 3, 13, 19, 21, 32, 33, 34) for n in ("conv", "convT")]
    base = {"in_channels": 2, "in_shape": (6, 12), "out_shape": (6, 12), "theta_cutoff": 1.2}
    alts = [{}, {"in_shape": (5, 12)}, {"in_shape": (6, 24)}, {"out_shape": (3, 6)}, {"out_shape": (4, 12)}, {"out_shape": (6, 24)}, {"out_shape": (7, 36)}, {"theta_cutoff": 1.25}, {"theta_cutoff": 1.0}, {"theta_cutoff": None}, {"theta_cutoff": 2.0}]
    alts += [{"grid_in": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_out": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_in": "lobatto", "grid_out": "lobatto"}]
    alts += [{"num_heads": 2}, {"scale": 0.3}, {"use_qknorm": True}, {"bias": False}, {"k_channels": 4}, {"out_channels": 4}, {"optimized_kernel": False}, {"in_channels": 4}]
    F["attn"] = [(a, lambda a=a: _p(th.NeighborhoodAttentionS2(**a)), lambda a=a: [_x(1, a["in_channels"], *a["out_shape"]), _x(1, a["in_channels"], *a["in_shape"], k=1), _x(1, a["in_channels"], *a["in_shape"], k=2)]) for a in ({**base, **b} for b in alts)]
    base = {"in_channels": 2, "num_heads": 1, "in_shape": (6, 12), "out_shape": (6, 12)}
    alts = [{}, {"in_shape": (5, 12)}, {"in_shape": (6, 24)}, {"out_shape": (3, 6)}, {"out_shape": (4, 12)}] + [{"grid_in": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_out": g} for g in ("legendre-gauss", "lobatto")] + [{"num_heads": 2}, {"scale": 0.3}, {"use_qknorm": True}, {"bias": False}]
    F["gattn"] = [(a, lambda a=a: _p(th.AttentionS2(**a)), lambda a=a: [_x(1, 2, *a["out_shape"]), _x(1, 2, *a["in_shape"], k=1), _x(1, 2, *a["in_shape"], k=2)]) for a in ({**base, **b} for b in alts)]
    base = {"in_shape": (6, 12), "out_shape": (6, 12), "in_channels": 2, "out_channels": 2}
    alts = [{}, {"in_shape": (5, 12)}, {"in_shape": (6, 9)}, {"out_shape": (4, 12)}, {"out_shape": (6, 7)}, {"num_groups": 2}, {"bias": True}] + [{"grid_in": g} for g in ("legendre-gauss", "lobatto")] + [{"grid_out": g} for g in ("legendre-gauss", "lobatto")] + [{"in_channels": 4}, {"out_channels": 4}]
    F["spec"] = [(a, lambda a=a: _p(th.SpectralConvS2(**a)), lambda a=a: [_x(1, a["in_channels"], *a["in_shape"])]) for a in ({**base, **b} for b in alts)]
    G = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
    base = {"nlat_in": 6, "nlon_in": 12, "nlat_out": 6, "nlon_out": 12}
    alts = [{}, {"nlat_in": 5}, {"nlon_in": 9}, {"nlat_out": 4}, {"nlat_out": 7}, {"nlon_out": 7}, {"nlon_out": 24}, {"mode": "bilinear-spherical", "nlat_out": 7}, {"mode": "bilinear-spherical", "nlon_out": 7}] + [{"grid_in": g} for g in G[1:]] + [{"grid_out": g} for g in G[1:]] + [{"grid_in": g, "grid_out": g} for g in G[1:]]
    F["resample"] = [(a, lambda a=a: th.ResampleS2(**a), lambda a=a: [_x(2, a["nlat_in"], a["nlon_in"])]) for a in ({**base, **b} for b in alts)]
    alts = [{"img_shape": s, "grid": g, "normalize": n} for s in ((6, 12), (12, 6), (6, 11), (7, 12)) for g in G for n in (False, True)]
    F["quad"] = [(a, lambda a=a: th.QuadratureS2(**a), lambda a=a: [_x(2, 3, *a["img_shape"])]) for a in alts]
    base = {"n": 6, "alpha": 2.0, "tau": 3.0, "sigma": None, "radius": 1.0, "grid": "equiangular"}
    alts = [{}, {"n": 5}, {"n": 8}, {"alpha": 2.5}, {"tau": 2.0}, {"sigma": 2.0}, {"radius": 2.0}, {"grid": "legendre-gauss"}, {"grid": "lobatto"}]
    mem = []
    for b in alts:
        a = {**base, **b}
        L, M = ref.default_truncation(a["n"], 2 * a["n"], None, None, a["grid"])
        mem.append((a, lambda a=a: _Field(**a), lambda L=L, M=M: [_c(2, L, M)]))
    F["field"] = mem
    return F


def native(fam):
    return torch.float32 if fam.startswith(("conv", "attn", "gattn", "spec")) else torch.float64
