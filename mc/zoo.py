"""Factories for every public serial component, with a deterministic input and a fingerprint."""
import hashlib
import math

import torch

import ref


def _p(m):
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(torch.as_tensor(ref.cpattern(*p.shape)) if p.is_complex() else torch.as_tensor(ref.pattern(*p.shape, k=j)))
    return m


def _x(*shape, k=0):
    return torch.as_tensor(ref.pattern(*shape, k=k))


def zoo():
    import torch_harmonics as th

    z = {}

    def add(name, make, args, param=False):
        z[name] = (make, args)

    for g in ("equiangular", "legendre-gauss", "lobatto"):
        add(f"sht-{g}", lambda g=g: th.RealSHT(5, 8, grid=g), lambda: [_x(2, 5, 8)])
        add(f"isht-{g}", lambda g=g: th.InverseRealSHT(5, 8, lmax=3, mmax=3, grid=g), lambda: [torch.as_tensor(ref.cpattern(2, 3, 3))])
    add("sht-schmidt", lambda: th.RealSHT(5, 8, norm="schmidt", csphase=False), lambda: [_x(2, 5, 8)])
    add("sht-lm", lambda: th.RealSHT(5, 8, lmax=3, mmax=2), lambda: [_x(2, 5, 8)])
    add("vsht", lambda: th.RealVectorSHT(5, 8), lambda: [_x(1, 2, 5, 8)])
    add("ivsht", lambda: th.InverseRealVectorSHT(5, 8, lmax=3, mmax=3), lambda: [torch.as_tensor(ref.cpattern(1, 2, 3, 3))])
    for opt in (True, False):
        add(f"conv-{opt}", lambda opt=opt: _p(th.DiscreteContinuousConvS2(4, 2, (5, 8), (3, 4), (2, 2), groups=2, optimized_kernel=opt, theta_cutoff=1.2, grid_in="legendre-gauss")), lambda: [_x(2, 4, 5, 8)])
        add(f"convT-{opt}", lambda opt=opt: _p(th.DiscreteContinuousConvTransposeS2(2, 4, (3, 4), (5, 8), (2, 2), groups=2, optimized_kernel=opt, theta_cutoff=1.2, grid_out="legendre-gauss")), lambda: [_x(2, 2, 3, 4)])
        add(f"attn-{opt}", lambda opt=opt: _p(th.NeighborhoodAttentionS2(4, (4, 6), (3, 3), num_heads=2, theta_cutoff=1.3, use_qknorm=True, optimized_kernel=opt)), lambda: [_x(1, 4, 3, 3), _x(1, 4, 4, 6, k=1), _x(1, 4, 4, 6, k=2)])
        add(f"attn-up-{opt}", lambda opt=opt: _p(th.NeighborhoodAttentionS2(2, (3, 3), (4, 6), theta_cutoff=1.7, optimized_kernel=opt)), lambda: [_x(1, 2, 4, 6), _x(1, 2, 3, 3, k=1), _x(1, 2, 3, 3, k=2)])
    add("conv-fused", lambda: _p(th.DiscreteContinuousConvS2(4, 2, (5, 8), (3, 4), 3, fused=True)), lambda: [_x(2, 4, 5, 8)])
    add("conv-savex", lambda: _p(th.DiscreteContinuousConvS2(4, 1, (5, 8), (5, 8), (2, 2), theta_cutoff=1.2, grid_in="legendre-gauss")), lambda: [_x(2, 4, 5, 8)])
    add("conv-zernike", lambda: _p(th.DiscreteContinuousConvS2(1, 1, (5, 8), (3, 4), 2, basis_type="zernike", basis_norm_mode="modal", theta_cutoff=1.3)), lambda: [_x(1, 1, 5, 8)])
    add("conv-fb", lambda: _p(th.DiscreteContinuousConvS2(1, 1, (5, 8), (3, 4), (2, 1), basis_type="fourier-bessel", basis_norm_mode="geometric", theta_cutoff=1.3)), lambda: [_x(1, 1, 5, 8)])
    # pairs that differ in exactly one argument: any under-specified cache key shows up
    kw = dict(theta_cutoff=1.2, bias=False, basis_norm_mode="none")
    for j, alt in enumerate(({}, {"grid_in": "legendre-gauss"}, {"grid_out": "legendre-gauss"}, {"theta_cutoff": 1.0}, {"basis_norm_mode": "geometric"}, {"basis_type": "harmonic", "_ks": (1, 2)}, {"basis_type": "morlet", "_ks": (1, 2)}, {"_ks": (1, 2)}, {"_in": (5, 12)}, {"_in": (6, 8)}, {"_out": (4, 4)}, {"theta_cutoff": 1.2003}, {"theta_cutoff": 1.200001}, {"_ks": (2,)}, {"_ks": (2, 1)}, {"basis_norm_mode": "nodal"}, {"basis_type": "zernike"})):
        k2 = {**kw, **alt}
        ks, i, o = k2.pop("_ks", 2), k2.pop("_in", (5, 8)), k2.pop("_out", (3, 4))
        add(f"conv-alt{j}", lambda k2=k2, ks=ks, i=i, o=o: _p(th.DiscreteContinuousConvS2(1, 1, i, o, ks, **k2)), lambda i=i: [_x(1, 1, *i)])
        if j in (0, 1, 2, 3, 4):
            k3 = dict(k2)
            k3["grid_in"], k3["grid_out"] = k2.get("grid_out", "equiangular"), k2.get("grid_in", "equiangular")
            add(f"convT-alt{j}", lambda k3=k3, ks=ks, i=i, o=o: _p(th.DiscreteContinuousConvTransposeS2(1, 1, o, i, ks, **k3)), lambda o=o: [_x(1, 1, *o)])
    for j, alt in enumerate(({"norm": "unnorm"}, {"csphase": False}, {"lmax": 2, "mmax": 2}, {"mmax": 2})):
        add(f"isht-alt{j}", lambda alt=alt: th.InverseRealSHT(5, 8, **{"lmax": 3, "mmax": 3, **alt}), lambda alt=alt: [torch.as_tensor(ref.cpattern(2, min(alt.get("lmax", 3), alt.get("mmax", 3)), min(alt.get("lmax", 3), alt.get("mmax", 3))))])
        add(f"ivsht-alt{j}", lambda alt=alt: th.InverseRealVectorSHT(5, 8, **{"lmax": 3, "mmax": 3, **alt}), lambda alt=alt: [torch.as_tensor(ref.cpattern(2, 2, min(alt.get("lmax", 3), alt.get("mmax", 3)), min(alt.get("lmax", 3), alt.get("mmax", 3))))])
        add(f"sht-alt{j}", lambda alt=alt: th.RealSHT(5, 8, **{"lmax": 3, "mmax": 3, **alt}), lambda: [_x(2, 5, 8)])
        add(f"vsht-alt{j}", lambda alt=alt: th.RealVectorSHT(5, 8, **{"lmax": 3, "mmax": 3, **alt}), lambda: [_x(2, 2, 5, 8)])
    at = dict(theta_cutoff=1.3, num_heads=1, bias=False)
    for j, alt in enumerate(({}, {"grid_in": "legendre-gauss"}, {"grid_out": "legendre-gauss"}, {"theta_cutoff": 1.0}, {"_in": (5, 6)}, {"_in": (4, 9)}, {"_out": (4, 3)}, {"grid_in": "lobatto", "grid_out": "lobatto"})):
        k2 = {**at, **alt}
        i, o = k2.pop("_in", (4, 6)), k2.pop("_out", (3, 3))
        add(f"attn-alt{j}", lambda k2=k2, i=i, o=o: _p(th.NeighborhoodAttentionS2(2, i, o, **k2)), lambda i=i, o=o: [_x(1, 2, *o), _x(1, 2, *i, k=1), _x(1, 2, *i, k=2)])
    for j, alt in enumerate(({}, {"grid_in": "lobatto"}, {"grid_out": "lobatto"})):
        add(f"gattn-alt{j}", lambda alt=alt: _p(th.AttentionS2(2, 1, (4, 6), (3, 3), **alt)), lambda: [_x(1, 2, 3, 3), _x(1, 2, 4, 6, k=1), _x(1, 2, 4, 6, k=2)])
        add(f"resample-alt{j}", lambda alt=alt: th.ResampleS2(4, 6, 5, 8, **alt), lambda: [_x(2, 4, 6)])
        add(f"spec-alt{j}", lambda alt=alt: _p(th.SpectralConvS2((5, 8), (4, 6), 2, 2, **alt)), lambda: [_x(2, 2, 5, 8)])
    for j, alt in enumerate(({}, {"normalize": True}, {"grid": "legendre-gauss"})):
        add(f"quad-alt{j}", lambda alt=alt: th.QuadratureS2((5, 8), **alt), lambda: [_x(2, 3, 5, 8)])
    add("gattn", lambda: _p(th.AttentionS2(4, 2, (4, 6), (3, 3), use_qknorm=True, scale=0.4)), lambda: [_x(1, 4, 3, 3), _x(1, 4, 4, 6, k=1), _x(1, 4, 4, 6, k=2)])
    add("spec", lambda: _p(th.SpectralConvS2((5, 8), (4, 6), 4, 2, num_groups=2, bias=True)), lambda: [_x(2, 4, 5, 8)])
    add("resample", lambda: th.ResampleS2(4, 6, 5, 8, grid_in="legendre-gauss"), lambda: [_x(2, 4, 6)])
    add("resample-sph", lambda: th.ResampleS2(4, 6, 5, 8, mode="bilinear-spherical"), lambda: [_x(2, 4, 6)])
    add("quad", lambda: th.QuadratureS2((5, 8), grid="lobatto"), lambda: [_x(2, 3, 5, 8)])
    return z


def native(name):
    """dtypes a component computes in, in the state it is constructed in"""
    if name.startswith(("attn", "spec", "gattn", "conv")):
        return torch.float32
    return torch.float64


def feed(args, dt):
    cd = torch.complex128 if dt == torch.float64 else torch.complex64
    return [a.to(cd) if a.is_complex() else a.to(dt) for a in args]


def thash(t):
    t = t.detach()
    if t.is_sparse:
        t = t.coalesce()
        return thash(t.indices()) + thash(t.values())
    if t.is_complex():
        t = torch.view_as_real(t)
    if t.dtype == torch.bfloat16:
        t = t.float()
    return hashlib.blake2b(t.contiguous().numpy().tobytes() + repr((tuple(t.shape), t.dtype)).encode(), digest_size=8).hexdigest()


def tensors_of(obj, depth=0):
    """every tensor reachable from a module, its plain attributes included"""
    out = []
    if isinstance(obj, torch.Tensor):
        return [obj]
    if isinstance(obj, (list, tuple)):
        for o in obj:
            out += tensors_of(o, depth + 1)
    elif isinstance(obj, dict):
        for o in obj.values():
            out += tensors_of(o, depth + 1)
    elif isinstance(obj, torch.nn.Module):
        for v in (obj._parameters, obj._buffers, obj._modules, {k: v for k, v in obj.__dict__.items() if not k.startswith("_") and k != "filter_basis"}):
            out += tensors_of(v, depth + 1)
    return [t for t in out if isinstance(t, torch.Tensor)]
