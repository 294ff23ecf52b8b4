"""Dense reference model of DISCO filters and convolutions (numpy, float64)."""
import functools
import math

import numpy as np
import scipy.special as sp

import ref

PI = math.pi
EDGE = 1e-8


def norm_shape(basis, ks):
    if basis == "piecewise linear":
        if isinstance(ks, int):
            return (ks, 1)
        return (ks[0], 1) if len(ks) == 1 else tuple(ks)
    if basis in ("harmonic", "morlet", "fourier-bessel"):
        if isinstance(ks, int):
            return (ks, ks)
        return (ks[0], ks[0]) if len(ks) == 1 else tuple(ks)
    if basis == "zernike":
        return ks if isinstance(ks, int) else ks[0]
    raise ValueError(basis)


@functools.lru_cache(None)
def fb_index(nr, mm):
    amax = sp.jn_zeros(0, nr)[-1]
    e = []
    for m in range(mm + 1):
        for a in sp.jn_zeros(m, nr):
            if a > amax:
                break
            e.append((a, m, True))
            if m > 0:
                e.append((a, m, False))
    e.sort(key=lambda t: t[0])
    return e


def kernel_size(basis, ks):
    ks = norm_shape(basis, ks)
    if basis == "piecewise linear":
        return (ks[0] // 2) * ks[1] + ks[0] % 2
    if basis in ("harmonic", "morlet"):
        return ks[0] * ks[1]
    if basis == "zernike":
        return ks * (ks + 1) // 2
    return len(fb_index(*ks))


def isotropic(basis, ks):
    ks = norm_shape(basis, ks)
    K = kernel_size(basis, ks)
    if basis == "piecewise linear":
        if ks[1] == 1:
            return [True] * K
        return [k == 0 and ks[0] % 2 == 1 for k in range(K)]
    if basis in ("harmonic", "morlet"):
        return [k == 0 for k in range(K)]
    if basis == "zernike":
        return [2 * l - n == 0 for n in range(ks) for l in range(n + 1)]
    return [m == 0 for _, m, _ in fb_index(*ks)]


def circ(a, b):
    d = np.abs((a - b + PI) % (2 * PI) - PI)
    return d


@functools.lru_cache(None)
def harmonic_norms(ks):
    nr, nphi = 50, 200
    r = (np.arange(nr) + 0.5) / nr
    ph = np.arange(nphi) * 2 * PI / nphi
    r, ph = np.meshgrid(r, ph, indexing="ij")
    v, _, _ = _harm(ks, r, ph, None)
    return np.sqrt((v**2 * r / nr * (2 * PI / nphi)).sum((-2, -1)))


def _harm(ks, rn, phi, norms):
    K = ks[0] * ks[1]
    x, y = rn * np.sin(phi), rn * np.cos(phi)
    out = np.zeros((K,) + rn.shape)
    for k in range(K):
        n, m = k % ks[1], k // ks[1]
        fx, fy = (n + 1) // 2, (m + 1) // 2
        h = np.sin(fx * PI * x) if n % 2 else np.cos(fx * PI * x)
        h = h * (np.sin(fy * PI * y) if m % 2 else np.cos(fy * PI * y))
        out[k] = np.cos(0.5 * PI * rn) ** 2 * h
        if norms is not None:
            out[k] /= max(norms[k], 1e-12)
    return out, None, False


def basis_values(basis, ks, r, phi, R):
    """values (K,*shape), membership (K,*shape) bool, ambiguous: rounding decides membership or value."""
    ks = norm_shape(basis, ks)
    K = kernel_size(basis, ks)
    inside = r <= R
    amb = {"edge": bool((np.abs(r - R) < EDGE * R).any()), "member": False, "origin": False}
    vals = np.zeros((K,) + r.shape)
    mem = np.broadcast_to(inside, vals.shape).copy()
    if basis == "piecewise linear":
        nr, nphi = ks
        dr, dphi = 2 * R / (nr + 1), 2 * PI / nphi

        def hat(d, w):
            return np.maximum(0.0, 1 - np.abs(d) / w)

        for k in range(K):
            if nphi == 1:
                c = k * dr if nr % 2 else (k + 0.5) * dr
                mem[k] = inside & (np.abs(r - c) <= dr)
                amb["member"] |= bool((np.abs(np.abs(r - c) - dr) < EDGE).any())
                vals[k] = np.where(mem[k], hat(r - c, dr), 0)
            elif nr % 2:
                if k == 0:
                    mem[k] = inside & (r <= dr)
                    amb["member"] |= bool((np.abs(r - dr) < EDGE).any())
                    vals[k] = np.where(mem[k], hat(r, dr), 0)
                    continue
                c, cp = ((k - 1) // nphi + 1) * dr, ((k - 1) % nphi) * dphi - PI
                d = circ(phi, cp)
                near = inside & (np.abs(r - c) <= dr)
                mem[k] = near & (d <= dphi + 1e-12)
                amb["member"] |= bool((near & (np.abs(d - dphi) < EDGE)).any()) or bool((np.abs(np.abs(r - c) - dr) < EDGE).any())
                vals[k] = np.where(mem[k], hat(r - c, dr) * hat(d, dphi), 0)
            else:
                c, cp = (k // nphi + 0.5) * dr, (k % nphi) * dphi - PI
                d, dn = circ(phi, cp), circ(phi + PI, cp)
                c1 = inside & (np.abs(r - c) <= dr)
                c2 = np.abs(-r - c) <= dr
                mem[k] = (c1 & (d <= dphi + 1e-12)) | (c2 & (dn <= dphi + 1e-12))
                amb["member"] |= bool((c1 & (np.abs(d - dphi) < EDGE)).any()) or bool((c2 & (np.abs(dn - dphi) < EDGE)).any())
                amb["member"] |= bool((np.abs(np.abs(r - c) - dr) < EDGE).any()) or bool((np.abs(np.abs(r + c) - dr) < EDGE).any())
                vals[k] = np.where(c1, hat(r - c, dr) * hat(d, dphi), 0) + np.where(c2, hat(r + c, dr) * hat(dn, dphi), 0)
        if nphi > 1 and nr % 2 == 0:
            amb["origin"] = bool((r < 1e-6).any())
        elif nphi > 1:
            # at r = 0 the angle is undefined: membership of the (zero-valued) directional hats is arbitrary
            amb["member"] |= bool((r < 1e-6).any())
    elif basis in ("harmonic", "morlet"):
        norms = harmonic_norms(ks) if basis == "harmonic" else None
        v, _, _ = _harm(ks, r / R, phi, norms)
        vals = np.where(mem, v, 0)
    elif basis == "zernike":
        k = 0
        rn = r / R
        for n in range(ks):
            for l in range(n + 1):
                m = 2 * l - n
                am = abs(m)
                # Zernike radial polynomial through Jacobi polynomials
                q = (n - am) // 2
                rad = (-1) ** q * rn**am * sp.eval_jacobi(q, am, 0, 1 - 2 * rn**2)
                ang = np.sin(m * phi) if m < 0 else np.cos(m * phi)
                nrm = math.sqrt(PI * (2.0 if m == 0 else 1.0) / (2.0 * (n + 1)))
                vals[k] = np.where(inside, rad * ang / nrm, 0)
                k += 1
    elif basis == "fourier-bessel":
        rn = r / R
        for k, (a, m, cosine) in enumerate(fb_index(*ks)):
            nrm = abs(sp.jv(m + 1, a)) / math.sqrt(2) * math.sqrt(2 * PI if m == 0 else PI)
            vals[k] = np.where(inside, sp.jv(m, a * rn) * (np.cos(m * phi) if cosine else np.sin(m * phi)) / nrm, 0)
    return vals, mem, amb


@functools.lru_cache(256)
def psi_dense(in_shape, out_shape, grid_in, grid_out, basis, ks, cutoff, mode, transpose):
    """Psi[k, ho, hi, wi] for output longitude 0, quadrature merged.

    Returns (psi, ok); ok=False when rounding decides the answer (the value is not well defined).
    For transpose, in_shape/out_shape are those of the *forward* operator (in = fine grid)."""
    (hi, wi), (ho, wo) = in_shape, out_shape
    ti, win = ref.colatitudes(hi, grid_in)
    to, wout = ref.colatitudes(ho, grid_out)
    lam = ref.longitudes(wi)
    R = 1.001 * cutoff
    K = kernel_size(basis, ks)
    to_ = to[:, None, None]
    ti_ = ti[None, :, None]
    la = lam[None, None, :]
    x = np.cos(to_) * np.cos(la) * np.sin(ti_) - np.cos(ti_) * np.sin(to_)
    y = np.sin(la) * np.sin(ti_) + 0 * x
    z = np.cos(la) * np.sin(to_) * np.sin(ti_) + np.cos(to_) * np.cos(ti_)
    r = np.arctan2(np.hypot(x, y), z)
    phi = np.arctan2(y, x)
    phi = np.where(phi < 0, phi + 2 * PI, phi)
    r = np.where(r < 1e-7, 0.0, r)
    v, mem, amb = basis_values(basis, ks, r, phi, R)
    ok = not amb["edge"] and not amb["origin"]
    mode = {"individual": "nodal", "area ratio": "geometric"}.get(mode, mode)
    if mode in ("support", "modal") and amb["member"]:
        ok = False
    iso = isotropic(basis, ks)
    if transpose:
        q = np.broadcast_to((wout / wi / 2.0)[:, None, None], (ho, hi, wi))
        ax = (0, 2)  # group by (k, hi)
        sl = lambda k, g: (k, slice(None), g, slice(None))
        G = hi
    else:
        q = np.broadcast_to((win / wi / 2.0)[None, :, None], (ho, hi, wi))
        sl = lambda k, g: (k, g, slice(None), slice(None))
        G = ho
    scale = np.zeros((K, G))
    vv = v.copy()
    support = np.zeros((K, G))
    for k in range(K):
        for g in range(G):
            s = sl(k, g)
            qq = q[s[1:]] * mem[s]
            support[k, g] = qq.sum()
            if mode == "modal" and not iso[k]:
                b = (v[s] * qq).sum() / max(support[k, g], 1e-9) if support[k, g] > 1e-9 else 0.0
                vv[s] = np.where(mem[s], v[s] - b, 0)
            scale[k, g] = (np.abs(vv[s]) * qq).sum()
            if mode in ("nodal", "modal") and mem[s].any() and scale[k, g] < 1e-6:
                # a support whose values vanish up to rounding: the normalised value is noise
                rr = r[s[1:]][mem[s]]
                if (rr < 1e-6).any() or scale[k, g] > 1e-13:
                    ok = False
    for k in range(K):
        for g in range(G):
            s = sl(k, g)
            if mode in ("nodal", "modal"):
                vv[s] = vv[s] / max(scale[k, g], 1e-9)
            elif mode == "mean":
                vv[s] = vv[s] / max(scale[k].mean(), 1e-9)
            elif mode == "support":
                vv[s] = vv[s] / max(support[k, g], 1e-9)
            elif mode == "geometric":
                vv[s] = vv[s] / max((1 - math.cos(cutoff)) / 4.0, 1e-9)
            elif mode != "none":
                raise ValueError(mode)
    if mode == "mean" and bool(((scale.mean(1) < 1e-6)).any()):
        ok = False
    psi = np.where(mem, vv, 0) * q
    if transpose:
        psi = psi * wi / wo
    return psi, ok, mem


def conv_operator(psi, nlon_out):
    """dense M[k, ho, wo, hi, wi] of the contraction"""
    K, ho, hi, wi = psi.shape
    ps = wi // nlon_out
    return np.stack([np.roll(psi, w * ps, axis=-1) for w in range(nlon_out)], axis=2)
