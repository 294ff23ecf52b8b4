"""Reference models: deliberately plain, float64, explicit sums/matrices. Nothing here imports /repo."""
import functools
import math

import numpy as np
import scipy.special as sp

PI = math.pi


# ------------------------------------------------------------------ quadrature / grids
@functools.lru_cache(None)
def nodes_weights(n, grid):
    """Nodes x in [-1,1] ascending and weights, from formulas independent of the library's."""
    if grid == "legendre-gauss":
        x, w = sp.roots_legendre(n)
    elif grid == "lobatto":
        if n == 2:
            x = np.array([-1.0, 1.0])
        else:
            xi, _ = sp.roots_jacobi(n - 2, 1.0, 1.0)
            x = np.concatenate([[-1.0], xi, [1.0]])
        w = 2.0 / (n * (n - 1) * sp.eval_legendre(n - 1, x) ** 2)
    elif grid == "equiangular":
        n1 = n - 1
        th = np.pi * np.arange(n1, -1, -1) / n1
        x = np.cos(th)
        w = np.empty(n)
        for i, t in enumerate(th):
            s = 0.0
            for j in range(1, n1 // 2 + 1):
                b = 1.0 if 2 * j == n1 else 2.0
                s += b / (4 * j * j - 1) * math.cos(2 * j * t)
            w[i] = (1.0 if i in (0, n1) else 2.0) / n1 * (1.0 - s)
    elif grid == "equiangular-trapezoidal":
        x = np.linspace(-1.0, 1.0, n)
        w = np.full(n, 2.0 / (n - 1))
        w[0] *= 0.5
        w[-1] *= 0.5
    else:
        raise ValueError(grid)
    return x, w


@functools.lru_cache(None)
def colatitudes(n, grid):
    """Co-latitudes ascending from the north pole, with weights in the same order."""
    x, w = nodes_weights(n, grid)
    return np.arccos(np.clip(x, -1, 1))[::-1].copy(), w[::-1].copy()


def longitudes(n):
    return 2 * PI * np.arange(n) / n


# ------------------------------------------------------------------ spherical harmonics
def _q(l, m, x):
    """d^m/dx^m P_l(x) up to the factor (2m-1)!!  (Gegenbauer form)."""
    if l < m:
        return np.zeros_like(x)
    return sp.eval_gegenbauer(l - m, m + 0.5, x)


def _lognorm(l, m):
    # sqrt((2l+1)/(4pi) (l-m)!/(l+m)!) * (2m-1)!!
    ln = 0.5 * (math.log((2 * l + 1) / (4 * PI)) + sp.gammaln(l - m + 1) - sp.gammaln(l + m + 1))
    ldf = sp.gammaln(2 * m + 1) - m * math.log(2.0) - sp.gammaln(m + 1)
    return ln + ldf


def scale(l, norm, inverse):
    if norm == "ortho":
        s = 1.0
    else:
        s = math.sqrt(4 * PI)
        if norm == "schmidt":
            s /= math.sqrt(2 * l + 1)
    return 1.0 / s if inverse else s


@functools.lru_cache(512)
def plm(mmax, lmax, n, grid):
    """Orthonormal P_l^m(cos theta_k) without phase: array (mmax, lmax, n)."""
    th, _ = colatitudes(n, grid)
    x, s = np.cos(th), np.sin(th)
    s = np.where(np.isin(np.arange(n), [0, n - 1]) & (np.abs(s) < 1e-15), 0.0, s)
    out = np.zeros((mmax, lmax, n))
    for l in range(lmax):
        for m in range(min(l + 1, mmax)):
            out[m, l] = math.exp(_lognorm(l, m)) * s**m * _q(l, m, x)
    return out


@functools.lru_cache(512)
def dplm(mmax, lmax, n, grid):
    """(dP/dtheta, m P / sin theta): array (2, mmax, lmax, n), orthonormal, no phase."""
    th, _ = colatitudes(n, grid)
    x, s = np.cos(th), np.sin(th)
    s = np.where(np.isin(np.arange(n), [0, n - 1]) & (np.abs(s) < 1e-15), 0.0, s)
    out = np.zeros((2, mmax, lmax, n))
    for l in range(lmax):
        for m in range(min(l + 1, mmax)):
            c = math.exp(_lognorm(l, m))
            q = _q(l, m, x)
            dq = (2 * m + 1) * _q2(l, m, x)
            sm1 = s ** (m - 1) if m >= 1 else np.zeros_like(s)
            out[0, m, l] = c * (m * sm1 * x * q - s ** (m + 1) * dq)
            out[1, m, l] = c * m * sm1 * q
    return out


def _q2(l, m, x):
    # derivative of C_{l-m}^{(m+1/2)} is (2m+1) C_{l-m-1}^{(m+3/2)}
    if l - m - 1 < 0:
        return np.zeros_like(x)
    return sp.eval_gegenbauer(l - m - 1, m + 1.5, x)


def phase(m, csphase):
    return (-1.0) ** m if csphase else 1.0


def dft_fwd(nlon, mmax):
    """(mmax, nlon) complex: 2pi/nlon sum_j f_j exp(-i m lam_j); zero above the Nyquist order."""
    F = np.zeros((mmax, nlon), dtype=complex)
    lam = longitudes(nlon)
    for m in range(min(mmax, nlon // 2 + 1)):
        F[m] = 2 * PI / nlon * np.exp(-1j * m * lam)
    return F


def dft_inv(nlon, mmax):
    """(A, B): real (nlon, mmax) such that f = A Re c + B Im c, f real with Hermitian spectrum."""
    A = np.zeros((nlon, mmax))
    B = np.zeros((nlon, mmax))
    lam = longitudes(nlon)
    for m in range(min(mmax, nlon // 2 + 1)):
        if m == 0:
            A[:, 0] = 1.0
        elif 2 * m == nlon:
            A[:, m] = np.cos(m * lam)
        else:
            A[:, m] = 2 * np.cos(m * lam)
            B[:, m] = -2 * np.sin(m * lam)
    return A, B


def sht_matrix(nlat, nlon, lmax, mmax, grid, norm, cs):
    """complex tensor T[l,m,k,j]: coefficients of a field."""
    _, w = colatitudes(nlat, grid)
    P = plm(mmax, lmax, nlat, grid)
    F = dft_fwd(nlon, mmax)
    ph = np.array([phase(m, cs) for m in range(mmax)])
    sc = np.array([scale(l, norm, False) for l in range(lmax)])
    return np.einsum("mlk,k,m,l,mj->lmkj", P, w, ph, sc, F)


def isht_matrices(nlat, nlon, lmax, mmax, grid, norm, cs):
    """real (SA, SB)[k,j,l,m]: field = SA Re c + SB Im c."""
    P = plm(mmax, lmax, nlat, grid)
    A, B = dft_inv(nlon, mmax)
    ph = np.array([phase(m, cs) for m in range(mmax)])
    sc = np.array([scale(l, norm, True) for l in range(lmax)])
    G = np.einsum("mlk,m,l->mlk", P, ph, sc)
    return np.einsum("mlk,jm->kjlm", G, A), np.einsum("mlk,jm->kjlm", G, B)


def vsht_matrix(nlat, nlon, lmax, mmax, grid, norm, cs):
    """complex T[c,l,m,d,k,j]; c = spheroidal, toroidal; d = theta, lambda component."""
    _, w = colatitudes(nlat, grid)
    D = dplm(mmax, lmax, nlat, grid)
    F = dft_fwd(nlon, mmax)
    ph = np.array([phase(m, cs) for m in range(mmax)])
    sc = np.array([scale(l, norm, False) / max(l * (l + 1), 1) for l in range(lmax)])
    E = np.einsum("dmlk,k,m,l->dmlk", D, w, ph, sc)
    T = np.zeros((2, lmax, mmax, 2, nlat, nlon), dtype=complex)
    a = np.einsum("mlk,mj->lmkj", E[0], F)
    b = np.einsum("mlk,mj->lmkj", E[1], F)
    T[0, :, :, 0] = a
    T[0, :, :, 1] = -1j * b
    T[1, :, :, 0] = -1j * b
    T[1, :, :, 1] = -a
    return T


def ivsht_matrices(nlat, nlon, lmax, mmax, grid, norm, cs):
    """real (SA, SB)[d,k,j,c,l,m]: field = SA Re c + SB Im c."""
    D = dplm(mmax, lmax, nlat, grid)
    A, B = dft_inv(nlon, mmax)
    ph = np.array([phase(m, cs) for m in range(mmax)])
    sc = np.array([scale(l, norm, True) for l in range(lmax)])
    E = np.einsum("dmlk,m,l->dmlk", D, ph, sc)
    SA = np.zeros((2, nlat, nlon, 2, lmax, mmax))
    SB = np.zeros((2, nlat, nlon, 2, lmax, mmax))
    # spectral value z -> field: A Re z + B Im z.  v_theta = s d0 + i t d1 ; v_lambda = i s d1 - t d0
    a0, b0 = np.einsum("mlk,jm->kjlm", E[0], A), np.einsum("mlk,jm->kjlm", E[0], B)
    a1, b1 = np.einsum("mlk,jm->kjlm", E[1], A), np.einsum("mlk,jm->kjlm", E[1], B)
    SA[0, :, :, 0], SB[0, :, :, 0] = a0, b0
    SA[0, :, :, 1], SB[0, :, :, 1] = b1, -a1  # i z: Re -> Im slot, Im -> -Re slot
    SA[1, :, :, 0], SB[1, :, :, 0] = b1, -a1
    SA[1, :, :, 1], SB[1, :, :, 1] = -a0, -b0
    return SA, SB


def default_truncation(nlat, nlon, lmax, mmax, grid):
    if lmax is None:
        lmax = {"legendre-gauss": nlat, "lobatto": nlat - 1}.get(grid, (nlat + 1) // 2)
    if mmax is None:
        mmax = nlon // 2 + 1
    k = min(lmax, mmax)
    return k, k


def pattern(*shape, k=0):
    """A fixed dense, asymmetric, non-random test field with values of order one."""
    n = int(np.prod(shape)) if shape else 1
    i = np.arange(n, dtype=np.float64)
    v = np.sin(1.0 + 2.3 * i + 0.37 * k) + 0.5 * np.cos(0.71 * i * (1 + 0.1 * k) + k) + 0.25 * np.sin(0.013 * i * i + k)
    return v.reshape(shape)


def cpattern(*shape, k=0):
    return pattern(*shape, k=k) + 1j * pattern(*shape, k=k + 17)


def memory_forms(t):
    """the same values in every kind of storage: (name, tensor) pairs, all equal to t"""
    import torch

    n = t.dim()
    out = [("plain", t.clone())]
    if n > 1:
        out.append(("transposed", t.transpose(-1, -2).contiguous().transpose(-1, -2)))
        out.append(("reversed-axes", t.permute(*range(n - 1, -1, -1)).contiguous().permute(*range(n - 1, -1, -1))))
    if n > 2:
        out.append(("outer-last", t.movedim(0, -1).contiguous().movedim(-1, 0)))
        out.append(("middle-last", t.movedim(-3, -1).contiguous().movedim(-1, -3)))
    b = torch.full([2 * s + 1 for s in t.shape], 7.25, dtype=t.dtype)
    v = b[tuple(slice(1, 2 * s + 1, 2) for s in t.shape)]
    v.copy_(t)
    out.append(("every-second", v))
    b = torch.full([s + 2 for s in t.shape], -3.5, dtype=t.dtype)
    v = b[tuple(slice(1, s + 1) for s in t.shape)]
    v.copy_(t)
    out.append(("inside-larger", v))
    if n == 4:
        out.append(("channels-last", t.clone().contiguous(memory_format=torch.channels_last)))
    if t.is_complex():
        out.append(("lazy-conjugate", t.conj().resolve_conj().clone().conj()))
        pl = torch.stack([t.real, t.imag], 0)  # separate planes, assembled as a strided complex view where possible
        out.append(("from-planes", torch.complex(pl[0], pl[1])))
        out.append(("odd-offset", torch.view_as_complex(torch.cat([torch.zeros(2, dtype=pl.dtype), torch.view_as_real(t.resolve_conj().contiguous()).reshape(-1)])[2:].reshape(*t.shape, 2))))
    else:
        out.append(("real-part-view", torch.complex(t, t + 1).real))
        out.append(("lazy-negative", torch.complex(t, -t).conj().imag))
    assert all(torch.equal(v, t) for _, v in out)
    return out


LEADS = [(0,), (0, 3), (1,), (1, 1, 1, 1), (17,), (2, 3, 4, 2), (257,), (3, 129), (1030,)]
