"""CPU stand-ins for the CUDA-only ring-step attention operators.

They implement the operator contract written in attention_interface.cpp (chunk-local online softmax, halo-local
latitudes, shifted column indices), so that the distributed orchestration - halo exchange, ring rotation, local
psi construction, reductions - runs for real.  The CUDA kernels themselves cannot run in this sandbox.
"""
import torch

_lib = None
NEG = float("-inf")


def _mask(col_idx, row_off, kx, quad, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out):
    """weights M[ho, wo, hi_local, wi_local] of the gather form"""
    H, W = kx.shape[1], kx.shape[2]
    M = torch.zeros(nlat_out, nlon_out, H, W, dtype=torch.float64)
    cnt = torch.zeros_like(M)
    for ho in range(nlat_out):
        cols = col_idx[int(row_off[ho]) : int(row_off[ho + 1])].tolist()
        for c in cols:
            hi, wi = divmod(c, nlon_in)
            hl = hi - halo0
            if not 0 <= hl < H:
                continue
            for wo in range(nlon_out):
                w = (wi + pscale * wo) % nlon_in - lon_lo
                if 0 <= w < W:
                    M[ho, wo, hl, w] += float(quad.reshape(-1)[hi])
                    cnt[ho, wo, hl, w] += 1
    return M, cnt > 0


def _mask_up(col_idx, row_off, kx, quad, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out):
    H, W = kx.shape[1], kx.shape[2]
    M = torch.zeros(nlat_out, nlon_out, H, W, dtype=torch.float64)
    cnt = torch.zeros_like(M)
    for hl in range(row_off.numel() - 1):
        for c in col_idx[int(row_off[hl]) : int(row_off[hl + 1])].tolist():
            ho, ws = divmod(c, nlon_out_g)
            for w in range(W):
                wo = (ws + pscale * (lon_lo + w)) % nlon_out_g
                if wo < nlon_out:
                    M[ho, wo, hl, w] += float(quad.reshape(-1)[halo0 + hl])
                    cnt[ho, wo, hl, w] += 1
    return M, cnt > 0


def _f(*ts):
    return [t.double() for t in ts]


def _fwd(M, C, kx, vx, qy, y_acc, asum, qmax):
    k, v, q = _f(kx, vx, qy)
    s = torch.einsum("bxyc,bhwc->bxyhw", q, k).float().double()
    s = torch.where(C, s, torch.full_like(s, NEG))
    new = torch.maximum(qmax.double(), s.amax(dim=(-1, -2)))
    safe = torch.where(new == NEG, torch.zeros_like(new), new)
    old = torch.where(qmax == NEG, torch.zeros_like(safe), torch.exp(qmax.double() - safe))
    a = torch.where(C, torch.exp(s - safe[..., None, None]), torch.zeros_like(s)) * M
    y_acc.copy_(y_acc.double() * old[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a, v))
    asum.copy_(asum.double() * old + a.sum(dim=(-1, -2)))
    qmax.copy_(new)


def _alpha(M, C, kx, vx, qy, dy, qmax):
    k, v, q, d = _f(kx, vx, qy, dy)
    s = torch.einsum("bxyc,bhwc->bxyhw", q, k).float().double()
    m = torch.where(qmax == NEG, torch.zeros_like(qmax), qmax).double()
    a = torch.where(C, torch.exp(torch.where(C, s, torch.zeros_like(s)) - m[..., None, None]), torch.zeros_like(s)) * M
    g = torch.einsum("bxyc,bhwc->bxyhw", d, v)
    return k, v, q, d, a, g


def _p1_acc(k, a, g, integral, ak, akv, old):
    integral.copy_(integral.double() * old + (a * g).sum(dim=(-1, -2)))
    ak.copy_(ak.double() * old[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a, k))
    akv.copy_(akv.double() * old[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a * g, k))


def forward_ring_step(kx, vx, qy, y_acc, asum, qmax, quad, col, roff, row_idx, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out, a, b, c):
    _fwd(*_mask(col, roff, kx, quad, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out), kx, vx, qy, y_acc, asum, qmax)


def backward_ring_step_pass1(kx, vx, qy, dy, asum, qmax, integral, ak, akv, quad, col, roff, row_idx, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out, a_, b_, c_):
    M, C = _mask(col, roff, kx, quad, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out)
    k, q = _f(kx, qy)
    s = torch.einsum("bxyc,bhwc->bxyhw", q, k).float().double()
    s = torch.where(C, s, torch.full_like(s, NEG))
    new = torch.maximum(qmax.double(), s.amax(dim=(-1, -2)))
    safe = torch.where(new == NEG, torch.zeros_like(new), new)
    old = torch.where(qmax == NEG, torch.zeros_like(safe), torch.exp(qmax.double() - safe))
    qmax.copy_(new)
    k, v, q, d, a, g = _alpha(M, C, kx, vx, qy, dy, new)
    asum.copy_(asum.double() * old + a.sum(dim=(-1, -2)))
    _p1_acc(k, a, g, integral, ak, akv, old)


def _p2(M, C, kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx):
    k, v, q, d, a, g = _alpha(M, C, kx, vx, qy, dy, qmax)
    p = a / asum.double()[..., None, None]
    dkx.add_(torch.einsum("bxyhw,bxyc->bhwc", p * (g - inorm.double()[..., None, None]), q).to(dkx.dtype))
    dvx.add_(torch.einsum("bxyhw,bxyc->bhwc", p, d).to(dvx.dtype))


def backward_ring_step_pass2(kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx, quad, col, roff, row_idx, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out, a, b, c):
    _p2(*_mask(col, roff, kx, quad, nlon_in, pscale, lon_lo, halo0, nlat_out, nlon_out), kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx)


def forward_ring_step_upsample(kx, vx, qy, y_acc, asum, qmax, quad, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out):
    _fwd(*_mask_up(col, roff, kx, quad, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out), kx, vx, qy, y_acc, asum, qmax)


def backward_ring_step_upsample_pass1(kx, vx, qy, dy, qmax, integral, ak, akv, quad, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out):
    k, v, q, d, a, g = _alpha(*_mask_up(col, roff, kx, quad, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out), kx, vx, qy, dy, qmax)
    _p1_acc(k, a, g, integral, ak, akv, torch.ones_like(qmax, dtype=torch.float64))


def backward_ring_step_upsample_pass2(kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx, quad, col, roff, nlon_in, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out):
    _p2(*_mask_up(col, roff, kx, quad, nlon_out_g, pscale, lon_lo, halo0, nlat_out, nlon_out), kx, vx, qy, dy, asum, qmax, inorm, dkx, dvx)


def split_csr_rows(row_idx, row_off, nlat_out):
    n = (row_off[1:] - row_off[:-1])[row_idx.long()] if nlat_out else row_off[:0]
    return 0, int(n.max()) if n.numel() else 0, int(n[n.numel() // 2]) if n.numel() else 0


def install():
    global _lib
    if _lib is not None:
        return
    import torch_harmonics  # noqa: F401  (defines the operators)

    _lib = torch.library.Library("attention_kernels", "IMPL", "CPU")
    for f in (forward_ring_step, backward_ring_step_pass1, backward_ring_step_pass2, forward_ring_step_upsample, backward_ring_step_upsample_pass1, backward_ring_step_upsample_pass2):
        _lib.impl(f.__name__, f)
    _lib.impl("split_csr_rows", split_csr_rows)
