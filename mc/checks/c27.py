"""Ill-posed configurations and inputs that do not fit a layer are refused, never computed on."""
import itertools
import math

import numpy as np
import torch

import dharness as D
import ref
import ring
import sim

RULE = (
    "part ctor: one state per constructor argument tuple of the lattice (longitude counts 1..12 x 1..12, channels x groups/heads, cutoffs, names, shapes); accepted iff well posed, on the serial layers and refused on every simulated rank where the serial layer refuses; "
    "part input: one state per (layer, tensor shape of the lattice around the fitting one, every input in turn, batch triples, dtype triples): accepted iff it fits (or is an exact broadcast of one that fits), and refusals leave the layer unchanged; "
    "part dist: the same shape lattice on simulated process grids"
)
ASSUMPTIONS = ["a refusal is any exception; its type and message are not judged", "CPU kernels; CUDA-only ring operators replaced by stand-ins", "QuadratureS2 may broadcast size-one axes exactly"]

MESH = [(1, 1), (2, 1), (1, 2), (2, 2)]
CTOR = ["conv", "convT", "nattn", "gattn", "spec", "names"]
LAYERS = ["sht", "isht", "vsht", "ivsht", "resample", "resample-same", "quad", "spec", "conv-torch", "conv-opt", "conv-fused", "conv-same", "conv-groups", "convT-torch", "convT-opt", "convT-same", "convT-groups", "nattn-torch", "nattn-opt", "nattn-down", "nattn-up", "nattn-heads", "nattn-down-torch", "gattn", "gattn-down"]
DIST = ["sht", "isht", "vsht", "ivsht", "conv-torch", "conv-opt", "conv-same", "convT-torch", "convT-opt", "resample", "resample-same", "spec", "nattn", "nattn-down", "nattn-up"]


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()
    ring.install()


def cases(tier):
    out = [{"part": "ctor", "layer": n} for n in CTOR]
    out += [{"part": "ctor", "layer": n, "P": P, "A": A} for n, (P, A) in itertools.product(("conv", "convT", "nattn", "spec"), MESH[1:] if tier == "quick" else MESH)]
    out += [{"part": "input", "layer": n, "tier": tier} for n in LAYERS]
    out += [{"part": "dist", "layer": n, "P": P, "A": A, "tier": tier} for (P, A), n in itertools.product(MESH if tier == "quick" else MESH + [(3, 1), (1, 3), (3, 2)], DIST)]
    return out


def attempt(f):
    try:
        return True, f()
    except Exception as e:
        return False, e


# ----------------------------------------------------------------------------- constructors
def ctor_lattice(layer):
    """(args, kwargs, well-posed) over the lattice"""
    L = []
    rng = range(1, 13)
    if layer in ("conv", "convT"):
        def add(ok, ci=2, co=2, f=(4, 8), c=(3, 4), ks=2, **kw):
            i, o = (f, c) if layer == "conv" else (c, f)
            L.append(((ci, co, i, o, ks), kw, ok))

        for a, b in itertools.product(rng, rng):
            add(a % b == 0, f=(4, a), c=(3, b))
        for ci, co, g in itertools.product((1, 2, 3, 4, 6), (1, 2, 3, 4, 6), (1, 2, 3, 4)):
            add(ci % g == 0 and co % g == 0, ci=ci, co=co, groups=g)
        for cut in (0.0, -1e-3, -2.0, 0.3, 1.0, 3.0):
            add(cut > 0, theta_cutoff=cut)
        for m in ("none", "nodal", "modal", "mean", "support", "geometric", "individual", "area ratio", "no-such-mode", "Nodal"):
            add(m not in ("no-such-mode", "Nodal"), basis_norm_mode=m, theta_cutoff=1.4)
        for b in ("piecewise linear", "harmonic", "morlet", "zernike", "fourier-bessel", "spline", "Zernike"):
            add(b not in ("spline", "Zernike"), basis_type=b, theta_cutoff=1.4, ks=2 if b in ("zernike", "piecewise linear") else (2, 2))
        for b, ks, ok in (("piecewise linear", (2, 2, 2), False), ("piecewise linear", (2,), True), ("harmonic", (2,), False), ("harmonic", (1, 2, 3), False), ("morlet", (2,), False), ("fourier-bessel", (1, 2, 3), False)):
            add(ok, basis_type=b, ks=ks, theta_cutoff=1.4)
        for g in ("grid_in", "grid_out"):
            for v in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal", "gauss", ""):
                add(v not in ("gauss", ""), **{g: v})
        add(False, f=(4, 8, 1))
        add(False, f=(4,))
        add(False, c=(3, 4, 1))
        add(False, c=(3,))
    elif layer == "nattn":
        def add(ok, c=2, i=(4, 6), o=(3, 3), **kw):
            L.append(((c, i, o), kw, ok))

        for a, b in itertools.product(rng, rng):
            add(a % b == 0 or b % a == 0, i=(3, a), o=(4, b))
        for h, k, v in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 6), (1, 2, 3, 4, 6)):
            add(k % h == 0 and v % h == 0, num_heads=h, k_channels=k, out_channels=v)
        for cut in (0.0, -1e-3, -2.0, 1.0, 3.3):
            add(cut > 0, theta_cutoff=cut)
        for g in ("grid_in", "grid_out"):
            for v in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal", "gauss", ""):
                add(v not in ("gauss", ""), **{g: v})
    elif layer == "gattn":
        def add(ok, c=2, h=1, i=(4, 6), o=(3, 3), **kw):
            L.append(((c, h, i, o), kw, ok))

        for a, b in itertools.product(rng, rng):
            add(a % b == 0, i=(3, a), o=(4, b))
        for h, k, v in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 6), (1, 2, 3, 4, 6)):
            add(k % h == 0 and v % h == 0, h=h, k_channels=k, out_channels=v)
        for v in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal", "gauss", ""):
            add(v not in ("gauss", ""), grid_in=v)
    elif layer == "spec":
        for ci, co, g in itertools.product((1, 2, 3, 4, 6), (1, 2, 3, 4, 6), (1, 2, 3, 4)):
            L.append((((5, 8), (4, 6), ci, co), {"num_groups": g}, ci % g == 0 and co % g == 0))
        for g in ("grid_in", "grid_out"):
            for v in ("equiangular", "legendre-gauss", "lobatto", "gauss", ""):
                L.append((((5, 8), (4, 6), 2, 2), {g: v}, v not in ("gauss", "")))
    return L


def names(R):
    import torch_harmonics as th
    from torch_harmonics import quadrature as Q
    from torch_harmonics.fft import rfft
    from torch_harmonics.filter_basis import get_filter_basis
    from torch_harmonics.random_fields import GaussianRandomFieldS2
    from torch_harmonics.truncation import truncate_sht

    T = []
    for g in ("equiangular", "legendre-gauss", "lobatto", "gauss", "", "Lobatto", "legendre_gauss"):
        ok = g in ("equiangular", "legendre-gauss", "lobatto")
        for c in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
            T.append((f"{c} {g!r}", ok, lambda c=c, g=g: getattr(th, c)(5, 8, grid=g)))
            T.append((f"{c} lmax {g!r}", ok, lambda c=c, g=g: getattr(th, c)(5, 8, lmax=3, mmax=3, grid=g)))
        T.append((f"quad {g!r}", ok, lambda g=g: th.QuadratureS2((5, 8), grid=g)))
        T.append((f"nodes {g!r}", ok, lambda g=g: Q.precompute_latitudes(5, g)))
        T.append((f"truncate {g!r}", ok, lambda g=g: truncate_sht(5, 8, grid=g)))
        for s in ("grid_in", "grid_out"):
            T.append((f"resample {s} {g!r}", ok, lambda s=s, g=g: th.ResampleS2(4, 6, 5, 8, **{s: g})))
        T.append((f"grf {g!r}", ok, lambda g=g: GaussianRandomFieldS2(6, grid=g)))
    for g in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal") if hasattr(Q, "_precompute_quadrature_weights") else ():
        T.append((f"periodic {g}", g == "equiangular-trapezoidal", lambda g=g: Q._precompute_quadrature_weights(n=6, grid=g, periodic=True)))
    for m in ("bilinear", "bilinear-spherical", "nearest", "bicubic", ""):
        T.append((f"resample mode {m!r}", m.startswith("bilinear"), lambda m=m: th.ResampleS2(4, 6, 5, 8, mode=m)))
    for a in (-1.0, 0.0, 0.5, 1.0, 1.01, 2.0):
        T.append((f"grf alpha {a}", a > 1, lambda a=a: GaussianRandomFieldS2(6, alpha=a)))
    T.append(("rfft n=", False, lambda: rfft(torch.zeros(2, 8), n=4)))
    T.append(("rfft nmodes=", True, lambda: rfft(torch.zeros(2, 8), nmodes=4)))
    for b in ("piecewise linear", "harmonic", "morlet", "zernike", "fourier-bessel", "bspline"):
        T.append((f"basis {b}", b != "bspline", lambda b=b: get_filter_basis(2 if b in ("zernike", "piecewise linear") else (2, 2), b)))
    for n, ok, f in T:
        got, _ = attempt(f)
        R.state(n)
        R.step()
        R.check(got == ok, "invalid-accepted" if got else "valid-refused", n)


CLS = {"conv": "DiscreteContinuousConvS2", "convT": "DiscreteContinuousConvTransposeS2", "nattn": "NeighborhoodAttentionS2", "gattn": "AttentionS2", "spec": "SpectralConvS2"}


def ctor(c, R):
    import torch_harmonics as th

    if c["layer"] == "names":
        return names(R)
    cls = CLS[c["layer"]]
    L = ctor_lattice(c["layer"])
    if "P" not in c:
        for a, kw, ok in L:
            for opt in ((True, False) if c["layer"] in ("conv", "convT", "nattn") else (None,)):
                k2 = dict(kw) if opt is None else {**kw, "optimized_kernel": opt}
                got, e = attempt(lambda: getattr(th, cls)(*a, **k2))
                R.state(c["layer"], str(a), str(k2))
                R.step()
                R.check(got == ok, "invalid-accepted" if got else "valid-refused", f"{cls}{a} {k2}: {e if not got else ''}")
        return
    P, A = c["P"], c["A"]
    bad = [(a, kw) for a, kw, ok in L if not ok]

    def scenario(thd, p, a_):
        return [attempt(lambda: getattr(thd, "Distributed" + cls)(*a, **kw))[0] for a, kw in bad]

    r, parts = D.Mesh(P, A).run(scenario)
    R.step(r.steps)
    for j, (a, kw) in enumerate(bad):
        R.state(P, A, c["layer"], str(a), str(kw))
        R.step()
        R.check(not any(v[j] for v in parts.values()), "invalid-accepted", f"Distributed{cls}{a} {kw} mesh {P}x{A}")


# ----------------------------------------------------------------------------- inputs
def make(name, th):
    """(layer, list of (shape, complex) of its inputs, kind) -- kind: 'lead' leading dims free, 'chan' (B, C, H, W), 'attn'"""
    C, CT, N = th.DiscreteContinuousConvS2, th.DiscreteContinuousConvTransposeS2, th.NeighborhoodAttentionS2
    t = {
        "sht": lambda: (th.RealSHT(5, 8).float(), [(2, 3, 5, 8)], "lead"),
        "isht": lambda: (th.InverseRealSHT(5, 8, lmax=4, mmax=3).float(), [(2, 3, 3, 3)], "lead"),
        "vsht": lambda: (th.RealVectorSHT(5, 8).float(), [(3, 2, 5, 8)], "vec"),
        "ivsht": lambda: (th.InverseRealVectorSHT(5, 8, lmax=4, mmax=3).float(), [(3, 2, 3, 3)], "vec"),
        "resample": lambda: (th.ResampleS2(4, 6, 5, 8, grid_in="legendre-gauss"), [(2, 3, 4, 6)], "lead"),
        "resample-same": lambda: (th.ResampleS2(4, 6, 4, 6), [(2, 3, 4, 6)], "lead"),
        "quad": lambda: (th.QuadratureS2((5, 8)), [(2, 3, 5, 8)], "broadcast"),
        "spec": lambda: (th.SpectralConvS2((5, 8), (4, 6), 4, 2, num_groups=2, bias=True), [(2, 4, 5, 8)], "chan"),
        "conv-torch": lambda: (C(4, 2, (5, 8), (3, 4), 2, optimized_kernel=False), [(2, 4, 5, 8)], "chan"),
        "conv-opt": lambda: (C(2, 4, (5, 8), (3, 4), 2), [(2, 2, 5, 8)], "chan"),
        "conv-fused": lambda: (C(4, 2, (5, 8), (3, 4), 2, fused=True), [(2, 4, 5, 8)], "chan"),
        "conv-same": lambda: (C(4, 1, (5, 8), (5, 8), 3), [(2, 4, 5, 8)], "chan"),
        "conv-groups": lambda: (C(4, 6, (5, 8), (4, 2), 2, groups=2), [(2, 4, 5, 8)], "chan"),
        "convT-torch": lambda: (CT(4, 2, (3, 4), (5, 8), 2, optimized_kernel=False), [(2, 4, 3, 4)], "chan"),
        "convT-opt": lambda: (CT(2, 4, (3, 4), (5, 8), 2), [(2, 2, 3, 4)], "chan"),
        "convT-same": lambda: (CT(1, 2, (5, 8), (5, 8), 3), [(2, 1, 5, 8)], "chan"),
        "convT-groups": lambda: (CT(4, 6, (4, 2), (5, 8), 2, groups=2), [(2, 4, 4, 2)], "chan"),
        "nattn-torch": lambda: (N(2, (4, 6), (4, 6), optimized_kernel=False), [(2, 2, 4, 6)] * 3, "attn"),
        "nattn-opt": lambda: (N(2, (4, 6), (4, 6)), [(2, 2, 4, 6)] * 3, "attn"),
        "nattn-down": lambda: (N(2, (4, 6), (3, 3)), [(2, 2, 3, 3), (2, 2, 4, 6), (2, 2, 4, 6)], "attn"),
        "nattn-down-torch": lambda: (N(2, (4, 6), (3, 3), optimized_kernel=False), [(2, 2, 3, 3), (2, 2, 4, 6), (2, 2, 4, 6)], "attn"),
        "nattn-up": lambda: (N(2, (3, 3), (4, 6)), [(2, 2, 4, 6), (2, 2, 3, 3), (2, 2, 3, 3)], "attn"),
        "nattn-heads": lambda: (N(4, (4, 6), (4, 3), num_heads=2, use_qknorm=True), [(2, 4, 4, 3), (2, 4, 4, 6), (2, 4, 4, 6)], "attn"),
        "gattn": lambda: (th.AttentionS2(2, 1, (4, 6), (4, 6)), [(2, 2, 4, 6)] * 3, "attn"),
        "gattn-down": lambda: (th.AttentionS2(4, 2, (4, 6), (3, 3)), [(2, 4, 3, 3), (2, 4, 4, 6), (2, 4, 4, 6)], "attn"),
    }
    return t[name]()


def tensor(shape, cplx, k=0, dt=torch.float32):
    t = torch.as_tensor(ref.cpattern(*shape) if cplx else ref.pattern(*shape, k=k))
    return t.to(torch.complex64) if cplx else t.to(dt)


def shapes_around(s, big):
    """all latitude/longitude counts around a shape, then all channel counts, then ranks"""
    B, C, H, W = s
    out = [(B, C, h, w) for h in range(1, H + 3 + big * 3) for w in range(1, 2 * W + 1 + big * W)]
    out += [(B, ch, H, W) for ch in range(1, 3 * C + 2)]
    out += [(C, H, W), (1, B, C, H, W), (H, W), (B, C, W, H), (B, H, W, C)]
    return [x for x in dict.fromkeys(out) if x != tuple(s)]


def fits(kind, got, want):
    """does a tensor of this shape mean something to the layer"""
    if kind == "lead":
        return len(got) >= 2 and got[-2:] == want[-2:]
    if kind == "vec":
        return len(got) >= 3 and got[-3:] == want[-3:]
    if kind == "broadcast":
        return got[-2:] == want[-2:]
    return len(got) == 4 and got[1:] == want[1:]


def inputs(c, R):
    import torch_harmonics as th

    m, shp, kind = make(c["layer"], th)
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(torch.as_tensor(ref.cpattern(*p.shape)) if p.is_complex() else torch.as_tensor(ref.pattern(*p.shape, k=j)))
    m.eval()
    cplx = c["layer"] in ("isht", "ivsht")
    base = [tensor(s, cplx, k) for k, s in enumerate(shp)]
    ok, y0 = attempt(lambda: m(*base))
    if not R.check(ok, "valid-refused", f"{c['layer']} {shp}: {y0}"):
        return
    for j, s in enumerate(shp):
        for bad in shapes_around(s, c["tier"] != "quick"):
            args = list(base)
            args[j] = tensor(bad, cplx, j)
            R.state(c["layer"], j, bad)
            R.step()
            got, y = attempt(lambda: m(*args))
            if fits(kind, bad, s):
                R.check(got, "valid-refused", f"{c['layer']} input {j} of shape {bad} (grid {s[-2:]}): {y}")
                continue
            if got and kind == "broadcast" and len(bad) >= 2 and all(a in (1, b) for a, b in zip(bad[-2:], s[-2:])):
                R.close(y, m(args[j].expand(*bad[:-2], *s[-2:])), 1e-5, 0, "broadcast-value")
                continue
            R.check(not got, "misfit-accepted", lambda: f"{c['layer']}: input {j} of shape {bad} accepted where {s} fits, result {tuple(y.shape)}")
    if kind == "attn":
        for bs in itertools.product((1, 2, 3), repeat=3):
            args = [tensor((b, *s[1:]), cplx, k) for k, (b, s) in enumerate(zip(bs, shp))]
            R.state(c["layer"], "batch", bs)
            R.step()
            got, y = attempt(lambda: m(*args))
            n = max(bs)
            if len(set(bs)) == 1:
                R.check(got, "valid-refused", f"{c['layer']} batches {bs}: {y}")
            elif got:
                if R.check(all(b in (1, n) for b in bs), "misfit-accepted", f"{c['layer']}: batches {bs} accepted"):
                    want = m(*[a.expand(n, *a.shape[1:]).contiguous() for a in args])
                    R.check(tuple(y.shape) == tuple(want.shape), "broadcast-shape", lambda: f"{c['layer']} batches {bs}: {tuple(y.shape)}")
                    if y.shape == want.shape:
                        R.close(y, want, 1e-4, 0, "broadcast-value")
        for ds in itertools.product((torch.float32, torch.float64, torch.bfloat16), repeat=3):
            if len(set(ds)) == 1:
                continue
            R.state(c["layer"], "dtypes", str(ds))
            R.step()
            got, y = attempt(lambda: m(*[t.to(d) for t, d in zip(base, ds)]))
            R.check(not got, "misfit-accepted", f"{c['layer']}: dtypes {ds} accepted")
    R.check(torch.equal(m(*base), y0), "refusal-changed-layer", c["layer"])


# ----------------------------------------------------------------------------- distributed
def dmake(name, thd):
    C, CT, N = thd.DistributedDiscreteContinuousConvS2, thd.DistributedDiscreteContinuousConvTransposeS2, thd.DistributedNeighborhoodAttentionS2
    t = {
        "sht": lambda: thd.DistributedRealSHT(6, 8).float(),
        "isht": lambda: thd.DistributedInverseRealSHT(6, 8, lmax=4, mmax=4).float(),
        "vsht": lambda: thd.DistributedRealVectorSHT(6, 8).float(),
        "ivsht": lambda: thd.DistributedInverseRealVectorSHT(6, 8, lmax=4, mmax=4).float(),
        "conv-torch": lambda: C(4, 4, (6, 8), (3, 4), 2, optimized_kernel=False),
        "conv-opt": lambda: C(4, 4, (6, 8), (3, 4), 2),
        "conv-same": lambda: C(4, 4, (6, 8), (6, 8), 2),
        "convT-torch": lambda: CT(4, 4, (3, 4), (6, 8), 2, optimized_kernel=False),
        "convT-opt": lambda: CT(4, 4, (3, 4), (6, 8), 2),
        "resample": lambda: thd.DistributedResampleS2(6, 8, 5, 6),
        "resample-same": lambda: thd.DistributedResampleS2(6, 8, 6, 8),
        "spec": lambda: thd.DistributedSpectralConvS2((6, 8), (4, 6), 4, 4),
        "nattn": lambda: N(4, (6, 8), (6, 8), theta_cutoff=0.7),
        "nattn-down": lambda: N(4, (6, 8), (3, 4), theta_cutoff=0.8),
        "nattn-up": lambda: N(4, (3, 4), (6, 8), theta_cutoff=0.8),
    }
    return t[name]()


DIN = {"sht": [(2, 4, 6, 8)], "isht": [(2, 4, 4, 4)], "vsht": [(4, 2, 6, 8)], "ivsht": [(4, 2, 4, 4)], "convT-torch": [(2, 4, 3, 4)], "convT-opt": [(2, 4, 3, 4)],
       "nattn": [(2, 4, 6, 8)] * 3, "nattn-down": [(2, 4, 3, 4), (2, 4, 6, 8), (2, 4, 6, 8)], "nattn-up": [(2, 4, 6, 8), (2, 4, 3, 4), (2, 4, 3, 4)]}


def dist(c, R):
    P, A, n = c["P"], c["A"], c["layer"]
    shp = DIN.get(n, [(2, 4, 6, 8)])
    cplx = n in ("isht", "ivsht")
    if any(s[-2] < P or s[-1] < A for s in shp):
        return
    m = D.Mesh(P, A)
    kind = "lead" if n in ("sht", "isht", "resample", "resample-same") else "vec" if n in ("vsht", "ivsht") else "chan"

    def run(shapes):
        def scenario(thd, p, a):
            lay = dmake(n, thd)
            y = lay(*[D.shard2(tensor(s, cplx, k), P, A, p, a) for k, s in enumerate(shapes)])
            return {"shape": tuple(y.shape)}

        return m.run(scenario)

    ok, e = attempt(lambda: run(shp))
    if not ok and "halo" in str(e):
        R.note("skipped-refused-geometry")
        return
    if not R.check(ok, "valid-refused", lambda: f"{n} {shp} mesh {P}x{A}: {e}"):
        return
    R.step(e[0].steps)
    H, W = shp[0][-2:]
    for j, s in enumerate(shp):
        B, C, H, W = s
        lat = sorted({h for h in (1, 2, H - 2, H - 1, H + 1, H + 2, 2 * H) if h >= max(P, 1)})
        lon = sorted({w for w in (1, 2, W // 2, W - 1, W + 1, W + 2, 2 * W) if w >= max(A, 1)})
        bad = [(B, C, h, w) for h in lat for w in (W, W + 1, 2 * W) if (h, w) != (H, W)] + [(B, C, H, w) for w in lon]
        if kind == "chan":
            bad += [(B, ch, H, W) for ch in (1, 2, 3, 5, 8)]
        if len(shp) == 3:
            bad += [(b, C, H, W) for b in (1, 3)]
        for b in dict.fromkeys(bad):
            if b == s or b[-2] < P or b[-1] < A:
                continue
            shapes = list(shp)
            shapes[j] = b
            R.state(P, A, n, j, b)
            R.step()
            got, e = attempt(lambda: run(shapes))
            R.check(not got, "misfit-accepted", lambda: f"{n} mesh {P}x{A}: input {j} of global shape {b} accepted where {s} fits, rank results {[v['shape'] for v in e[1].values()]}")


def run_case(c, R):
    {"ctor": ctor, "input": inputs, "dist": dist}[c["part"]](c, R)
