"""Distributed resampling, quadrature and spectral convolution equal the serial components."""
import itertools

import torch

import dharness as D
import ref
import sim

RULE = (
    "one state per (component, process grid, rank layout, shapes with even/uneven shards, grids, mode/normalisation/groups/bias, leading dims, dtype, memory layout, history of the layer (copied, reloaded, recast, used before), gradient subset, schedule/transport policy); "
    "gathered (or replicated) outputs, input gradients and documented parameter-gradient reductions are compared with the serial component"
)
ASSUMPTIONS = ["simulated torch.distributed transport", "at least one channel/row/column/mode per rank", "the serial component is judged by its own properties"]
MESH = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4), (5, 1), (1, 5), (3, 3), (2, 4)]
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]
SHAPES = [((4, 6), (4, 6)), ((4, 6), (7, 9)), ((7, 9), (4, 5)), ((5, 8), (6, 8)), ((6, 8), (6, 5)), ((8, 12), (5, 7)), ((5, 1), (4, 3)), ((4, 3), (5, 1)), ((33, 40), (24, 50)), ((20, 36), (35, 18))]
LAYS = ["c", "t", "cl", "s"]
PREPS = [None, "copy", "lowered", "warm", "double", "overlap", "state", None, "frozen", "lowered", "overlap"]


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()


def cases(tier):
    out = []
    for (P, A), s, k in itertools.product(MESH, range(len(SHAPES)), ("resample", "quad", "spec")):
        i, o = SHAPES[s]
        if min(i[0], o[0]) < P or min(i[1], o[1]) < A:
            continue
        if tier == "quick" and P * A >= 5 and (s + P) % 3:
            continue
        lays = ["rows", "cols", "rev"] if P > 1 and A > 1 else ["rows", "rev"]
        if tier == "quick":
            lays = [lays[s % len(lays)]]
        for layout in lays:
            out.append({"P": P, "A": A, "s": s, "kind": k, "layout": layout, "tier": tier})
    for P, A in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (4, 1)]:
        out.append({"P": P, "A": A, "s": 0, "kind": "init", "layout": "rows", "tier": tier})
    out.sort(key=lambda c: c["P"] * c["A"])
    return out


def run_case(c, R):
    P, A = c["P"], c["A"]
    if c["kind"] == "init":
        return run_init(c, R)
    items = globals()["items_" + c["kind"]](c, *SHAPES[c["s"]])
    m = D.Mesh(P, A, c["layout"], none_polar=P == 1 and c["s"] % 2 == 0, none_azimuth=A == 1 and c["s"] % 2 == 0)
    if items:
        D.check_items(R, m, items)


def items_resample(c, i, o):
    import torch_harmonics as th

    P, A = c["P"], c["A"]
    n = c["s"]
    items = []
    for gi, go, mode in itertools.product(GRIDS, GRIDS, ("bilinear", "bilinear-spherical")):
        n += 1
        C = max(P, A) + n % 3
        lead = [(C,), (2, C), (1, 2, C)][n % 3]
        # the spherical mode amplifies rounding where neighbours are half a turn apart: double precision only
        dt = [torch.float64, torch.float32][n % 4 == 0 and mode == "bilinear"]
        lay = LAYS[n % 4]
        prep = PREPS[n % len(PREPS)]
        if prep == "warm" and len(lead) == 1:
            prep = None
        if i[0] > 19 and n % 3:
            continue
        kw = dict(grid_in=gi, grid_out=go, mode=mode)
        items.append(
            D.Item(
                f"resample {i}->{o} {kw} {lead} {dt} {lay} {prep}",
                lambda kw=kw: th.ResampleS2(*i, *o, **kw),
                lambda thd, kw=D.nondefault(th.ResampleS2, kw, n % 3): thd.DistributedResampleS2(*i, *o, **kw),
                D.pat((*lead, *i), n % 3, dt),
                tol=3e-6 if dt == torch.float32 else 1e-10,
                prep=prep,
                lay=lay,
                grad=n % 5 != 0,
            )
        )
    return items


def items_quad(c, i, o):
    import torch_harmonics as th

    items = []
    n = c["s"]
    for g, nrm, img in itertools.product(GRIDS, (False, True), (i, o)):
        n += 1
        for lead in [(), (1,), (3,), (2, 3), (2, 1, 2)]:
            n += 1
            dt = [torch.float64, torch.float32, torch.complex64][n % 3]
            lay = LAYS[n % 4] if lead else "c"
            prep = PREPS[n % len(PREPS)] if lead else None
            items.append(
                D.Item(
                    f"quadrature {img} {g} normalize={nrm} lead={lead} {dt} {lay} {prep}",
                    lambda g=g, nrm=nrm, img=img: th.QuadratureS2(img, grid=g, normalize=nrm),
                    lambda thd, img=img, kw=D.nondefault(th.QuadratureS2, dict(grid=g, normalize=nrm), n % 3): thd.DistributedQuadratureS2(img, **kw),
                    D.pat((*lead, *img), n % 3, dt),
                    ys=None,
                    tol=3e-6 if dt != torch.float64 else 1e-12,
                    prep=prep,
                    lay=lay,
                    grad=n % 4 != 0,
                )
            )
    return items


def setp_spec(m, pos):
    # the documented sharding: weight over l on the polar group; bias over (l, m)
    L = m.lmax
    P, A, p, a = pos or (1, 1, 0, 0)
    with torch.no_grad():
        for n, prm in m.named_parameters():
            if n == "weight":
                w = torch.as_tensor(ref.cpattern(*prm.shape[:-1], L)).to(prm.dtype)
                prm.copy_(sim.shard(w, 3, P, p))
            else:
                b = torch.as_tensor(ref.cpattern(1, prm.shape[1], L, m.mmax)).to(prm.dtype) * 0.5
                prm.copy_(sim.shard(sim.shard(b, 2, P, p), 3, A, a))


def pspec(n):
    return (3, None, False, True) if n == "weight" else (2, 3, False, False)


def items_spec(c, i, o):
    import torch_harmonics as th

    P, A = c["P"], c["A"]
    n = c["s"]
    items = []
    for gi, go, (ci, co, gr), bias in itertools.product(GRIDS, GRIDS, [(1, 1, 1), (4, 2, 2), (3, 6, 3), (2, 5, 1), (4, 4, 2), (6, 4, 2), (6, 9, 3)], (False, True)):
        n += 1
        # quick: half of the product, alternating so that every pair of options occurs
        if c["tier"] == "quick" and ((n + n // 2) % 2 or (P * A > 4 and (n // 2) % 3)):
            continue
        try:
            s = th.SpectralConvS2(i, o, ci, co, num_groups=gr, grid_in=gi, grid_out=go, bias=bias)
        except ValueError:
            continue
        if s.lmax < max(P, A):
            continue
        kw = dict(num_groups=gr, grid_in=gi, grid_out=go, bias=bias)
        prep = PREPS[n // 2 % len(PREPS)]
        if prep == "lowered":  # (the layer computes in one precision)
            prep = None
        prep = None if prep == "double" else prep
        if i[0] > 19 and n // 2 % 6:
            continue
        b = 1 + n // 2 % 3
        lay = LAYS[n // 2 % 4]
        grad, pgrad = [(True, True), (True, False), (True, True), (False, True), (True, True)][n // 2 % 5]
        items.append(
            D.Item(
                f"spectral {i}->{o} {(ci, co)} {kw} b={b} {lay} {grad} {pgrad} {prep}",
                lambda kw=kw, ci=ci, co=co: th.SpectralConvS2(i, o, ci, co, **kw),
                lambda thd, kw=D.nondefault(th.SpectralConvS2, kw, n % 3), ci=ci, co=co: thd.DistributedSpectralConvS2(i, o, ci, co, **kw),
                D.pat((b, ci, *i), n % 3),
                setp=setp_spec,
                pspec=pspec,
                prep=prep,
                tol=1e-5,
                lay=lay,
                grad=grad,
                pgrad=pgrad,
            )
        )
    return items


def run_init(c, R):
    """a freshly constructed distributed layer has, degree by degree, the weight scale of a fresh serial layer"""
    import numpy as np
    import torch_harmonics as th

    P, A = c["P"], c["A"]
    shp, ch = (7, 14), 96

    def var(w):
        return (w.detach().abs().double() ** 2).mean(dim=(0, 1, 2)).numpy()

    for gr in (1, 2):
        torch.manual_seed(7)
        want = var(th.SpectralConvS2(shp, shp, ch, ch, num_groups=gr).weight)

        def scenario(thd, p, a):
            torch.manual_seed(100 + p)
            lay = thd.DistributedSpectralConvS2(shp, shp, ch, ch, num_groups=gr, bias=True)
            return {"v": var(lay.weight), "b": np.array([float(lay.spectral_bias.abs().max())])}

        r, parts = D.Mesh(P, A, c["layout"]).run(scenario)
        R.step(r.steps)
        R.state("init", P, A, gr)
        got = D.assemble(parts, "v", P, A, 0, None)
        R.check(got.shape == want.shape and bool((np.abs(got / want - 1.0) < 0.2).all()), "initial-scale", f"{P}x{A} groups={gr}: variance per degree {np.round(got, 5).tolist()} serial {np.round(want, 5).tolist()}")
        R.check(all(s["b"].max() == 0 for s in parts.values()), "initial-bias", f"{P}x{A}")
