"""Distributed spherical harmonic transforms (scalar and vector, both directions) equal the serial ones."""
import itertools

import torch

import dharness as D
import sim

RULE = (
    "one state per (process grid, rank layout, transform kind, resolution, truncation, grid, norm, phase, leading dims, dtype, memory layout, history of the layer (copied, reloaded, recast, used before), schedule/transport policy); the real distributed transform runs "
    "on simulated ranks and its gathered output and input gradient are compared with the serial transform"
)
ASSUMPTIONS = ["simulated torch.distributed transport", "grids with at least one row/column/mode per rank", "the serial transform is judged by its own properties"]
MESH = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4), (5, 1), (1, 5), (3, 3), (2, 4)]
RES = [(4, 8), (5, 8), (6, 9), (7, 12), (5, 7), (8, 10), (33, 40), (40, 35)]
PREPS = [None, "copy", "lowered", "warm", "overlap", "float", None, "state", "lowered", "frozen", "overlap"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]
NORMS = [("ortho", True), ("schmidt", False), ("unnorm", True)]
KINDS = ["sht", "isht", "vsht", "ivsht"]
CLS = {"sht": "RealSHT", "isht": "InverseRealSHT", "vsht": "RealVectorSHT", "ivsht": "InverseRealVectorSHT"}
LEADS = [(1,), (2,), (3,), (2, 3), (1, 1, 2), (5,)]
LAYS = ["c", "t", "cl", "s"]


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()


def cases(tier):
    out = []
    for (P, A), r, k in itertools.product(MESH, range(len(RES)), KINDS):
        if RES[r][0] < P or RES[r][1] < A:
            continue
        lays = ["rows", "cols", "rev"] if P > 1 and A > 1 else ["rows", "rev"]
        if tier == "quick":
            lays = [lays[r % len(lays)]] if P * A > 2 else lays
        if tier == "quick" and (P * A >= 4 and (r + P) % 2 or P * A >= 5 and (r + P) % 4):
            continue
        for layout in lays:
            out.append({"P": P, "A": A, "res": r, "kind": k, "layout": layout, "tier": tier})
    out.sort(key=lambda c: c["P"] * c["A"])
    return out


def run_case(c, R):
    import torch_harmonics as th

    P, A, k = c["P"], c["A"], c["kind"]
    nlat, nlon = RES[c["res"]]
    items = []
    n = c["res"]
    trunc = [(None, None), (max(P, nlat - 2), max(A, 2)), (max(P, 2), max(A, 2)), (None, max(A, nlon // 2 - 1))]
    for g, (norm, cs), (lm, mm) in itertools.product(GRIDS, NORMS, trunc):
        try:
            t = th.truncation.truncate_sht(nlat, nlon, lm, mm, g)
            ref_ = getattr(th, CLS[k])(nlat, nlon, lmax=lm, mmax=mm, grid=g, norm=norm, csphase=cs)
        except ValueError:
            continue
        L, M = ref_.lmax, ref_.mmax
        if L < P or M < A:
            continue
        n += 1
        if nlat > 32 and n % 3:
            continue
        for lead in [LEADS[n % len(LEADS)]] if c["tier"] == "quick" else LEADS:
            n += 1
            spec = k in ("isht", "ivsht")
            shape = tuple(lead) + ((2,) if "v" in k else ()) + ((L, M) if spec else (nlat, nlon))
            dt = [torch.float64, torch.float32][n % 4 == 0]
            if spec:
                dt = torch.complex128 if dt == torch.float64 else torch.complex64
            kw = dict(lmax=lm, mmax=mm, grid=g, norm=norm, csphase=cs)
            lay = LAYS[n % 4]
            prep = PREPS[n % len(PREPS)]
            if prep == "warm" and len(lead) > 1 and lead[0] != 1:
                prep = "copy"
            items.append(
                D.Item(
                    f"{k} {nlat}x{nlon} {kw} {shape} {dt} {lay} {prep}",
                    lambda kw=kw: getattr(th, CLS[k])(nlat, nlon, **kw),
                    lambda thd, kw=D.nondefault(getattr(th, CLS[k]), kw, n % 3): getattr(thd, "Distributed" + CLS[k])(nlat, nlon, **kw),
                    D.pat(shape, n % 3, dt),
                    tol=1e-11 if dt in (torch.float64, torch.complex128) and prep != "float" else 2e-5,
                    prep=prep,
                    lay=lay,
                    grad=n % 5 != 0,
                )
            )
    if not items:
        R.note("no_configuration")
        return
    m = D.Mesh(P, A, c["layout"], none_polar=P == 1 and c["res"] % 2 == 0, none_azimuth=A == 1 and c["res"] % 2 == 0)
    D.check_items(R, m, items)
