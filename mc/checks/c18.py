"""Distributed DISCO convolutions (forward: reference, optimized, reordered/fused; transpose) equal the serial layers."""
import itertools

import torch

import dharness as D
import ref
import sim

RULE = (
    "one state per (process grid, rank layout, direction, geometry with even/uneven shards, single-entry and empty local filter tensors, basis, grids, channel/group structure, path, bias, memory layout, history of the layer (copied, reloaded, recast, used before), "
    "gradient subset, schedule/transport policy); gathered output, input gradient and summed parameter gradients of the real distributed layer are compared with the serial layer; "
    "shape pairs the serial layer refuses must be refused on every rank"
)
ASSUMPTIONS = ["simulated torch.distributed transport", "the reordered (fused) path runs the CPU fused operator: torch.cuda.is_available is answered true during construction", "at least one channel, row and column per rank", "the serial layer is judged by its own properties"]
MESH = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4), (5, 1), (1, 5), (3, 3), (2, 4)]
# fine, coarse, basis, kernel, cutoff, norm, grid_fine, grid_coarse
GEO = [
    ((4, 6), (4, 6), "piecewise linear", (2, 2), 1.1, "nodal", "equiangular", "equiangular"),
    ((5, 8), (4, 4), "piecewise linear", 2, 1.2, "nodal", "legendre-gauss", "equiangular"),
    ((7, 12), (5, 4), "piecewise linear", (2, 3), 0.9, "geometric", "equiangular", "legendre-gauss"),
    ((6, 8), (6, 4), "zernike", 2, 0.9, "modal", "equiangular", "equiangular"),
    ((4, 8), (4, 8), "piecewise linear", 1, 0.05, "none", "legendre-gauss", "legendre-gauss"),  # one entry per output row
    ((8, 8), (4, 4), "piecewise linear", 1, 0.05, "none", "equiangular", "legendre-gauss"),  # no entry at all
    ((5, 10), (4, 5), "piecewise linear", 1, 0.05, "none", "equiangular", "lobatto"),  # poles and equator only
    ((7, 9), (7, 9), "piecewise linear", 3, 1.5, "nodal", "equiangular", "lobatto"),
    ((5, 8), (5, 4), "piecewise linear", (2, 2), None, "nodal", "equiangular", "equiangular"),
    ((6, 12), (4, 12), "harmonic", (2, 2), 1.0, "nodal", "lobatto", "equiangular"),
    ((33, 48), (20, 24), "piecewise linear", (2, 3), 0.3, "nodal", "equiangular", "legendre-gauss"),
]
CH = [(4, 4, 1), (4, 8, 4), (6, 3, 3), (8, 4, 2), (5, 4, 1), (4, 6, 2), (4, 4, 2), (6, 6, 3), (8, 8, 2), (3, 6, 3), (12, 4, 2), (2, 3, 1), (6, 4, 2), (1, 1, 1)]
LAYS = ["c", "t", "cl", "s"]
PREPS = [None, "double", "copy", "overlap", "warm", "state", None, "frozen", "double", "overlap", None]


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()


def cases(tier):
    out = []
    for (P, A), g, tr in itertools.product(MESH, range(len(GEO)), (False, True)):
        f, c = GEO[g][:2]
        if min(f[0], c[0]) < P or min(f[1], c[1]) < A:
            continue
        if tier == "quick" and (P * A >= 5 and (g + P + tr) % 3 or P * A > 4 and g == 10):
            continue
        lays = ["rows", "cols", "rev"] if P > 1 and A > 1 else ["rows", "rev"]
        if tier == "quick":
            lays = [lays[(g + tr) % len(lays)]]
        for layout in lays:
            out.append({"P": P, "A": A, "geo": g, "tr": tr, "layout": layout, "tier": tier})
    for P, A in MESH[:4]:
        out.append({"P": P, "A": A, "geo": -1, "tr": False, "layout": "rows", "tier": tier})
    out.sort(key=lambda c: c["P"] * c["A"])
    return out


def setp(m, pos):
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(torch.as_tensor(ref.pattern(*p.shape, k=j)))


def fake_cuda(make):
    old = torch.cuda.is_available
    torch.cuda.is_available = lambda: True
    try:
        return make()
    finally:
        torch.cuda.is_available = old


def run_case(c, R):
    import torch_harmonics as th

    P, A, tr = c["P"], c["A"], c["tr"]
    items = []
    if c["geo"] < 0:
        for (f, co), t in itertools.product([((4, 8), (4, 6)), ((5, 9), (4, 6)), ((4, 6), (4, 8)), ((6, 10), (6, 4))], (False, True)):
            i, o = (co, f) if t else (f, co)
            cls = "DiscreteContinuousConvTransposeS2" if t else "DiscreteContinuousConvS2"
            try:
                getattr(th, cls)(2, 2, i, o, 2, theta_cutoff=1.0)
                continue
            except ValueError:
                pass
            items.append(D.Item(f"{cls} {i}->{o}", None, lambda thd, cls=cls, i=i, o=o: getattr(thd, "Distributed" + cls)(2, 2, i, o, 2, theta_cutoff=1.0), torch.zeros(1, 2, *i), refuse="invalid"))
        D.check_items(R, D.Mesh(P, A, c["layout"]), items)
        return
    f, co, basis, ks, cut, nm, gf, gc = GEO[c["geo"]]
    i, o = (co, f) if tr else (f, co)
    gi, go = (gc, gf) if tr else (gf, gc)
    cls = "DiscreteContinuousConvTransposeS2" if tr else "DiscreteContinuousConvS2"
    n = c["geo"]
    for (ci, cou, gr), path in itertools.product(CH, ("torch", "opt") + (() if tr else ("fused",))):
        if ci < A or cou < A:
            continue
        n += 1
        if c["geo"] == 10 and n % 5:
            continue
        prep = PREPS[n % len(PREPS)]
        kw = dict(basis_type=basis, basis_norm_mode=nm, groups=gr, grid_in=gi, grid_out=go, bias=n % 3 != 0, theta_cutoff=cut, optimized_kernel=path != "torch")
        lay = LAYS[n % 4]
        grad, pgrad = [(True, True), (True, False), (True, True), (False, True), (True, True)][n % 5]
        b = 1 + n % 3

        def dist(thd, kw=D.nondefault(getattr(th, cls), kw, n % 3), ci=ci, cou=cou, path=path):
            mk = lambda: getattr(thd, "Distributed" + cls)(ci, cou, i, o, ks, **kw, **({"fused": True} if path == "fused" else {}))
            return fake_cuda(mk) if path == "fused" else mk()

        items.append(
            D.Item(
                f"{cls} {path} {(ci, cou, gr)} {i}->{o} {kw} b={b} {lay} {grad} {pgrad} {prep}",
                lambda kw=kw, ci=ci, cou=cou: getattr(th, cls)(ci, cou, i, o, ks, **{**kw, "optimized_kernel": True}),
                dist,
                D.pat((b, ci, *i), n % 3, torch.float64 if prep == "double" else torch.float32),
                setp=setp,
                prep=prep,
                tol=1e-12 if prep == "double" else 4e-6,
                lay=lay,
                grad=grad,
                pgrad=pgrad,
            )
        )
    m = D.Mesh(P, A, c["layout"], none_polar=P == 1 and c["geo"] % 2 == 0, none_azimuth=A == 1 and c["geo"] % 2 == 0)
    D.check_items(R, m, items)
