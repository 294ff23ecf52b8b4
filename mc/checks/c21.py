"""Every rank schedule and transport timing gives the same, deadlock-free result for every distributed component."""
import itertools

import numpy as np
import torch

import dharness as D
import dpor
import ref
import ring
import sim

RULE = (
    "for every (component, process grid, delivery timing of asynchronous data, capture timing of send buffers): stateless exploration, with partial-order reduction, of all rank schedules at communication calls: each rank first once (quick: two-rank grids, thorough: all), then every schedule "
    "that reverses up to `bound` racing steps; a state is a complete schedule; on each the run must terminate, match all messages and produce, rank by rank, bitwise the same outputs and gradients as the first schedule, which is compared with the serial component"
)
ASSUMPTIONS = ["scheduling points are communication calls (ranks share no memory)", "point-to-point sends are unbuffered, messages between a pair of ranks in a group are matched in order", "collectives of one group are matched in program order"]
COMP = ["sht", "ivsht", "conv", "conv-fused", "convT", "resample", "quad", "spec", "attn", "attn-up", "attn-kv", "halo"]
MESH = {"quick": [(2, 1), (1, 2), (2, 2), (3, 1), (1, 3)], "thorough": [(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (1, 4)]}


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()
    ring.install()


def cases(tier):
    out = []
    for comp, (P, A), dl, cp in itertools.product(COMP, MESH[tier], ("eager", "lazy"), ("early", "late")):
        out.append({"comp": comp, "P": P, "A": A, "delivery": dl, "capture": cp, "layout": "rows" if (P, A) != (2, 2) else "cols", "bound": 1 if tier == "quick" else (2 if P * A <= 3 else 1), "tier": tier})
    out.sort(key=lambda c: c["P"] * c["A"])
    return out


def setp(m, pos=None):
    P, A, p, a = pos or (1, 1, 0, 0)
    with torch.no_grad():
        for j, (n, prm) in enumerate(sorted(m.named_parameters())):
            if prm.is_complex():
                shp = list(prm.shape)
                if n == "weight":
                    prm.copy_(sim.shard(torch.as_tensor(ref.cpattern(*shp[:-1], m.lmax)).to(prm.dtype), 3, P, p))
                else:
                    b = torch.as_tensor(ref.cpattern(*shp[:2], m.lmax, m.mmax)).to(prm.dtype)
                    prm.copy_(sim.shard(sim.shard(b, 2, P, p), 3, A, a))
            else:
                prm.copy_(torch.as_tensor(ref.pattern(*prm.shape, k=j)))
    return m


def component(name):
    """(serial factory, distributed factory, input tensors, output split)"""
    import torch_harmonics as th
    from checks.c18 import fake_cuda

    f32 = torch.float32
    if name == "sht":
        return (lambda: th.RealSHT(5, 8)), (lambda t: t.DistributedRealSHT(5, 8)), [D.pat((2, 2, 5, 8))], (-2, -1)
    if name == "ivsht":
        return (lambda: th.InverseRealVectorSHT(5, 8, lmax=4, mmax=4)), (lambda t: t.DistributedInverseRealVectorSHT(5, 8, lmax=4, mmax=4)), [D.pat((3, 2, 4, 4), dtype=torch.complex64)], (-2, -1)
    cv = dict(theta_cutoff=1.3, groups=2)
    if name == "conv":
        return (lambda: th.DiscreteContinuousConvS2(4, 4, (5, 8), (4, 4), 2, **cv)), (lambda t: t.DistributedDiscreteContinuousConvS2(4, 4, (5, 8), (4, 4), 2, **cv)), [D.pat((1, 4, 5, 8))], (-2, -1)
    if name == "conv-fused":
        return (lambda: th.DiscreteContinuousConvS2(4, 4, (5, 8), (4, 4), 2, **cv)), (lambda t: fake_cuda(lambda: t.DistributedDiscreteContinuousConvS2(4, 4, (5, 8), (4, 4), 2, fused=True, **cv))), [D.pat((1, 4, 5, 8))], (-2, -1)
    if name == "convT":
        return (lambda: th.DiscreteContinuousConvTransposeS2(4, 4, (4, 4), (5, 8), 2, **cv)), (lambda t: t.DistributedDiscreteContinuousConvTransposeS2(4, 4, (4, 4), (5, 8), 2, **cv)), [D.pat((1, 4, 4, 4))], (-2, -1)
    if name == "resample":
        kw = dict(grid_in="legendre-gauss")
        return (lambda: th.ResampleS2(4, 6, 5, 8, **kw)), (lambda t: t.DistributedResampleS2(4, 6, 5, 8, **kw)), [D.pat((1, 4, 4, 6))], (-2, -1)
    if name == "quad":
        return (lambda: th.QuadratureS2((5, 8))), (lambda t: t.DistributedQuadratureS2((5, 8))), [D.pat((2, 3, 5, 8))], None
    if name == "spec":
        return (lambda: th.SpectralConvS2((7, 12), (8, 10), 2, 2, bias=True)), (lambda t: t.DistributedSpectralConvS2((7, 12), (8, 10), 2, 2, bias=True)), [D.pat((1, 2, 7, 12))], (-2, -1)
    if name in ("attn", "attn-kv"):
        i, o = (((6, 6), (6, 6)) if name == "attn" else ((6, 12), (6, 6)))
        kw = dict(theta_cutoff=0.9)
        x = [D.pat((1, 2, *o))] if name == "attn" else [D.pat((1, 2, *o)), D.pat((1, 2, *i), 1), D.pat((1, 2, *i), 2)]
        return (lambda: th.NeighborhoodAttentionS2(2, i, o, **kw)), (lambda t: t.DistributedNeighborhoodAttentionS2(2, i, o, **kw)), x, (-2, -1)
    if name == "attn-up":
        i, o = (4, 6), (8, 12)
        kw = dict(theta_cutoff=1.2)
        return (lambda: th.NeighborhoodAttentionS2(2, i, o, **kw)), (lambda t: t.DistributedNeighborhoodAttentionS2(2, i, o, **kw)), [D.pat((1, 2, *o)), D.pat((1, 2, *i), 1), D.pat((1, 2, *i), 2)], (-2, -1)
    raise ValueError(name)


def digest(t):
    return None if t is None else D.to_np(t)


def run_case(c, R):
    P, A = c["P"], c["A"]
    m = D.Mesh(P, A, c["layout"])
    if c["comp"] == "halo":
        xs = [D.pat((1, 2, 3 * P, 4)), D.pat((1, 2, 2 * P, 4), 1)]

        def scenario(thd, p, a):
            from torch_harmonics.distributed.primitives import polar_halo_exchange

            d = {}
            for j, (x, r) in enumerate(zip(xs, (2, 1))):
                xl = sim.shard(x, 2, P, p).requires_grad_(True)
                y = polar_halo_exchange(xl, r) if P > 1 else xl
                (y * y).sum().backward()
                d[f"y{j}"], d[f"g{j}"] = D.to_np(y), D.to_np(xl.grad)
            return d

        serial = None
    else:
        ser, dist, xs, ys = component(c["comp"])
        lay = setp(ser())
        t = [x.clone().requires_grad_(True) for x in xs]
        y = lay(*t)
        go = D._go(y)
        y.backward(go)
        serial = (y.detach(), [z.grad for z in t])

        def scenario(thd, p, a):
            lay = setp(dist(thd), (P, A, p, a))
            tl = [D.shard2(x, P, A, p, a).requires_grad_(True) for x in xs]
            yl = lay(*tl)
            yl.backward(go if ys is None else D.shard2(go, P, A, p, a, *ys))
            d = {"y": D.to_np(yl)}
            for j, z in enumerate(tl):
                d[f"g{j}"] = D.to_np(z.grad)
            for n, pp in lay.named_parameters():
                d["p" + n] = D.to_np(pp.grad)
            return d

    st = {"first": None, "err": None}

    def go_(sched):
        try:
            r, parts = m.run(scenario, sched, c["delivery"], c["capture"])
        except sim.SimError as e:
            R.fail("protocol", f"{c} schedule {sched.path}: {e}")
            return None
        R.step(r.steps)
        R.state(c["comp"], P, A, c["delivery"], c["capture"], tuple(x["rank"] for x in r.log))
        first = st["first"]
        if first is None:
            st["first"] = parts
            if serial is not None:
                if ys is None:
                    for k, q in parts.items():
                        D.close(R, q["y"], serial[0], 1e-4, "value", f"{c}")
                else:
                    D.close(R, D.assemble(parts, "y", P, A, *ys), serial[0], 1e-4, "value", f"{c}")
                for j, g in enumerate(serial[1]):
                    D.close(R, D.assemble(parts, f"g{j}", P, A, -2, -1), g, 1e-4, "input-grad", f"{c}")
            return r
        R.trace()
        for k in first:
            for name in first[k]:
                u, v = first[k][name], parts[k].get(name)
                if (u is None) != (v is None) or (u is not None and (u.shape != v.shape or not np.array_equal(u, v))):
                    R.fail("schedule-dependent", f"{c} schedule {sched.path}: {name} on rank {k} differs")
                    return None
        return r

    n = 0
    for r in dpor.explore(go_, c["delivery"] == "eager", P * A, c["bound"], 1 if c["tier"] == "quick" and P * A > 2 else None):
        n += 1
    R.note("schedules", n)
    R.note(f"max_schedules_{c['comp']}_{P}x{A}_{c['delivery']}", n)
