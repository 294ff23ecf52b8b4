"""Distributed neighborhood attention equals the serial layer on every process grid."""
import copy
import itertools

import numpy as np
import torch

import dharness as D
import ref
import ring
import sim

RULE = (
    "one state per (process grid, rank layout, geometry: self/down/up-sampling with even and uneven latitude shards and halo widths from 0 to the whole shard, grids, cutoff, heads, channels, qk-norm, bias, aliasing, "
    "gradient subset, schedule/transport policy); the real distributed layer runs on simulated ranks, its gathered output, input gradients and summed parameter gradients are compared with the serial layer; "
    "configurations the layer refuses must be refused identically on every rank before any communication"
)
ASSUMPTIONS = ["CUDA-only ring-step operators are replaced by CPU stand-ins implementing their documented contract", "neighbourhoods are non-empty", "single precision"]
MESH = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (1, 4), (4, 1), (1, 5), (3, 3), (2, 4)]
GEO = [
    # in, out, cutoff
    ((4, 6), (4, 6), 0.9),
    ((6, 12), (6, 12), 0.7),
    ((7, 12), (7, 12), 0.6),
    ((7, 8), (7, 8), 1.2),
    ((6, 6), (6, 6), 3.2),
    ((8, 12), (4, 6), 0.9),
    ((7, 12), (5, 4), 0.8),
    ((9, 24), (5, 12), 0.5),
    ((4, 6), (8, 12), 1.6),
    ((5, 4), (7, 12), 1.7),
    ((3, 12), (6, 24), 1.8),
    ((6, 6), (6, 6), 0.4),
    ((21, 36), (21, 36), 0.31),
    ((13, 40), (12, 20), 0.45),
    ((12, 10), (13, 20), 0.62),
]
OPTS = [
    dict(c=2, heads=1, qk=False, bias=True, grid="equiangular", alias="none", grads="qkvp"),
    dict(c=4, heads=2, qk=True, bias=False, grid="legendre-gauss", alias="none", grads="qkvp"),
    dict(c=2, heads=2, qk=False, bias=True, grid="equiangular", alias="self", grads="qp"),
    dict(c=2, heads=1, qk=False, bias=True, grid="lobatto", alias="none", grads="q"),
    dict(c=2, heads=1, qk=False, bias=True, grid="equiangular", alias="none", grads="k"),
    dict(c=2, heads=1, qk=True, bias=True, grid="equiangular", alias="none", grads="v"),
    dict(c=2, heads=1, qk=False, bias=False, grid="equiangular", alias="kv", grads="qkp"),
    dict(c=2, heads=1, qk=False, bias=False, grid="equiangular", alias="none", grads=""),
    dict(c=2, heads=1, qk=False, bias=False, grid="equiangular", alias="none", grads="qkv", big=8.0),
    dict(c=3, k=6, o=4, heads=2, qk=True, bias=True, grid="equiangular", gout="legendre-gauss", alias="none", grads="qkvp", scale=0.3, b=3, lay="t"),
    dict(c=5, k=3, o=9, heads=3, qk=False, bias=True, grid="lobatto", gout="equiangular", alias="none", grads="qkvp", scale="tensor", b=1, lay="cl"),
    dict(c=17, heads=1, qk=True, bias=True, grid="equiangular", alias="kv", grads="qkp", lay="s", prep="copy"),
    dict(c=4, heads=4, qk=False, bias=True, grid="legendre-gauss", gout="lobatto", alias="none", grads="qkvp", cut=None, prep="warm"),
]


def prepare(tier):
    import torch_harmonics  # noqa

    sim.install()
    ring.install()


def cases(tier):
    out = []
    for (P, A), g in itertools.product(MESH, range(len(GEO))):
        i, o, _ = GEO[g]
        if min(i[0], o[0]) < P or min(i[1], o[1]) < A:
            continue
        if tier == "quick" and (P * A > 6 or P * A == 5) and g % 3 != 1 or P * A > 3 and g >= 12 and (tier == "quick" and (g + P) % 3):
            continue
        lay = ["rows"] if (tier == "quick" and P * A > 4) else ["rows", "rev"] if P * A <= 2 else ["rows", "cols", "rev"]
        for layout in lay:
            if tier == "quick" and layout != "rows" and g % 4 != 1:
                continue
            out.append({"P": P, "A": A, "geo": g, "layout": layout, "half": tier == "quick" and P * A > 2})
    out.sort(key=lambda c: c["P"] * c["A"])
    return out


def setp(m):
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(torch.as_tensor(ref.pattern(*p.shape, k=j)))
    return m


def run_case(c, R):
    P, A = c["P"], c["A"]
    i, o, cut = GEO[c["geo"]]
    import torch_harmonics as th

    opts = [dict(x) for j, x in enumerate(OPTS) if not (x["alias"] == "self" and i != o) and not (c.get("half") and (j + c["geo"] + P + A) % 2 or c["geo"] >= 12 and 0 < j < 9)]
    refs = []
    for x in opts:
        sc = torch.tensor(0.45) if x.get("scale") == "tensor" else x.get("scale")
        kw = dict(grid_in=x["grid"], grid_out=x.get("gout", x["grid"]), num_heads=x["heads"], use_qknorm=x["qk"], bias=x["bias"], theta_cutoff=x.get("cut", cut), k_channels=x.get("k"), out_channels=x.get("o"), scale=sc)
        b = x.get("b", 2)
        ser = setp(th.NeighborhoodAttentionS2(x["c"], i, o, **kw))
        s = x.get("big", 1.0)
        q = (torch.as_tensor(ref.pattern(b, x["c"], *o)) * s).float()
        k = (torch.as_tensor(ref.pattern(b, x["c"], *i, k=1)) * s).float()
        v = torch.as_tensor(ref.pattern(b, x["c"], *i, k=2)).float()
        t = {n: z.clone().requires_grad_(n in x["grads"]) for n, z in (("q", q), ("k", k), ("v", v))}
        for p in ser.parameters():
            p.requires_grad_("p" in x["grads"])
        y = call(ser, t, x["alias"])
        go = torch.as_tensor(ref.pattern(*y.shape, k=5)).float()
        if x["grads"]:
            y.backward(go)
        if not bool(torch.isfinite(y).all()):
            refs.append(None)  # empty neighbourhood: outside the claim
            continue
        refs.append((kw, t, go, y.detach(), {n: p.grad for n, p in ser.named_parameters()}))
    live = [(x, r) for x, r in zip(opts, refs) if r is not None]
    R.note("skipped_empty", len(opts) - len(live))
    m = D.Mesh(P, A, c["layout"], none_polar=P == 1 and c["geo"] % 2 == 0, none_azimuth=A == 1 and c["geo"] % 2 == 0)

    def scenario(thd, p, a):
        res = []
        for x, (kw, t, go, y, pg) in live:
            try:
                lay = thd.DistributedNeighborhoodAttentionS2(x["c"], i, o, **D.nondefault(th.NeighborhoodAttentionS2, kw, c["geo"] % 3))
            except ValueError as e:
                res.append({"refused": str(e)[:60]})
                continue
            setp(lay)
            if x.get("prep") == "copy":
                lay = copy.deepcopy(lay)
            for pp in lay.parameters():
                pp.requires_grad_("p" in x["grads"])
            tl = {n: D.strided(D.shard2(z.detach(), P, A, p, a), x.get("lay", "c")).requires_grad_(z.requires_grad) for n, z in t.items()}
            if x.get("prep") == "warm":
                # an earlier call with another batch must leave nothing behind
                call(lay, {n: torch.cat([z.detach(), z.detach() * 0.5 + 0.1]) for n, z in tl.items()}, x["alias"])
            yl = call(lay, tl, x["alias"])
            if x["grads"]:
                yl.backward(D.shard2(go, P, A, p, a))
            d = {"y": D.to_np(yl), "sd": sorted(lay.state_dict()), "kept": np.array([torch.equal(tl[n].detach(), D.shard2(z.detach(), P, A, p, a)) for n, z in t.items()])}
            for n in "qkv":
                d["g" + n] = D.to_np(tl[n].grad)
            for n, pp in lay.named_parameters():
                d["p" + n] = D.to_np(pp.grad)
            res.append(d)
        return res

    for pol in D.POLICIES:
        try:
            r, parts = m.run(scenario, *pol)
        except sim.SimError as e:
            R.fail("protocol", f"{c} {pol}: {e}")
            continue
        R.step(r.steps)
        for j, (x, (kw, t, go, y, pg)) in enumerate(live):
            sub = {k: v[j] for k, v in parts.items()}
            R.state(P, A, c["layout"], c["geo"], j, pol)
            ref_ = [s.get("refused") for s in sub.values()]
            if any(ref_):
                R.check(all(ref_), "refused-on-some-ranks", ref_)
                R.note("refused")
                uneven = any(a_ * i[1] != b_ * o[1] for a_, b_ in zip(sim.split(o[1], A), sim.split(i[1], A)))
                if not uneven:
                    # only a halo wider than a neighbour's shard may be refused
                    R.check(halo(i, o, x["grid"], x.get("gout", x["grid"]), cutoff(i, o, x, cut), P) > min(sim.split(i[0], P)), "refused-supported", f"{c} {ref_[0]}")
                continue
            what = f"{i}->{o} {x} mesh {P}x{A} {c['layout']} {pol}"
            D.close(R, D.assemble(sub, "y", P, A, -2, -1), y, 3e-4 if "big" in x else 3e-6, "value", what)
            for n in "qkv":
                want = t[n].grad
                if want is None:
                    R.check(all(s["g" + n] is None for s in sub.values()), "unexpected-grad", what)
                else:
                    D.close(R, D.assemble(sub, "g" + n, P, A, -2, -1), want, 1e-3 if "big" in x else 1e-5, f"grad-{n}", what)
            # the key bias has no effect on a softmax: its gradient is pure rounding, on the scale of the other gradients
            sg = max([1.0] + [float(g.abs().max()) for g in pg.values() if g is not None])
            for n, gp in pg.items():
                if gp is not None:
                    D.close(R, sum(s["p" + n] for s in sub.values()) / sg, gp / sg, 1e-3 if "big" in x else 1e-5, "param-grad", f"{n} {what}")
            R.check(all(s["kept"].all() for s in sub.values()), "input-mutated", what)
            R.check(all(s["sd"] == sorted(pg) for s in sub.values()), "checkpoint", f"{what}: differs from the serial layer's")


def cutoff(i, o, x, cut):
    cut = x.get("cut", cut)
    return cut if cut is not None else np.pi / ((i[0] if o[1] > i[1] else o[0]) - 1)


def halo(i, o, grid, gout, cut, P):
    """rows of the neighbouring shards that the geodesic disks of a shard's output rows reach"""
    ti, to = ref.colatitudes(i[0], grid)[0], ref.colatitudes(o[0], gout)[0]
    r = 0
    for p in range(P if P > 1 else 0):
        (a, b), (c, d) = sim.bounds(o[0], P, p), sim.bounds(i[0], P, p)
        hi = [h for h in range(i[0]) for z in range(a, b) if abs(ti[h] - to[z]) <= cut * (1 + 1.1e-3)]
        r = max(r, c - min(hi), max(hi) - d + 1)
    return r


def call(m, t, alias):
    if alias == "self":
        return m(t["q"])
    if alias == "kv":
        return m(t["q"], t["k"], t["k"])
    return m(t["q"], t["k"], t["v"])
