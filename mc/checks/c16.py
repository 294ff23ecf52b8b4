"""Distributed building blocks: balanced splitting, process-grid lifecycle, and every communication primitive with its adjoint."""
import itertools

import numpy as np
import torch

import dharness as D
import ref
import sim

RULE = (
    "part split: one state per (size, chunks): sizes, offsets, views, padding helpers against the documented rule; part life: every sequence of {init, finalize, re-init} over "
    "group presence; part prim: one state per (primitive, group size, shard sizes, axis, rank layout, dtype, verify mode) executed on a simulated process grid under two "
    "schedules/transport policies; outputs and gradients of every rank compared with the mathematical definition of the primitive and of its documented backward"
)
ASSUMPTIONS = ["ranks are forked processes under a simulated torch.distributed transport (rendezvous sends, FIFO matching per pair and group, equally sized reduce-scatter chunks)", "group sizes up to 4"]
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "bf16": torch.bfloat16, "f16": torch.float16}
TOL = {"f32": 1e-6, "f64": 1e-13, "c64": 1e-6, "bf16": 2e-2, "f16": 4e-3}

PRIMS = ["copy_polar", "copy_azimuth", "reduce_polar", "reduce_azimuth", "scatter_polar", "gather_polar", "rs_polar", "rs_azimuth", "gather_copy_polar", "t_azimuth", "t_polar", "halo", "neighbors"]


def prepare(tier):
    sim.install()


def cases(tier):
    out = []
    big = 40 if tier == "quick" else 120
    for k in range(1, 9):
        out.append({"part": "split", "chunks": k, "max": big})
    out.append({"part": "pad"})
    for seq in itertools.product(range(5), repeat=3 if tier == "quick" else 4):
        out.append({"part": "life", "seq": list(seq)})
    for P, A in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (1, 4)] + ([(3, 2), (2, 3)] if tier == "thorough" else []):
        for prim in PRIMS:
            layouts = ["rows", "cols", "rev"] if P * A > 2 and (P > 1 and A > 1) else ["rows", "rev"]
            for layout in layouts:
                out.append({"part": "prim", "prim": prim, "P": P, "A": A, "layout": layout, "tier": tier})
    return out


def run_case(c, R):
    globals()[f"run_{c['part']}"](c, R)


def run_split(c, R):
    import torch_harmonics.distributed as thd

    k = c["chunks"]
    for n in range(1, c["max"] + 1):
        R.state("split", n, k)
        R.step()
        if n < k:
            for f in (lambda: thd.compute_split_shapes(n, k), lambda: thd.split_tensor_along_dim(torch.zeros(2, n), 1, k)):
                try:
                    f()
                    R.fail("empty-chunk-accepted", f"{n} into {k}")
                except Exception:
                    R.trace()
            continue
        s = list(thd.compute_split_shapes(n, k))
        R.check(s == sim.split(n, k), "split-sizes", f"{n} into {k}: {s}")
        if n <= 24:
            for shape, dim in (((n,), 0), ((2, n), 1), ((n, 3), 0), ((2, n, 3), 1), ((2, n, 3), -2), ((2, n), -1)):
                t = torch.arange(float(np.prod(shape))).reshape(shape)
                parts = thd.split_tensor_along_dim(t, dim, k)
                R.step()
                R.check(len(parts) == k and torch.equal(torch.cat(list(parts), dim=dim), t), "split-tensor", f"{shape} {dim} {k}")
                R.check([p.shape[dim] for p in parts] == sim.split(n, k), "split-tensor-sizes", f"{shape} {dim} {k}")


def run_pad(c, R):
    import torch_harmonics.distributed as thd

    for lead in ((), (1,), (3,), (2, 3), (1, 1, 2), (2, 1)):
        for nt in (2, 3):
            for m in range(1, 9):
                for dt in (torch.float32, torch.complex64):
                    shape = lead + ((2,) if nt == 3 else ()) + (3, 4)
                    x = torch.as_tensor(ref.pattern(*shape)).to(dt)
                    y, ls, n = thd.flatten_and_pad_leading_dims(x, m, num_trailing_dims=nt)
                    R.state("pad", lead, nt, m, str(dt))
                    R.step(2)
                    tot = int(np.prod(lead)) if lead else 1
                    R.check(tuple(y.shape) == (max(tot, m),) + shape[-nt:] and y.dtype == dt, "pad-shape", f"{tuple(y.shape)} for {shape} {m}")
                    R.check(torch.equal(y[:tot].reshape(shape), x) and not bool(y[tot:].abs().any()), "pad-values", f"{shape} {m}")
                    # the transform may change the trailing sizes
                    z = y[..., :2]
                    R.same(thd.unpad_and_unflatten_leading_dims(z, ls, n, num_trailing_dims=nt), x[..., :2], "unpad")


def run_life(c, R):
    """communicator lifecycle as seen by one rank of a 2x3 grid"""
    P, A = 2, 3
    m = D.Mesh(P, A)
    acts = [(True, True), (True, False), (False, True), (False, False), "fin"]
    exp_log = []
    seq = [acts[s] for s in c["seq"]]

    def fn(rank):
        import torch_harmonics.distributed as thd

        log = []
        gen = 0
        for a in seq:
            if a == "fin":
                thd.finalize()
            else:
                gen += 1
                pg = sim.Group(f"p{gen}", m.polar[rank].ranks) if a[0] else None
                ag = sim.Group(f"a{gen}", m.azim[rank].ranks) if a[1] else None
                thd.init(pg, ag)
            log.append((thd.is_initialized(), thd.is_distributed_polar(), thd.is_distributed_azimuth(), thd.polar_group_size(), thd.azimuth_group_size(), thd.polar_group_rank(), thd.azimuth_group_rank(),
                        getattr(thd.polar_group(), "name", None), getattr(thd.azimuth_group(), "name", None)))
        return log, sorted(sim.CTX.destroyed)

    r = sim.run(fn, P * A, sim.Priority(range(P * A)))
    R.step(len(seq) * P * A)
    R.state(*c["seq"])
    for rank, (log, destroyed) in r.results.items():
        p, a = m.pos[rank]
        init, pg, ag, gen, dead = False, None, None, 0, []
        for act, got in zip(seq, log):
            if act == "fin":
                if init:
                    dead += [g for g in (pg, ag) if g]
                    pg = ag = None
                init = False
            else:
                gen += 1
                init, pg, ag = True, (f"p{gen}" if act[0] else None), (f"a{gen}" if act[1] else None)
            want = (init, pg is not None, ag is not None, P if pg else 1, A if ag else 1, p if pg else 0, a if ag else 0, pg, ag)
            R.check(got == want, "lifecycle", lambda: f"{seq} rank {rank}: {got} != {want}")
        R.check(destroyed == sorted(dead), "destroyed-groups", f"{seq}: destroyed {destroyed}, expected {sorted(dead)}")


def data(shape, dt, k):
    return (torch.as_tensor(ref.cpattern(*shape, k=k)) if dt.is_complex else torch.as_tensor(ref.pattern(*shape, k=k))).to(dt)


def variants(prim, G, tier):
    """(global shape, axis/axes, dtype) lists"""
    sizes = [s for s in (G, G + 1, 2 * G, 2 * G + 1, 3 * G - 1) if s >= G]
    sizes = sorted(set(sizes))
    v = []
    if prim.startswith(("copy", "reduce")):
        for sh in ((3,), (2, 3), (1,), (2, 1, 2, 2)):
            v += [(sh, None, d) for d in DT]
    elif prim.startswith(("scatter", "gather", "rs")):
        for n in sizes:
            for sh, dim in (((2, n), 1), ((n, 2), 0), ((2, n, 3), -2), ((1, 2, 2, n), -1)):
                v += [(sh, dim, d) for d in (DT if n in (sizes[-1], 2 * G) else ("f32", "c64"))]
    elif prim.startswith("t_"):
        for n in sizes:
            for k in sizes:
                for dims in ((1, -1), (-1, 1), (0, -2), (-3, -2), (1, -2)):
                    sh = [2 * G, 2, 2, 2]
                    sh[dims[0]], sh[dims[1]] = k, n
                    v += [(tuple(sh), dims, d) for d in (("f32", "c64", "bf16", "f64") if n == k else ("c64",))]
    elif prim == "halo":
        for h in (1, 2, 3):
            n_ = [h * G, h * G + 1] if G > 1 else [h]
            for n in n_:
                for r in range(0, h + 1):
                    v += [((1, 2, n, 3), r, d) for d in ("f32", "f64")]
                v += [((2, 1, n, 2), h, "bf16")]
    else:
        v = [((2,), None, "f32")]
    return v


def run_prim(c, R):
    prim, P, A = c["prim"], c["P"], c["A"]
    polar = not prim.endswith("azimuth")
    if prim == "neighbors":
        polar = None
    G = P if polar in (True, None) else A
    nones = [(False, False)]
    if P * A <= 2:
        nones += [(P == 1, A == 1)] if (P == 1 or A == 1) else []
    vs = variants(prim, G, c["tier"])
    for nn in nones:
        m = D.Mesh(P, A, c["layout"], *nn)
        for dbg in (False, True):
            for pol in D.POLICIES:
                if dbg and pol is not D.POLICIES[0]:
                    continue

                def scenario(thd, p, a):
                    thd.config.debug = dbg
                    return [exec_prim(thd, prim, v, p, a, P, A, G, p if polar in (True, None) else a) for v in vs]

                try:
                    r, parts = m.run(scenario, *pol)
                except sim.SimError as e:
                    R.fail("protocol", f"{c} {pol}: {e}")
                    continue
                R.step(r.steps)
                for j, v in enumerate(vs):
                    R.state(prim, P, A, c["layout"], nn, dbg, pol, j)
                    for (p, a), res in parts.items():
                        if prim == "neighbors":
                            R.check(res[j]["me"][0] == m.inv[(p, a)], "harness-rank")
                            for nm, none, want in (("polar", nn[0], (m.inv[((p - 1) % P, a)], m.inv[((p + 1) % P, a)])), ("azimuth", nn[1], (m.inv[(p, (a - 1) % A)], m.inv[(p, (a + 1) % A)]))):
                                R.check(none or tuple(int(t) for t in res[j][nm]) == want, "neighbors", lambda: f"{nm} neighbours of {(p, a)}: {res[j][nm]} != {want}")
                            continue
                        want = model(prim, v, p, a, P, A, G, nn[0])
                        for k in want:
                            D.close(R, res[j][k], want[k], TOL[v[2]], f"{prim}-{k}", f"{v} mesh {P}x{A} rank {(p, a)} {pol}")
                            if v[2] in ("bf16", "f16") and (k == "out" and prim.startswith(("reduce", "rs")) or k == "grad" and prim.startswith(("copy", "gather_copy"))):
                                # half-precision sums are formed in single precision and rounded once
                                w = D.to_np(want[k])
                                u = 2.0**-8 if v[2] == "bf16" else 2.0**-11
                                R.check(bool((np.abs(res[j][k] - w) <= 1.01 * u * np.abs(w) + 1e-6).all()), f"{prim}-{k}-rounding", lambda: f"{v} mesh {P}x{A} rank {(p, a)}: {res[j][k].tolist()} exact {w.tolist()}")


def local_in(prim, v, p, a, P, A, G):
    sh, ax, d = v
    dt = DT[d]
    i = a if prim.endswith("azimuth") else p
    o = p if prim.endswith("azimuth") else a  # position in the other group: independent data
    if prim in ("copy_polar", "copy_azimuth", "scatter_polar"):
        return data(sh, dt, 100 * o)  # replicated in the group
    if prim.startswith(("reduce", "rs")):
        return data(sh, dt, 7 * i + 100 * o)
    if prim in ("gather_polar", "gather_copy_polar"):
        return sim.shard(data(sh, dt, 100 * o), ax % len(sh), G, i)
    if prim.startswith("t_"):
        return sim.shard(data(sh, dt, 100 * o), ax[1] % len(sh), G, i)
    if prim == "halo":
        return sim.shard(data(sh, dt, 100 * o), 2, G, i)


def exec_prim(thd, prim, v, p, a, P, A, G, i):
    sh, ax, d = v
    if prim == "neighbors":
        out = {}
        for nm, g in (("polar", thd.polar_group()), ("azimuth", thd.azimuth_group())):
            out[nm] = np.array(thd.get_group_neighbors(g) if g is not None else (-1, -1))
        out["me"] = np.array([sim.CTX.rank])
        return out
    base = local_in(prim, v, p, a, P, A, G)
    # non-contiguous view of the same values
    x = base.transpose(0, -1).contiguous().transpose(0, -1).requires_grad_()
    keep = x.detach().clone()
    f = {
        "copy_polar": lambda: thd.copy_to_polar_region(x),
        "copy_azimuth": lambda: thd.copy_to_azimuth_region(x),
        "reduce_polar": lambda: thd.reduce_from_polar_region(x),
        "reduce_azimuth": lambda: thd.reduce_from_azimuth_region(x),
        "scatter_polar": lambda: thd.scatter_to_polar_region(x, ax),
        "gather_polar": lambda: thd.gather_from_polar_region(x, ax, sim.split(sh[ax], G) if sh[ax] % 2 else None),
        "gather_copy_polar": lambda: thd.gather_from_copy_to_polar_region(x, ax, sim.split(sh[ax], G)),
        "rs_polar": lambda: thd.reduce_from_scatter_to_polar_region(x, ax),
        "rs_azimuth": lambda: thd.reduce_from_scatter_to_azimuth_region(x, ax),
        "t_azimuth": lambda: thd.distributed_transpose_azimuth(x, ax, sim.split(sh[ax[1]], G)),
        "t_polar": lambda: thd.distributed_transpose_polar(x, ax, sim.split(sh[ax[1]], G)),
        "halo": lambda: thd.polar_halo_exchange(x, ax),
    }[prim]
    y = f()
    y = y * 1
    go = gout(prim, v, p, a, y.shape, G)
    gk = go.clone()
    y.backward(go)
    ok = torch.equal(x.detach(), keep) and torch.equal(go, gk)
    return {"out": D.to_np(y), "grad": D.to_np(x.grad), "kept": np.array([ok])}


def gout(prim, v, p, a, shape, G):
    i, o = (a, p) if prim.endswith("azimuth") else (p, a)
    rep = prim.startswith("reduce") or prim == "gather_polar"  # output replicated: its gradient is too
    return data(tuple(shape), DT[v[2]], (0 if rep else 3 * i) + 50 + 100 * o)


def model(prim, v, p, a, P, A, G, nopolar=False):
    """what the primitive and its documented backward mean, from the inputs of all ranks"""
    sh, ax, d = v
    az = prim.endswith("azimuth")
    i, o = (a, p) if az else (p, a)
    if prim == "neighbors":
        return {}
    at = lambda j: (o, j) if az else (j, o)
    xs = [local_in(prim, v, *at(j), P, A, G) for j in range(G)]
    acc = torch.complex128 if DT[d].is_complex else torch.float64
    xs = [x.to(acc) for x in xs]
    nd = len(sh)

    def g(j, shape):
        return gout(prim, v, *at(j), shape, G).to(acc)

    if prim.startswith("copy"):
        return {"out": xs[i], "grad": sum(g(j, sh) for j in range(G)), "kept": np.array([True])}
    if prim.startswith("reduce"):
        return {"out": sum(xs), "grad": g(i, sh), "kept": np.array([True])}
    if prim == "scatter_polar":
        outs = [sim.shard(xs[j], ax % nd, G, j) for j in range(G)]
        return {"out": outs[i], "grad": torch.cat([g(j, outs[j].shape) for j in range(G)], dim=ax), "kept": np.array([True])}
    if prim.startswith("gather"):
        full = torch.cat(xs, dim=ax)
        gr = g(i, full.shape) if prim == "gather_polar" else sum(g(j, full.shape) for j in range(G))
        return {"out": full, "grad": sim.shard(gr, ax % nd, G, i), "kept": np.array([True])}
    if prim.startswith("rs"):
        s = sum(xs)
        outs = [sim.shard(s, ax % nd, G, j) for j in range(G)]
        return {"out": outs[i], "grad": torch.cat([g(j, outs[j].shape) for j in range(G)], dim=ax), "kept": np.array([True])}
    if prim.startswith("t_"):
        full = torch.cat(xs, dim=ax[1])
        outs = [sim.shard(full, ax[0] % nd, G, j) for j in range(G)]
        gf = torch.cat([g(j, outs[j].shape) for j in range(G)], dim=ax[0])
        return {"out": outs[i], "grad": sim.shard(gf, ax[1] % nd, G, i), "kept": np.array([True])}
    if prim == "halo":
        if nopolar:  # no polar group registered: nothing to exchange
            return {"out": xs[i], "grad": g(i, xs[i].shape), "kept": np.array([True])}
        full = torch.cat(xs, dim=2)
        r = ax
        z = torch.zeros_like(full[:, :, :1].expand(-1, -1, r, -1))
        pad = torch.cat([z, full, z], dim=2)
        offs = [sim.bounds(full.shape[2], G, j) for j in range(G)]
        outs = [pad[:, :, lo : hi + 2 * r] for lo, hi in offs]
        gp = torch.zeros_like(pad)
        for j, (lo, hi) in enumerate(offs):
            gp[:, :, lo : hi + 2 * r] += g(j, outs[j].shape)
        lo, hi = offs[i]
        return {"out": outs[i], "grad": gp[:, :, r + lo : r + hi], "kept": np.array([True])}
