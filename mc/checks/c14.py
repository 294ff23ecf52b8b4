"""Results do not depend on what was built, modified, moved or evicted before."""
import itertools
import os
import pickle

import numpy as np
import torch

import families
import ref
import zoo

RULE = (
    "histories: every sequence of operations up to the depth bound over {build a component and overwrite all its tensors, build and move it to another dtype, "
    "build/run/differentiate it, overwrite the tensors returned by the precompute functions, evict every cache, change global defaults between builds}; each history starts from a cold process "
    "(fork); after it every component is rebuilt and its output, gradients and stored tensors are compared with those of the same component alone in a cold process"
)
ASSUMPTIONS = ["filter basis objects are shared between layers by design and are not overwritten", "single-threaded histories"]
PRE = [("lat", n, g) for n in (4, 5) for g in ("equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal")] + [("lon", 8, None), ("lon", 6, None)]


def ops():
    o = [("mutate", n) for n in ("sht-equiangular", "isht-legendre-gauss", "sht-schmidt", "vsht", "ivsht", "conv-True", "conv-False", "convT-True", "attn-True", "attn-up-True", "conv-savex", "gattn", "spec", "resample", "quad", "conv-zernike", "conv-fb")]
    o += [("dtype", n) for n in ("sht-legendre-gauss", "conv-True", "convT-False", "vsht", "quad", "resample-sph")]
    o += [("run", n) for n in ("conv-fused", "attn-True", "isht-lobatto", "resample-sph")]
    o += [("premutate", None), ("evict", None)]
    o += [("ctx", n) for n in ("default-dtype", "inference", "autocast")]
    return o


def cases(tier):
    d = 2 if tier == "quick" else 3
    out = []
    for name, mem in families.families().items():
        n = len(mem)
        # every member first, then all others ascending / descending; thorough: every ordered pair started cold
        orders = [[i] + [j for j in (range(n) if up else range(n - 1, -1, -1)) if j != i] for i in range(n) for up in (True, False)]
        if tier != "quick":
            orders += [[i, j] for i in range(n) for j in range(n) if i != j]
        for k in range(0, len(orders), 6 if tier == "quick" else 40):
            out.append({"family": name, "orders": orders[k : k + (6 if tier == "quick" else 40)]})
    for k in range(1, d + 1):
        seqs = list(itertools.product(range(len(ops())), repeat=k))
        # a case carries a block of sequences; each sequence still starts cold
        for j in range(0, len(seqs), 16):
            out.append({"depth": k, "seqs": [list(s) for s in seqs[j : j + 16]]})
    return out


def apply(op, Z):
    kind, n = op
    import torch_harmonics as th
    from torch_harmonics.quadrature import precompute_latitudes, precompute_longitudes
    from torch_harmonics.filter_basis import get_filter_basis

    if kind == "mutate":
        m = Z[n][0]()
        for t in zoo.tensors_of(m):
            with torch.no_grad():
                (t._values() if t.is_sparse else t).fill_(7)
    elif kind == "dtype":
        m = Z[n][0]().to(torch.bfloat16).to(torch.float64)
        del m
    elif kind == "run":
        m = Z[n][0]()
        args = [a.requires_grad_() for a in zoo.feed(Z[n][1](), zoo.native(n))]
        y = m(*args)
        (y.abs().sum() if y.is_complex() else y.sum()).backward()
        with torch.no_grad():
            y.fill_(3)
    elif kind == "ctx":
        # everything is built once in another global context; what is built afterwards must not inherit it
        build = lambda: [Z[k][0]() for k in Z]
        if n == "default-dtype":
            old = torch.get_default_dtype()
            torch.set_default_dtype(torch.float64)
            try:
                build()
            finally:
                torch.set_default_dtype(old)
        elif n == "inference":
            with torch.inference_mode():
                build()
        else:
            with torch.autocast("cpu", dtype=torch.bfloat16):
                build()
    elif kind == "premutate":
        for k, a, g in PRE:
            r = precompute_latitudes(a, grid=g) if k == "lat" else precompute_longitudes(a)
            for t in r if isinstance(r, tuple) else (r,):
                t.fill_(-5)
    elif kind == "evict":
        for a in range(10, 33):
            precompute_latitudes(a, grid="legendre-gauss")
            precompute_longitudes(a)
            get_filter_basis(a - 8, "piecewise linear")
            th.RealSHT(3, a)
            th.RealVectorSHT(3, a)
        for a in range(22):
            th.NeighborhoodAttentionS2(1, (2, 2), (2, 2), theta_cutoff=0.1 + 0.01 * a)


def _np(t):
    t = t.detach()
    if t.is_sparse:
        t = t.coalesce()
        return np.concatenate([t.indices().double().numpy().reshape(-1), t.values().double().numpy().reshape(-1)])
    if t.is_complex():
        t = torch.view_as_real(t)
    return t.double().numpy().copy()


def probes(Z):
    return [f"{k}-{a}-{g}" for k, a, g in PRE] + list(Z)


def probe(Z, name):
    from torch_harmonics.quadrature import precompute_latitudes, precompute_longitudes

    for k, a, g in PRE:
        if name == f"{k}-{a}-{g}":
            r = precompute_latitudes(a, grid=g) if k == "lat" else precompute_longitudes(a)
            return [_np(t) for t in (r if isinstance(r, tuple) else (r,))]
    make, args = Z[name]
    m = make()
    a = [t.requires_grad_() for t in zoo.feed(args(), zoo.native(name))]
    y = m(*a)
    y.backward(torch.ones_like(y))
    bufs = [_np(b) for _, b in sorted(m.named_buffers())]
    return [_np(y)] + [_np(t.grad) for t in a] + [_np(p.grad) for _, p in sorted(m.named_parameters())] + bufs


def member(fam, i):
    _, make, args = families.families()[fam][i]
    m = make()
    a = [t.requires_grad_() for t in zoo.feed(args(), families.native(fam))]
    y = m(*a)
    grads = torch.autograd.grad(y, a, torch.ones_like(y), allow_unused=True)
    return [_np(y)] + [_np(g) for g in grads if g is not None] + [_np(b) for _, b in sorted(m.named_buffers())]


def fingerprint(Z):
    return {n: probe(Z, n) for n in probes(Z)}


def same(a, b):
    # identical up to the rounding of a different vectorisation; history effects are orders of magnitude larger
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-6 * max(1.0, np.abs(y).max(initial=0.0))) for x, y in zip(a, b))


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps({"ok": fn()})
        except BaseException as e:
            import traceback

            data = pickle.dumps({"err": traceback.format_exc()[-1200:]})
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else {"err": "child died"}


_base = None
_alone = {}


def prepare(tier):
    global _base
    import torch_harmonics  # import only: caches stay cold

    # every component alone in its own cold process: the reference shares no history with anything
    Z = zoo.zoo()
    _base = {}
    jobs = [(f, i) for f, mem in families.families().items() for i in range(len(mem))]
    global _alone
    _alone = {}
    for f, i in jobs:
        r = in_child(lambda: member(f, i))
        if "err" in r:
            _base = {"err": f"{f} {families.families()[f][i][0]}: {r['err']}"}
            return
        _alone[f, i] = r["ok"]
    for n in probes(Z):
        r = in_child(lambda: probe(zoo.zoo(), n))
        if "err" in r:
            _base = {"err": f"{n}: {r['err']}"}
            return
        _base[n] = r["ok"]


def run_case(c, R):
    O = ops()
    if "err" in _base:
        R.fail("baseline", _base["err"])
        return
    if "family" in c:
        fam = c["family"]
        for order in c["orders"]:
            got = in_child(lambda: [member(fam, i) for i in order])
            R.state(fam, *order)
            if "err" in got:
                R.fail("exception", f"{fam} {order}: {got['err']}")
                continue
            for pos, i in enumerate(order):
                R.step()
                R.outcome(float(np.round(_alone[fam, i][0].reshape(-1)[0], 9)))
                R.check(same(got["ok"][pos], _alone[fam, i]), "history-dependent", lambda: f"{fam} {families.families()[fam][i][0]} differs when built after members {order[:pos]}")
        return
    for seq in c["seqs"]:
        def go():
            Z = zoo.zoo()
            for s in seq:
                apply(O[s], Z)
            return fingerprint(Z)

        got = in_child(go)
        R.step(len(seq) + 1)
        R.state(*seq)
        if "err" in got:
            R.fail("exception", f"{[O[s] for s in seq]}: {got['err']}")
            continue
        for k, v in _base.items():
            R.outcome(float(np.round(v[0].reshape(-1)[0], 9)))
            R.check(same(got["ok"][k], v), "history-dependent", lambda: f"{k} differs after {[O[s] for s in seq]}")
