"""Run one scenario on a simulated process grid and reassemble its sharded results."""
import copy
import inspect

import numpy as np
import torch

import sim

# schedule x delivery x capture policies used by the value checks (the schedule check explores many more)
POLICIES = (("up", "eager", "early"), ("down", "lazy", "late"))


def to_np(t):
    if t is None:
        return None
    t = t.detach()
    if t.dtype == torch.bfloat16:
        t = t.float()
    return t.resolve_conj().contiguous().numpy().copy()


class Mesh:
    def __init__(self, P, A, layout="rows", none_polar=False, none_azimuth=False):
        self.P, self.A, self.world = P, A, P * A
        self.pos, self.inv, self.polar, self.azim = sim.mesh(P, A, layout, none_polar, none_azimuth)
        self.layout = layout

    def run(self, scenario, sched="up", delivery="eager", capture="early", keep=False):
        """scenario(thd, p, a) -> {name: numpy}; returns (Run, {(p,a): dict})"""
        polar, azim, pos = self.polar, self.azim, self.pos

        def fn(rank):
            import torch_harmonics.distributed as thd

            thd.init(polar[rank], azim[rank])
            out = scenario(thd, *pos[rank])
            if not keep:
                thd.finalize()
            return out

        if isinstance(sched, str):
            order = list(range(self.world))
            sched = sim.Priority(order if sched == "up" else order[::-1])
        r = sim.run(fn, self.world, sched, delivery, capture)
        return r, {pos[k]: v for k, v in r.results.items()}


def assemble(parts, name, P, A, hdim, wdim):
    """concatenate the shards of a tensor split over the polar group along hdim and the azimuth group along wdim"""
    rows = []
    for p in range(P):
        if wdim is None:
            rows.append(parts[(p, 0)][name])
        else:
            rows.append(np.concatenate([parts[(p, a)][name] for a in range(A)], axis=wdim))
    return rows[0] if hdim is None else np.concatenate(rows, axis=hdim)


def shard2(t, P, A, p, a, hdim=-2, wdim=-1):
    t = sim.shard(t, hdim % t.dim(), P, p) if hdim is not None else t
    return sim.shard(t, wdim % t.dim(), A, a) if wdim is not None else t


def close(R, got, want, tol, label, what=""):
    """arrays; tolerance relative to the largest reference magnitude"""
    R.trace()
    want = to_np(want) if isinstance(want, torch.Tensor) else want
    if got is None or want is None:
        if (got is None) != (want is None):
            R.fail(label, f"{what}: {'missing' if got is None else 'unexpected'} tensor")
            return False
        return True
    if got.shape != want.shape:
        R.fail(label, f"{what}: shape {got.shape} != {want.shape}")
        return False
    if np.iscomplexobj(got) != np.iscomplexobj(want):
        R.fail(label, f"{what}: dtype {got.dtype} vs {want.dtype}")
        return False
    if got.size == 0:
        return True
    s = max(1.0, float(np.abs(want).max()))
    d = np.abs(got.astype(np.complex128) - want.astype(np.complex128))
    R.outcome((got.shape, np.round(got.reshape(-1)[:8] * 1.0, 4).tobytes()))
    if not bool((d <= tol * s).all()):
        bad = ~(d <= tol * s)
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        R.fail(label, f"{what}: {int(bad.sum())}/{d.size} entries differ, worst at {[int(j) for j in i]}: got {got[i]} reference {want[i]}")
        return False
    return True


# ----------------------------------------------------------------------------- one-input layers
class Item:
    """A layer with one sharded input and one output.

    xs/ys = (dim split over the polar group, dim split over the azimuth group) or None per entry; ys=None: replicated.
    pspec(name) = (polar dim, azimuth dim, sum_polar, sum_azimuth) for its parameters.
    """

    def __init__(self, name, serial, dist, x, xs=(-2, -1), ys=(-2, -1), pspec=None, setp=None, tol=1e-5, gtol=None, lay="c", grad=True, pgrad=True, refuse=None, prep=None):
        self.name, self.serial, self.dist, self.x, self.xs, self.ys = name, serial, dist, x, xs, ys
        self.pspec = pspec or (lambda n: (None, None, True, True))
        self.setp = setp
        self.prep = prep
        self.tol, self.gtol, self.lay, self.grad, self.pgrad, self.refuse = tol, gtol or 10 * tol, lay, grad, pgrad, refuse


def prepare_layer(lay, prep, x):
    """histories a layer may have before it is used: they must not change what it computes"""
    if prep in ("double", "float"):
        lay = getattr(lay, prep)()
    elif prep == "copy":
        lay = copy.deepcopy(lay)
    elif prep == "state":
        sd = {k: v.clone() for k, v in lay.state_dict().items()}
        with torch.no_grad():
            for p in lay.parameters():
                p.zero_()
        lay.load_state_dict(sd)
    elif prep == "warm":
        # an earlier call with another batch and values
        lay(torch.cat([x.detach() * 0.5 + 0.25, x.detach()]))
    elif prep == "lowered":
        # an earlier call in another precision
        other = {torch.float64: torch.float32, torch.float32: torch.float64, torch.complex128: torch.complex64, torch.complex64: torch.complex128}[x.dtype]
        lay(x.detach().to(other) * 0.5)
    elif prep == "frozen":
        with torch.no_grad():
            lay(x.detach() - 0.5)
        lay = lay.eval()
    return lay


def nondefault(cls, kw, on=True):
    """kw without the arguments that have the serial class's default value: what a user leaves out must mean the same in both layers"""
    sig = inspect.signature(cls.__init__).parameters
    return {k: v for k, v in kw.items() if not (on and k in sig and sig[k].default is not inspect.Parameter.empty and type(sig[k].default) is type(v) and sig[k].default == v)}


def strided(t, lay):
    """same values, different memory layout"""
    if lay == "c":
        return t.clone()
    if lay == "t":  # last two axes transposed in memory
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if lay == "cl":  # leading axis moved to the end in memory
        return t.movedim(0, -1).contiguous().movedim(-1, 0)
    if lay == "s":  # every second element of a larger buffer
        b = torch.zeros(*t.shape[:-1], 2 * t.shape[-1], dtype=t.dtype)
        b[..., ::2] = t
        return b[..., ::2]
    raise ValueError(lay)


def pat(shape, k=0, dtype=torch.float32):
    import ref

    t = torch.as_tensor(ref.cpattern(*shape)) if dtype.is_complex else torch.as_tensor(ref.pattern(*shape, k=k))
    return t.to(dtype)


def _go(y):
    return pat(tuple(y.shape), 5, y.dtype)


def check_items(R, m, items, policies=POLICIES, tag=()):
    """run the items on the mesh; compare gathered outputs and gradients with the serial layers"""
    P, A = m.P, m.A
    refs = []
    for it in items:
        if it.refuse:
            refs.append((None, None, {}))
            continue
        ser = it.serial()
        if it.setp:
            it.setp(ser, None)
        if it.prep in ("double", "float"):
            ser = prepare_layer(ser, it.prep, it.x)
        for p in ser.parameters():
            p.requires_grad_(it.pgrad)
        x = it.x.clone().requires_grad_(it.grad)
        y = ser(x)
        if it.grad or (it.pgrad and list(ser.parameters())):
            y.backward(_go(y))
        refs.append((y.detach(), x.grad, {n: (p.detach(), p.grad) for n, p in ser.named_parameters()}))
        it.checkpoint = sorted(ser.state_dict())

    def scenario(thd, p, a):
        res = []
        for it, (y, gx, ps) in zip(items, refs):
            if it.refuse:
                try:
                    lay = it.dist(thd)
                    res.append({"refused": False})
                except (ValueError, NotImplementedError):
                    res.append({"refused": True})
                continue
            lay = it.dist(thd)
            if it.setp:
                it.setp(lay, (P, A, p, a))
            lay = prepare_layer(lay, it.prep, shard2(it.x, P, A, p, a, *it.xs))
            for pp in lay.parameters():
                pp.requires_grad_(it.pgrad)
            xl0 = strided(shard2(it.x, P, A, p, a, *it.xs), it.lay)
            early = None
            if it.prep == "overlap":
                # the graph and the result of an earlier call stay alive across this one
                xe = (shard2(it.x, P, A, p, a, *it.xs) * 0.5).requires_grad_()
                ye = lay(xe)
                early = (xe, ye, ye.detach().clone())
            xl = xl0.requires_grad_(it.grad)
            yl = lay(xl)
            if yl.requires_grad:
                go = _go(y)
                yl.backward(go if it.ys is None else shard2(go, P, A, p, a, *it.ys))
            d = {"y": to_np(yl), "dt": str(yl.dtype), "gx": to_np(xl.grad), "kept": bool(torch.equal(xl.detach(), shard2(it.x, P, A, p, a, *it.xs))), "sd": sorted(lay.state_dict())}
            for n, pp in lay.named_parameters():
                d["p:" + n] = to_np(pp)
                d["g:" + n] = to_np(pp.grad)
            if early is not None:
                d["kept"] &= bool(torch.equal(early[1].detach(), early[2]))
                early[1].backward(torch.ones_like(early[1]))
                d["kept"] &= bool(torch.isfinite(torch.view_as_real(early[0].grad) if early[0].grad.is_complex() else early[0].grad).all())
            res.append(d)
        return res

    for pol in policies:
        try:
            r, parts = m.run(scenario, *pol)
        except sim.SimError as e:
            R.fail("protocol", f"{[i.name for i in items][:3]}.. mesh {P}x{A} {m.layout} {pol}: {e}")
            continue
        R.step(r.steps)
        for j, (it, (y, gx, ps)) in enumerate(zip(items, refs)):
            sub = {k: v[j] for k, v in parts.items()}
            what = f"{it.name} mesh {P}x{A} {m.layout} {pol}"
            R.state(P, A, m.layout, it.name, pol, *tag)
            if it.refuse:
                R.check(all(s["refused"] for s in sub.values()), "invalid-accepted", what)
                continue
            R.check(all(s["dt"] == str(y.dtype) for s in sub.values()), "dtype", lambda: f"{what}: {[s['dt'] for s in sub.values()]} vs {y.dtype}")
            R.check(all(s["sd"] == it.checkpoint for s in sub.values()), "checkpoint", lambda: f"{what}: {[s['sd'] for s in sub.values()]} vs serial {it.checkpoint}")
            if it.ys is None:
                for k, s in sub.items():
                    close(R, s["y"], y, it.tol, "value", f"{what} rank {k}")
            else:
                got = gather(R, sub, "y", P, A, it.ys, y, what)
                if got is not None:
                    close(R, got, y, it.tol, "value", what)
            R.check(all(s["kept"] for s in sub.values()), "input-mutated", what)
            if it.grad:
                got = gather(R, sub, "gx", P, A, it.xs, gx, what)
                if got is not None:
                    close(R, got, gx, it.gtol, "input-grad", what)
            names = {n[2:] for n in sub[(0, 0)] if n.startswith("p:")}
            if not R.check(names == set(ps), "parameters", lambda: f"{what}: {sorted(names)} vs serial {sorted(ps)}"):
                continue
            for n, (pv, pg) in ps.items():
                pd, ad, sp_, sa = it.pspec(n)
                acc = {}
                for (p, a), s in sub.items():
                    k = (p if not sp_ else 0, a if not sa else 0)
                    g = s["g:" + n]
                    if g is None:
                        continue
                    acc[k] = acc[k] + g if k in acc else g
                if not it.pgrad:
                    continue
                if pg is None or not acc:
                    R.check(pg is None and not acc, "param-grad", f"{n} {what}: missing")
                    continue
                rows = []
                for p in sorted({k[0] for k in acc}):
                    cols = [acc[k] for k in sorted(acc) if k[0] == p]
                    rows.append(np.concatenate(cols, axis=ad) if ad is not None else cols[0])
                got = np.concatenate(rows, axis=pd) if pd is not None else rows[0]
                close(R, got, pg, it.gtol, "param-grad", f"{n} {what}")


def gather(R, sub, name, P, A, split, want, what):
    if want is None or any(s[name] is None for s in sub.values()):
        R.check(want is None and all(s[name] is None for s in sub.values()), "missing-" + name, what)
        return None
    h, w = split
    # replicated along an axis: all copies must agree (they are compared one by one)
    for k, s in sub.items():
        shp = list(want.shape)
        if h is not None:
            shp[h] = sim.split(want.shape[h], P)[k[0]]
        if w is not None:
            shp[w] = sim.split(want.shape[w], A)[k[1]]
        if tuple(shp) != s[name].shape:
            R.fail("shard-shape", f"{what} {name} rank {k}: {s[name].shape} expected {tuple(shp)}")
            return None
    return assemble(sub, name, P, A, h, w)
