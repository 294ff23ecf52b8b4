"""A module's result survives its whole lifecycle: every sequence of mode switches, copies, (de)serialisation, moves and use."""
import copy
import io
import itertools
import pickle

import torch

import zoo

RULE = (
    "for every component, every sequence of lifecycle operations up to the depth bound {train, eval, move to the same device, float->double->float, deepcopy then scramble the original, pickle, torch.save/load, state_dict into a fresh module, "
    "freeze/unfreeze, forward, forward+backward, forward without grad, forward in inference mode, forward with another batch, with other values in the same storage, in another precision, optimizer step in place, replacement of parameter data, load_state_dict by assignment, zero_grad, share_memory}; after each sequence the module's output and gradients are compared bitwise with those of a fresh module "
    "(tolerance after precision changes); all interleavings of several forward and backward passes with live graphs; parameters, buffers and inputs must be unmodified by use"
)
ASSUMPTIONS = ["dropout disabled", "CPU", "components that refuse double precision are not moved to it"]
OPS = ["train", "eval", "to_same", "fdf", "deepcopy", "pickle", "save", "state_dict", "freeze", "unfreeze", "fwd", "bwd", "nograd", "infer", "batch", "zero", "share", "step", "data", "assign", "other", "precision"]
USE = {"fwd", "bwd", "nograd", "infer", "batch", "eval", "train", "to_same", "zero", "other", "precision"}


CHANGE = {"step", "data", "assign"}


def args_of(comp):
    return zoo.zoo()[comp][1]()


def names():
    return [n for n in zoo.zoo()]


def prepare(tier):
    import torch_harmonics  # noqa


def cases(tier):
    out = []
    for n in names():
        if "-alt" in n and not (n.endswith("-alt0") and n.startswith(("conv", "sht", "isht", "vsht", "ivsht"))):
            continue
        for a in OPS:
            out.append({"comp": n, "first": a, "depth": 2 if tier == "quick" else 3})
        out.append({"comp": n, "first": "overlap", "n": 2 if tier == "quick" else 3})
    return out


def overlaps(n):
    """all interleavings of n forward/backward pairs, each backward possibly done twice"""
    def rec(seq, f, b):
        if len(seq) == 2 * n:
            yield tuple(seq)
            return
        if len(f) < n:
            yield from rec(seq + [("F", len(f))], f + [len(f)], b)
        for j in f:
            if j not in b:
                yield from rec(seq + [("B", j)], f, b + [j])

    return list(rec([], [], []))


def run_overlap(c, R, make, feed):
    """several calls of one module whose graphs are alive at the same time must not disturb each other"""
    def field(j):
        x = [t * (1.0 - 0.3 * j) + 0.2 * j for t in feed()]
        return [torch.cat([t, t.flip(0)], 0) if j == 1 else t for t in x]

    wants = [evaluate(make(), field(j)) for j in range(c["n"])]
    for seq in overlaps(c["n"]):
        for again in (False, True):
            R.state(c["comp"], seq, again)
            m = make()
            live = {}
            for op, j in seq:
                R.step()
                if op == "F":
                    x = [t.clone().requires_grad_(True) for t in field(j)]
                    live[j] = (x, m(*x))
                    continue
                x, y = live[j]
                for i, (_, z) in live.items():
                    R.same(z.detach(), wants[i]["y"], "output-changed-later")
                for r in range(1 + again):
                    for p in m.parameters():
                        p.grad = None
                    for t in x:
                        t.grad = None
                    y.backward(cotangent(y), retain_graph=again and r == 0)
                    for k, t in enumerate(x):
                        same(R, t.grad, wants[j][f"g{k}"], f"{c['comp']} {seq} input {k}")
                    for n, p in m.named_parameters():
                        same(R, p.grad, wants[j]["p:" + n], f"{c['comp']} {seq} {n}")


    # calls in every mixture of modes: each result stays what it was, also after the caller overwrites another one
    import contextlib

    modes = {"grad": contextlib.nullcontext, "nograd": torch.no_grad, "infer": torch.inference_mode}
    ev = make().eval()
    vals = [ev(*field2(feed, j)).detach() for j in range(3)]
    for seq, clobber in itertools.product(itertools.product(modes, repeat=3), (None, 0, 1)):
        R.state(c["comp"], seq, clobber)
        m = make().eval()
        ys = []
        for j, md in enumerate(seq):
            R.step()
            with modes[md]():
                ys.append(m(*field2(feed, j)))
                if clobber == j:
                    # the caller owns the result and may overwrite it
                    (ys[j] if md == "infer" else ys[j].detach()).fill_(-9.0)
        for j, y in enumerate(ys):
            if j != clobber:
                R.same(y.detach().clone(), vals[j], "result-changed-by-later-call")


def field2(feed, j):
    return [t * (1.0 - 0.3 * j) + 0.2 * j for t in feed()]


def same(R, a, b, what):
    if a is None or b is None:
        R.check(a is None and b is None, "overlapping-graphs", what)
    else:
        R.same(a, b, "overlapping-graphs")


def cotangent(y):
    return zoo._x(*y.shape, k=5).to(y.dtype) if not y.is_complex() else torch.as_tensor(zoo.ref.cpattern(*y.shape)).to(y.dtype)


def run_case(c, R):
    make, args = zoo.zoo()[c["comp"]]
    dt = zoo.native(c["comp"])
    feed = lambda: zoo.feed(args(), dt)
    if c["first"] == "overlap":
        return run_overlap(c, R, make, feed)
    fresh = make()
    want = evaluate(fresh, feed())
    wdt = {n: t.dtype for n, t in list(fresh.named_parameters()) + list(fresh.named_buffers())}
    seqs = [[c["first"]]]
    for d in range(1, c["depth"]):
        seqs += [[c["first"], *s] for s in itertools.product(OPS, repeat=d)]
    for seq in seqs:
        R.state(c["comp"], *seq)
        m = make()
        lossy = False
        frozen = False
        clobber = []
        for op in seq:
            R.step()
            before = prints(m) if op in USE else None
            m, lossy, frozen = apply(op, m, make, feed, lossy, frozen, c["comp"], clobber)
            if before is not None:
                R.check(prints(m) == before, "state-changed-by-use", f"{c['comp']} {seq}: '{op}' modified a parameter or buffer")
        # expected: a fresh module holding the parameters this one holds now
        wantp = want
        if any(o in CHANGE for o in seq):
            other = make()
            with torch.no_grad():
                for p, q in zip(other.parameters(), m.parameters()):
                    p.copy_(q)
            wantp = evaluate(other, feed())
        # what the module was copied or loaded from is gone
        with torch.no_grad():
            for t in clobber:
                if t.is_sparse:
                    continue
                t.fill_(7 if not t.is_floating_point() and not t.is_complex() else 12345.0) if t.dtype != torch.bool else None
        x = feed()
        h0 = [zoo.thash(t) for t in x]
        got = evaluate(m, x)
        R.check([zoo.thash(t) for t in x] == h0, "input-mutated", f"{c['comp']} {seq}")
        for k in wantp:
            u, v = got.get(k), wantp[k]
            if frozen and k.startswith("p:"):
                R.check(u is None, "frozen-parameter-has-gradient", f"{c['comp']} {seq} {k}")
                continue
            if u is None or v is None:
                R.check(u is None and v is None, "missing", f"{c['comp']} {seq} {k}")
                continue
            if lossy:
                s = max(1.0, float(v.abs().max())) if v.numel() else 1.0
                R.close(u, v, 2e-5 * s, 0.0, f"after-precision-change")
            else:
                R.same(u, v, f"differs-from-fresh")
        if "fdf" not in seq:
            now = {n: t.dtype for n, t in list(m.named_parameters()) + list(m.named_buffers())}
            R.check(now == wdt, "dtype-changed", f"{c['comp']} {seq}")
        sd = set(m.state_dict())
        R.check(sd == {n for n, _ in m.named_parameters()}, "checkpoint-is-the-parameters", f"{c['comp']} {seq}: {sorted(sd)}")
        R.check(sd == set(fresh.state_dict()), "state-dict-keys", f"{c['comp']} {seq}: {sorted(sd)}")


def prints(m):
    return [zoo.thash(t) for t in list(m.parameters()) + list(m.buffers())]


def evaluate(m, x):
    x = [t.clone().requires_grad_(True) for t in x]
    for p in m.parameters():
        p.grad = None
    y = m(*x)
    y.backward(cotangent(y))
    d = {"y": y.detach().clone()}
    for j, t in enumerate(x):
        d[f"g{j}"] = None if t.grad is None else t.grad.clone()
    for n, p in m.named_parameters():
        d["p:" + n] = None if p.grad is None else p.grad.clone()
    return d


def apply(op, m, make, feed, lossy, frozen, comp, clobber):
    if op == "train":
        m.train()
    elif op == "eval":
        m.eval()
    elif op == "to_same":
        m = m.to("cpu").cpu()
    elif op == "fdf":
        if zoo.native(comp) == torch.float32:
            m = m.double().float()
            lossy = True
        else:
            m = m.double()
    elif op == "deepcopy":
        old, m = m, copy.deepcopy(m)
        clobber += list(old.parameters()) + list(old.buffers())
    elif op == "pickle":
        old, m = m, pickle.loads(pickle.dumps(m))
        clobber += list(old.parameters()) + list(old.buffers())
    elif op == "save":
        b = io.BytesIO()
        torch.save(m, b)
        b.seek(0)
        old, m = m, torch.load(b, weights_only=False)
        clobber += list(old.parameters()) + list(old.buffers())
    elif op == "state_dict":
        b = io.BytesIO()
        torch.save(m.state_dict(), b)
        b.seek(0)
        new = make()
        with torch.no_grad():
            for p in new.parameters():
                p.zero_()
        new.load_state_dict(torch.load(b), strict=True)
        for p, q in zip(new.parameters(), m.parameters()):
            p.requires_grad_(q.requires_grad)
        m = new
    elif op == "freeze":
        m.requires_grad_(False)
        frozen = True
    elif op == "unfreeze":
        m.requires_grad_(True)
        frozen = False
    elif op == "fwd":
        m(*feed())
    elif op == "bwd":
        evaluate(m, feed())
        for p in m.parameters():
            p.grad = None
    elif op == "nograd":
        with torch.no_grad():
            m(*feed())
    elif op == "infer":
        with torch.inference_mode():
            m(*feed())
    elif op == "batch":
        m(*[torch.cat([t, t, t], dim=0) for t in feed()])
    elif op == "zero":
        m.zero_grad()
    elif op == "step":
        evaluate(m, feed())
        with torch.no_grad():
            for j, p in enumerate(m.parameters()):
                p.add_(p.grad if p.grad is not None else zoo._x(*p.shape, k=j + 3).to(p.dtype), alpha=-0.03)
                p.grad = None
    elif op == "data":
        m(*feed())
        for j, p in enumerate(m.parameters()):
            p.data = p.data * 0.5 + 0.1
    elif op == "assign":
        m(*feed())
        sd = {k: (v * 0.75 - 0.2) for k, v in m.state_dict().items()}
        rg = [p.requires_grad for p in m.parameters()]
        m.load_state_dict(sd, assign=True)
        for p, g in zip(m.parameters(), rg):
            p.requires_grad_(g)
    elif op == "other":
        x = feed()
        m(*x)
        for t in x:
            t.mul_(-0.7).add_(0.2)
        m(*x)
    elif op == "precision":
        for d in (torch.float32, torch.float64, torch.bfloat16):
            try:
                m(*zoo.feed(args_of(comp), d))
            except Exception:
                pass  # (refuses that precision)
    elif op == "share":
        m.share_memory()
    return m, lossy, frozen
