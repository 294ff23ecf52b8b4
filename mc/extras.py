"""Two observations shared by the layer checks: shapes promised without running (FakeTensor) and automatic mixed precision."""
import contextlib

import torch


def _sig(ts):
    return [(tuple(t.shape), str(t.dtype)) for t in ts]


def abstract(R, m, args, label):
    """shape inference (what torch.compile and meta execution see) of value and gradients must agree with the real run"""
    from torch._subclasses.fake_tensor import FakeTensorMode

    got = []
    for fake in (False, True):
        fm = FakeTensorMode(allow_non_fake_inputs=True)
        xs = [a.detach().clone().requires_grad_() for a in args]
        if fake:
            xs = [fm.from_tensor(x) for x in xs]
        for p in m.parameters():
            p.requires_grad_(True)
        with fm if fake else contextlib.nullcontext():
            y = m(*xs)
            g = torch.autograd.grad(y, xs + list(m.parameters()), torch.ones_like(y), allow_unused=True)
        got.append(_sig([y] + [t for t in g if t is not None]))
        R.step()
    R.check(got[0] == got[1], f"abstract-{label}", f"real {got[0]} fake {got[1]}")


def autocast(R, m, args, want, wgrads, label, tol=4e-2, dtypes=("bfloat16", "float16")):
    """m under CPU autocast against the full-precision model; wgrads(ct) -> list for args then parameters"""
    for p in m.parameters():
        p.requires_grad_(True)
    ps = list(m.parameters())
    for d in dtypes:
        xs = [a.detach().clone().requires_grad_() for a in args]
        with torch.autocast("cpu", dtype=getattr(torch, d)):
            y = m(*xs)
        R.step()
        R.check(y.is_floating_point() and y.dtype in (torch.float32, getattr(torch, d)), f"autocast-dtype-{label}", str(y.dtype))
        R.close(y.float(), want, tol * max(1.0, float(want.abs().max())), 0, f"autocast-{label}")
        ct = torch.ones_like(y)
        ct.reshape(-1)[1::2] = -0.5
        g = torch.autograd.grad(y, xs + ps, ct)
        wg = wgrads(ct.double())
        mx = max(1.0, max(float(t.abs().max()) for t in wg))
        R.step()
        for j, (a, b) in enumerate(zip(g, wg)):
            R.check(a.dtype == (xs + ps)[j].dtype, f"autocast-grad-dtype-{label}")
            R.close(a.float(), b, 2 * tol * mx, 0, f"autocast-grad-{label}")


def second(R, m, args, model, label, tol):
    """second derivatives: of a scalar formed from all first gradients, against the same construction on the model

    model(args, params) with params in the order of m.parameters(); a layer may refuse to be differentiated twice (it raises),
    but what it returns has to be right
    """
    for p in m.parameters():
        p.requires_grad_(True)
    out = []
    for real in (True, False):
        xs = [a.detach().clone().requires_grad_() if real else a.detach().double().clone().requires_grad_() for a in args]
        ps = list(m.parameters()) if real else [p.detach().double().clone().requires_grad_() for p in m.parameters()]
        try:
            y = m(*xs) if real else model(xs, ps)
            ct = torch.cos(torch.arange(y.numel(), dtype=torch.float64)).reshape(y.shape).to(y.dtype)
            g = torch.autograd.grad((y * y * ct).sum() / 2, xs + ps, create_graph=True)
            s = sum((t * torch.sin(1.0 + torch.arange(t.numel(), dtype=torch.float64)).reshape(t.shape).to(t.dtype)).sum() for t in g)
            gg = torch.autograd.grad(s, xs + ps)
        except RuntimeError:
            if not real:
                raise
            R.note("second-order-refused")
            return
        R.step()
        out.append((g, gg))
    for k, (a, b) in enumerate(zip(*out)):
        mx = max(1.0, max(float(t.abs().max()) for t in b))
        for u, v in zip(a, b):
            R.close(u, v, tol * mx, 0, f"{'first' if k == 0 else 'second'}-order-{label}")
