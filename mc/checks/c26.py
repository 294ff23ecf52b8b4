"""Example networks: consistent grids along the data flow, batch independence, rotation about the axis, evaluation without side effects."""
import copy
import io
import itertools
import warnings

import torch
from torch.overrides import TorchFunctionMode

import ref

RULE = (
    "one state per (network, option vector of a complete option product) x operation: evaluation twice, every batch split and order of three samples, every admissible longitude shift, "
    "saving and loading, deep copy, gradient of every parameter; and along every executed operation of a forward pass a monitor tracks which grid each tensor lives on and "
    "requires every convolution, transform, attention and resampling layer to be applied to a field on the grid it was built for"
)
ASSUMPTIONS = ["small networks (embedding 4..8, two or three layers), CPU, float32; tolerance 2e-4 relative", "training-mode batch statistics are outside the property (evaluation mode)"]

GRIDS = [("equiangular", "legendre-gauss"), ("legendre-gauss", "equiangular"), ("equiangular", "equiangular"), ("equiangular", "lobatto")]


def options(model, q):
    if model == "sfno":
        d = dict(norm=["none", "instance_norm", "layer_norm"], pos=["none", "sequence", "spectral", "learnable lat", "learnable latlon"], res=[False, True], mlp=[True, False], sf=[1, 2, 3])
    elif model == "lsno":
        d = dict(norm=["none", "instance_norm"], pos=["none", "learnable lat", "spectral"], res=[False, True], up=[False, True], sf=[1, 2])
    elif model == "transformer":
        d = dict(norm=["none", "instance_norm", "layer_norm"], pos=["none", "learnable lat", "spectral"], att=["neighborhood", "global"], up=[False, True], sf=[1, 2], heads=[1, 2])
    elif model == "segformer":
        d = dict(att=["neighborhood", "global"], upm=["bilinear", "conv"], depth=[1, 2], bias=[True, False])
    else:
        d = dict(down=["bilinear", "conv"], upm=["bilinear", "conv"], skip=[False, True], depth=[1, 2])
    d["grid"] = list(range(3 if model == "sfno" else len(GRIDS)))
    return [dict(zip(d, v)) for v in itertools.product(*d.values())]


MODELS = ["sfno", "lsno", "transformer", "segformer", "unet"]


def cases(tier):
    q = tier == "quick"
    out = []
    for m in MODELS:
        for k, o in enumerate(options(m, q)):
            # quick: every option pair still occurs, with a third of the product for the large lattices
            if q and m in ("sfno", "transformer") and k % 3 != (k // 3 + k // 9) % 3:
                continue
            out.append({"model": m, **o})
    return out


def build(c):
    import torch_harmonics.examples.models as M

    g, gi = GRIDS[c["grid"]]
    torch.manual_seed(0)
    if c["model"] in ("sfno", "lsno", "transformer"):
        kw = dict(grid=g, grid_internal=gi, scale_factor=c["sf"], in_chans=2, out_chans=2, embed_dim=4, normalization_layer=c["norm"], pos_embed=c["pos"], activation_function="gelu", bias=True)
        shape = (7, 12) if c["sf"] != 2 else (9, 12)
        if c["model"] == "sfno":
            m = M.SphericalFourierNeuralOperator(img_size=shape, num_layers=3, residual_prediction=c["res"], use_mlp=c["mlp"], **kw)
        elif c["model"] == "lsno":
            m = M.LocalSphericalNeuralOperator(img_size=shape, num_layers=2, residual_prediction=c["res"], upsample_sht=c["up"], kernel_shape=(2, 2), encoder_kernel_shape=(2, 2), **kw)
        else:
            m = M.SphericalTransformer(img_size=shape, num_layers=2, attention_mode=c["att"], upsample_sht=c["up"], num_heads=c["heads"], encoder_kernel_shape=(2, 2), **kw)
        step = c["sf"]
        if c["pos"] in ("sequence", "spectral", "learnable latlon"):
            step = None
        if c["norm"] == "layer_norm":
            step = None  # elementwise affine over the grid
    else:
        shape = (12, 16)
        kw = dict(img_size=shape, grid=g, grid_internal=gi, in_chans=2, out_chans=3, embed_dims=[4, 8], scale_factor=2, kernel_shape=(2, 2))
        if c["model"] == "segformer":
            m = M.SphericalSegformer(heads=[1, 2], depths=[c["depth"]] * 2, attention_mode=c["att"], upsampling_method=c["upm"], bias=c["bias"], **kw)
        else:
            m = M.SphericalUNet(depths=[c["depth"]] * 2, transform_skip=c["skip"], downsampling_mode=c["down"], upsampling_mode=c["upm"], **kw)
        step = 4
    # no parameter left at a value that hides a mistake (zero embeddings, unit scales)
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            v = torch.as_tensor(ref.pattern(*p.shape, k=k)).to(p.dtype)
            if p.ndim > 1:
                p.copy_(p + v * (2.0 / max(1, p[0].numel()) ** 0.5))
            else:
                p.add_(0.3 * v * (float(p.abs().mean()) + 0.1))
        for k, b in enumerate(m.modules()):
            if isinstance(b, torch.nn.BatchNorm2d):
                b.running_mean.copy_(torch.as_tensor(ref.pattern(b.num_features, k=k)) * 0.1)
                b.running_var.copy_(torch.as_tensor(ref.pattern(b.num_features, k=k + 1)).abs() + 0.5)
    return m.eval(), shape, step


SPECIAL = {"DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "ResampleS2", "NeighborhoodAttentionS2", "AttentionS2", "RealSHT", "InverseRealSHT"}


def ends(m):
    """(grid of the input, grid of the output) of a library layer; spectral ends are marked as such"""
    n = type(m).__name__
    if n == "RealSHT":
        return (m.nlat, m.nlon, m.grid), ("spectrum",)
    if n == "InverseRealSHT":
        return ("spectrum",), (m.nlat, m.nlon, m.grid)
    if n == "ResampleS2":
        return (m.nlat_in, m.nlon_in, m.grid_in), (m.nlat_out, m.nlon_out, m.grid_out)
    a = (m.nlat_in, m.nlon_in) if hasattr(m, "nlat_in") else tuple(m.in_shape)
    b = (m.nlat_out, m.nlon_out) if hasattr(m, "nlat_out") else tuple(m.out_shape)
    return (*a, m._mc_grids[0]), (*b, m._mc_grids[1])


def only_type(gs, c):
    """grids of equal shape, of exactly the two types the network was configured with"""
    g = {x[2] for x in gs if x is not None and len(x) == 3}
    return len({x[:2] for x in gs if x is not None}) == 1 and None not in gs and len(g) == 2 and g == set(GRIDS[c["grid"]])


class Track(TorchFunctionMode):
    def __init__(self, R, c):
        self.lab, self.keep, self.depth, self.R, self.c, self.n = {}, [], 0, R, c, 0

    def set(self, t, g):
        if isinstance(t, torch.Tensor):
            self.lab[id(t)] = g
            self.keep.append(t)

    def get(self, t):
        return self.lab.get(id(t))

    def __torch_function__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if self.depth or getattr(func, "__name__", "") in ("__get__", "__set__"):
            return out
        ts = []

        def walk(a):
            if isinstance(a, torch.Tensor):
                ts.append(a)
            elif isinstance(a, (tuple, list)):
                for b in a:
                    walk(b)

        walk(args)
        walk(list((kwargs or {}).values()))
        gs = {self.get(t) for t in ts} - {None}
        if len(gs) > 1:
            text = f"{getattr(func, '__name__', func)} combines fields on {sorted(map(str, gs))}"
            if self.c["model"] == "sfno" and only_type(gs, self.c):
                self.R.known("F28", "grids-mixed", text)
                # the finding is recorded: go on with the grid the sum is meant to be on (that of the first operand)
            else:
                self.R.fail("grids-mixed", text)
        if gs and isinstance(out, torch.Tensor):
            self.n += 1
            self.set(out, next(g for g in map(self.get, ts) if g is not None))
        return out


def record_grids():
    """remember the grid arguments of the library layers (not all keep them as attributes)"""
    import inspect

    import torch_harmonics as th

    undo = []
    for n in SPECIAL - {"RealSHT", "InverseRealSHT", "ResampleS2"}:
        cls = getattr(th, n)
        orig = cls.__init__

        def init(self, *a, _o=orig, **k):
            b = inspect.signature(_o).bind(self, *a, **k)
            b.apply_defaults()
            _o(self, *a, **k)
            self._mc_grids = (b.arguments["grid_in"], b.arguments["grid_out"])

        cls.__init__ = init
        undo.append((cls, orig))
    return undo


def run_case(c, R):
    warnings.simplefilter("ignore")
    undo = record_grids()
    try:
        go(c, R)
    finally:
        for cls, o in undo:
            cls.__init__ = o


def go(c, R):
    m, shape, step = build(c)
    key = str(sorted(c.items(), key=str))
    x = torch.as_tensor(ref.pattern(3, 2, *shape)).float()
    keep = x.clone()
    with torch.no_grad():
        y = m(x)
        out_chans = 3 if c["model"] in ("segformer", "unet") else 2
        R.check(y.shape == (3, out_chans, *shape), "shape", f"{tuple(y.shape)}")
        R.check(bool(torch.isfinite(y).all()), "finite")
        sc = float(y.abs().max()) + 1e-6
        tol = 2e-4 * sc
        # the output must depend on the input at all, otherwise the comparisons below say nothing
        R.check(float((y[0] - y[1]).abs().max()) > 1e-3 * sc, "constant-output", "output does not depend on the input")
        R.check(torch.equal(m(x), y), "not-deterministic", "second evaluation differs")
        R.step(2)
        R.state(key, "again")
        sd0 = {k: v.clone() for k, v in m.state_dict().items()}
        for p in itertools.permutations(range(3)):
            R.step()
            R.state(key, "order", p)
            R.close(m(x[list(p)]), y[list(p)].double(), tol, 0, "sample-order")
        for lo, hi in itertools.combinations(range(4), 2):
            R.step()
            R.state(key, "split", lo, hi)
            R.close(m(x[lo:hi]), y[lo:hi].double(), tol, 0, "batch-independence")
        if step is not None:
            for s in range(step, shape[1], step):
                R.step()
                R.state(key, "shift", s)
                R.close(m(x.roll(s, -1)), y.roll(s, -1).double(), 4 * tol, 0, "longitude-shift")
        R.check(all(torch.equal(v, sd0[k]) for k, v in m.state_dict().items()), "state-changed", "evaluation changed the state")
        R.check(torch.equal(x, keep), "input-modified")
        m2, _, _ = build(c)
        for p in m2.parameters():
            p.zero_()
        buf = io.BytesIO()
        torch.save(m.state_dict(), buf)
        buf.seek(0)
        m2.load_state_dict(torch.load(buf))
        R.close(m2(x), y.double(), tol, 0, "reload")
        R.close(copy.deepcopy(m)(x), y.double(), tol, 0, "deepcopy")
        R.step(2)
        R.state(key, "reload")
    # the monitor
    g = GRIDS[c["grid"]][0]
    tr = Track(R, c)
    hooks = []
    seen = []
    over = {}
    names = {v: k for k, v in m.named_modules()}

    def pre(mod, args):
        if tr.depth == 0:
            want = ends(mod)[0]
            got = tr.get(args[0])
            seen.append(type(mod).__name__)
            text = f"{type(mod).__name__} {names[mod]} built for {want} is applied to a field on {got}"
            if c["model"] == "unet" and type(mod).__name__ == "DiscreteContinuousConvS2" and got != want and only_type({got, want}, c):
                R.known("F29", "layer-on-wrong-grid", text)
                if ends(mod)[0] == ends(mod)[1]:
                    over[mod] = got  # meant as a layer on this grid
            else:
                R.check(got == want, "layer-on-wrong-grid", text)
        tr.depth += 1

    def post(mod, args, out):
        tr.depth -= 1
        if tr.depth == 0:
            tr.set(out, over.pop(mod, ends(mod)[1]))

    for mod in m.modules():
        if type(mod).__name__ in SPECIAL:
            hooks += [mod.register_forward_pre_hook(pre), mod.register_forward_hook(post)]
    with tr:
        tr.set(x, (*shape, g))
        with torch.no_grad():
            y2 = m(x)
        R.check(tr.get(y2) == (*shape, g), "output-on-wrong-grid", f"{tr.get(y2)}")
    for h in hooks:
        h.remove()
    R.step(tr.n + len(seen))
    R.state(key, "monitor", len(seen))
    # gradients
    m.zero_grad()
    xx = x.clone().requires_grad_()
    m(xx).square().sum().backward()
    R.check(bool(torch.isfinite(xx.grad).all()), "input-gradient")
    dead = [n for n, p in m.named_parameters() if p.requires_grad and (p.grad is None or not bool(torch.isfinite(p.grad).all()))]
    R.check(not dead, "parameter-gradient", f"{dead}")
    R.step()
    R.state(key, "gradient")
    R.outcome((c["model"], tuple(seen)))
