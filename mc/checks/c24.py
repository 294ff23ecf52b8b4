"""The example solvers integrate the equations they are named after."""
import itertools
import math

import numpy as np
import torch

import ref

RULE = (
    "one state per (solver, grid, resolution, physical constants) x spectral state of a determining set of the tendency: the shallow water tendency is a "
    "polynomial of degree two in the state, so the zero state, every coordinate vector, its double, and every pair of coordinate vectors determine it; "
    "the reaction-diffusion tendency has degree three, so all triples; on each, the real tendency is compared with an independent evaluation of the equations on a finer "
    "Gaussian grid, and time stepping with the named multistep scheme for every number of steps up to the bound; the linear maps (wind from vorticity/divergence and back, "
    "grid integral, potential vorticity) on every coordinate vector"
)
ASSUMPTIONS = [
    "truncations at which the products are resolved by the solver's grid, so that the pseudo-spectral tendency is the exact Galerkin one",
    "float64; plotting is not covered",
]
DT = 0.01
CONST = [dict(radius=1.0, omega=0.4, gravity=1.5, havg=2.0, hamp=0.3), dict(radius=2.5, omega=0.07, gravity=0.8, havg=0.5, hamp=0.11)]
GR = {"legendre-gauss": lambda L: ((3 * L + 3) // 2, 3 * L + 2), "equiangular": lambda L: (3 * L + 3, 3 * L + 3), "lobatto": lambda L: ((3 * L + 3) // 2 + 1, 3 * L + 4)}


def cases(tier):
    q = tier == "quick"
    out = []
    for g, k in itertools.product(GR, range(len(CONST))):
        for L in (2, 3) if q else (2, 3, 4):
            n = 3 * L * L
            step = 6 if q else 4
            for a in range(0, n, step):
                out.append({"part": "swe", "grid": g, "L": L, "k": k, "lo": a, "hi": min(n, a + step)})
        for L in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7):
            out.append({"part": "maps", "grid": g, "L": L, "k": k})
        for L in (2, 3):
            out.append({"part": "steps", "grid": g, "L": L, "k": k, "n": 5 if q else 8})
        for L in (2, 3) if q else (2, 3, 4):
            for pde in ("allen-cahn", "ginzburg-landau"):
                out.append({"part": "rd", "grid": g, "L": L, "k": k, "pde": pde})
    for g, n in itertools.product(GR, (9, 12) if q else (9, 12, 17, 24)):
        out.append({"part": "galewsky", "grid": g, "n": n})
        for s in (1, 2, 3):
            out.append({"part": "dataset", "grid": g, "n": n, "steps": s})
    return out


class Fine:
    """exact evaluation on a Gaussian grid fine enough for every product"""

    def __init__(self, L, a):
        n = 2 * L + 6
        self.L, self.n, self.m, self.a = L, n, 4 * L + 8, a
        th, w = ref.colatitudes(n, "legendre-gauss")
        lam = ref.longitudes(self.m)
        P, D = ref.plm(L, L, n, "legendre-gauss"), ref.dplm(L, L, n, "legendre-gauss")  # (m,l,k)
        e = np.exp(1j * np.outer(np.arange(L), lam))  # (m, j)
        m = np.arange(L)
        self.Y = np.einsum("mlk,mj->lmkj", P, e)
        # eastward and northward derivative of Y on the sphere of radius a (m P / sin, -dP/dtheta)
        self.E = np.einsum("mlk,mj->lmkj", 1j * D[1], e) / a
        self.N = np.einsum("mlk,mj->lmkj", -D[0], e) / a
        self.q = (w[:, None] * 2 * math.pi / self.m) * np.ones((1, self.m))
        self.lat = (math.pi / 2 - th)[:, None] * np.ones((1, self.m))
        ll = np.arange(L)[:, None] * np.ones((1, L))
        self.lap = -ll * (ll + 1) / a**2
        with np.errstate(divide="ignore"):
            self.inv = np.where(self.lap == 0, 0.0, 1.0 / np.where(self.lap == 0, 1, self.lap))
        self.mult = np.where(m == 0, 1.0, 2.0)[None, :]

    def field(self, c, B=None):
        B = self.Y if B is None else B
        return np.einsum("lm,lmkj->kj", self.mult * c, B).real

    def coef(self, f):
        return np.einsum("lmkj,kj->lm", self.Y.conj(), self.q * f)

    def minus_div(self, u, v):
        return np.einsum("lmkj,kj->lm", self.E.conj(), self.q * u) + np.einsum("lmkj,kj->lm", self.N.conj(), self.q * v)

    def wind(self, vrt, div):
        ps, ch = self.inv * vrt, self.inv * div
        return -self.field(ps, self.N) + self.field(ch, self.E), self.field(ps, self.E) + self.field(ch, self.N)

    def swe(self, s, omega):
        phi, vrt, div = s
        p, z = self.field(phi), self.field(vrt)
        u, v = self.wind(vrt, div)
        za = z + 2 * omega * np.sin(self.lat)
        return np.stack(
            [
                self.minus_div(p * u, p * v),
                self.minus_div(za * u, za * v),
                -self.minus_div(za * v, -za * u) - self.lap * self.coef(p + 0.5 * (u * u + v * v)),
            ]
        )


def dofs(L, fields):
    out = []
    for f in range(fields):
        for l in range(L):
            for m in range(l + 1):
                out.append((f, l, m, 1.0))
                if m:
                    out.append((f, l, m, 1j))
    return out


def vec(L, fields, ds):
    s = np.zeros((fields, L, L), dtype=complex)
    for (f, l, m, z), w in ds:
        s[f, l, m] += z * w
    return s


def solver(c, cls="ShallowWaterSolver", dt=DT, **kw):
    import torch_harmonics.examples as ex

    L = c["L"]
    nlat, nlon = GR[c["grid"]](L) if "shape" not in c else c["shape"]
    if cls == "SphereSolver":
        nlat, nlon = nlat + L, nlon + L
    return getattr(ex, cls)(nlat, nlon, dt, lmax=L, mmax=L, grid=c["grid"], **kw).double()


def run_case(c, R):
    globals()["run_" + c["part"]](c, R)


def t(s):
    return torch.as_tensor(np.ascontiguousarray(s))


def near(R, got, want, label, info, tol=1e-9, known=None):
    """known = (finding, what the recorded defect yields instead)"""
    want = np.asarray(want)
    got = got.detach().numpy()
    if not R.check(got.shape == want.shape, label, f"{info}: shape {got.shape} instead of {want.shape}"):
        return
    e = float(np.abs(got - want).max()) if want.size else 0.0
    if known is not None and not e <= tol * max(1.0, float(np.abs(want).max())) and float(np.abs(got - known[1]).max()) <= tol * max(1.0, float(np.abs(want).max())):
        R.known(known[0], label, f"{info}: off by {e:.3g}")
        return
    R.check(e <= tol * max(1.0, float(np.abs(want).max())), label, f"{info}: off by {e:.3g}")


def run_swe(c, R):
    kw = CONST[c["k"]]
    s = solver(c, **kw)
    F = Fine(c["L"], kw["radius"])
    d = dofs(c["L"], 3)
    L = c["L"]
    sets = []
    for i in range(c["lo"], c["hi"]):
        sets += [[(d[i], 1.0)], [(d[i], 2.0)]] + [[(d[i], 1.0), (d[j], 1.0)] for j in range(i + 1, len(d))]
    if c["lo"] == 0:
        sets.append([])
    for ds in sets:
        x = vec(L, 3, ds)
        tx = t(x)
        keep = tx.clone()
        got = s.dudtspec(tx)
        R.step()
        R.state(c["grid"], L, c["k"], str(ds))
        near(R, got, F.swe(x, kw["omega"]), "tendency", f"state {ds}")
        R.check(torch.equal(tx, keep), "state-modified", str(ds))
    R.outcome((c["grid"], L, len(sets)))


def run_maps(c, R):
    kw = CONST[c["k"]]
    L = c["L"]
    s = solver(c, **kw)
    F = Fine(L, kw["radius"])
    nlat, nlon = s.nlat, s.nlon
    P = ref.plm(L, L, nlat, c["grid"])
    D = ref.dplm(L, L, nlat, c["grid"])
    th, w = ref.colatitudes(nlat, c["grid"])
    lam = ref.longitudes(nlon)
    e = np.exp(1j * np.outer(np.arange(L), lam))
    Y = np.einsum("mlk,mj->lmkj", P, e)
    E = np.einsum("mlk,mj->lmkj", 1j * D[1], e) / kw["radius"]
    N = np.einsum("mlk,mj->lmkj", -D[0], e) / kw["radius"]
    G = Fine.__new__(Fine)
    G.Y, G.E, G.N, G.mult, G.inv = Y, E, N, F.mult, F.inv
    lat = math.pi / 2 - th
    near(R, s.lats.reshape(-1), lat, "latitudes", "solver grid")
    near(R, s.coriolis.reshape(-1), 2 * kw["omega"] * np.sin(lat), "coriolis", "solver grid")
    near(R, s.lap, F.lap, "laplacian", "solver")
    for f, l, m, z in dofs(L, 3):
        R.step()
        R.state("maps", c["grid"], L, c["k"], f, l, m, str(z))
        x = vec(L, 3, [((f, l, m, z), 1.0)])
        info = f"coordinate {(f, l, m, z)}"
        huv = s.gethuv(t(x))
        u, v = G.wind(x[1], x[2])
        near(R, huv, np.stack([G.field(x[0]), u, v]), "height-and-wind", info)
        uv = s.getuv(t(x[1:]))
        near(R, uv, np.stack([u, v]), "wind", info)
        if l > 0 and f > 0:
            near(R, s.vrtdivspec(uv), x[1:], "vorticity-divergence", info)
        near(R, s.grid2spec(s.spec2grid(t(x))), x, "spectral-roundtrip", info)
        y = x.copy()
        y[0, 0, 0] += 3.0
        if np.abs(G.field(y[0])).min() > 1e-3:
            pv = 0.5 * kw["havg"] * kw["gravity"] / kw["omega"] * (G.field(y[1]) + 2 * kw["omega"] * np.sin(lat)[:, None]) / G.field(y[0])
            near(R, s.potential_vorticity(t(y)), pv, "potential-vorticity", info)
        dim = np.stack([(x[0] - kw["havg"] * kw["gravity"]) / kw["hamp"] / kw["gravity"], x[1] * kw["radius"] / math.sqrt(kw["gravity"] * kw["havg"]), x[2] * kw["radius"] / math.sqrt(kw["gravity"] * kw["havg"])])
        near(R, s.dimensionless(t(x.copy())), dim, "dimensionless", info)
    # the grid integral on every impulse
    for po in range(0, (nlat - 1) // 2):
        for dl in (False, True):
            imp = torch.eye(nlat * nlon, dtype=torch.float64).reshape(nlat * nlon, nlat, nlon)
            got = s.integrate_grid(imp, dimensionless=dl, polar_opt=po)
            ww = w.copy()
            if po:
                ww[:po] = 0
                ww[-po:] = 0
            want = np.repeat(ww[:, None], nlon, 1).reshape(-1) * (2 * math.pi / nlon) * (1 if dl else kw["radius"] ** 2)
            near(R, got, want, "grid-integral", f"polar_opt={po} dimensionless={dl}")
            R.state("integral", c["grid"], L, c["k"], po, dl)
            R.step(nlat * nlon)
    R.outcome((c["grid"], L))


def run_steps(c, R):
    kw = CONST[c["k"]]
    L = c["L"]
    s = solver(c, **kw)
    F = Fine(L, kw["radius"])
    ll = np.arange(L) * (np.arange(L) + 1.0)
    damp = np.exp((-DT / 2 / 3600.0) * (ll / ll[-1]) ** 4)[:, None]
    d = dofs(L, 3)
    base = vec(L, 3, [(x, 0.1 + 0.05 * ((7 * i) % 5)) for i, x in enumerate(d)])
    for i in range(len(d) + 1):
        x0 = base.copy()
        if i < len(d):
            x0 = x0 + vec(L, 3, [(d[i], 0.7)])
        # the scheme on the reference tendency (and with the start-up weights of finding F25)
        runs = []
        for second in ((1.5, -0.5), (28 / 12, -16 / 12)):
            x, hist = x0.copy(), []
            w = [x0.copy()]
            for _ in range(c["n"]):
                hist.insert(0, F.swe(x, kw["omega"]))
                k = [(1.0,), second, (23 / 12, -16 / 12, 5 / 12)][min(len(hist), 3) - 1]
                x = x + DT * sum(a * b for a, b in zip(k, hist))
                x[1:] = damp * x[1:]
                w.append(x.copy())
            runs.append(w)
        want, f25 = runs
        for n in range(c["n"] + 1):
            tx = t(x0)
            got = s.timestep(tx, n)
            R.step(max(n, 1))
            R.state("steps", c["grid"], L, c["k"], i, n)
            near(R, got, want[n], f"after-{min(n, 3)}{'+' if n > 3 else ''}-steps", f"{n} steps from perturbation {i}", known=("F25", f25[n]))
            R.check(np.array_equal(tx.numpy(), x0), "initial-state-modified", f"{n} steps")
    R.outcome((c["grid"], L, c["k"]))


def run_rd(c, R):
    L = c["L"]
    kw = dict(radius=CONST[c["k"]]["radius"], coeff=0.03 + 0.01 * c["k"])
    s = solver(c, "SphereSolver", **kw)
    F = Fine(L, kw["radius"])
    d = dofs(L, 1)
    sets = [[]] + [[(x, 1.0) for x in y] for r in (1, 2, 3) for y in itertools.combinations_with_replacement(d, r)]
    z = 1.0 if c["pde"] == "allen-cahn" else 1.0 + 2.0j
    for ds in sets:
        x = vec(L, 1, ds)[0]
        R.step()
        R.state(c["pde"], c["grid"], L, c["k"], str(ds))
        u = F.field(x)
        want = x + z * (kw["coeff"] * F.lap * x - F.coef(u**3))
        near(R, s.dudtspec(t(x), pde=c["pde"]), want, c["pde"], f"state {ds}")
    R.outcome((c["pde"], c["grid"], L, len(sets)))


def run_galewsky(c, R):
    import torch_harmonics.examples as ex

    n = c["n"]
    s = ex.ShallowWaterSolver(n, 2 * n, 100.0, lmax=n // 3, mmax=n // 3, grid=c["grid"]).double()
    L = n // 3
    th, w = ref.colatitudes(n, c["grid"])
    lat = math.pi / 2 - th
    lam = ref.longitudes(2 * n)
    p0, p1 = math.pi / 7, math.pi / 2 - math.pi / 7
    en = math.exp(-4 / (p1 - p0) ** 2)
    u = np.array([80.0 / en * math.exp(1 / ((p - p0) * (p - p1))) if p0 < p < p1 else 0.0 for p in lat])[:, None] * np.ones((1, 2 * n))
    a, om, g, h = 6.37122e6, 7.292e-5, 9.80616, 10.0e3
    hb = 120.0 * np.cos(lat)[:, None] * np.exp(-(((lam[None] - math.pi) * 3) ** 2)) * np.exp(-15 * ((math.pi / 4 - lat) ** 2))[:, None]
    T = ref.sht_matrix(n, 2 * n, L, L, c["grid"], "ortho", False)
    P = ref.plm(L, L, n, c["grid"])
    D = ref.dplm(L, L, n, c["grid"])
    m = np.arange(L)
    e = np.exp(1j * np.outer(m, lam))
    q = w[:, None] * 2 * math.pi / (2 * n)
    E = np.einsum("mlk,mj->lmkj", 1j * D[1], e).conj() / a
    N = np.einsum("mlk,mj->lmkj", -D[0], e).conj() / a
    curl = lambda fu, fv: -(np.einsum("lmkj,kj->lm", E, q * fv) - np.einsum("lmkj,kj->lm", N, q * fu))
    ll = np.arange(L)[:, None] * np.ones((1, L))
    lap = -ll * (ll + 1) / a**2
    inv = np.where(lap == 0, 0, 1 / np.where(lap == 0, 1, lap))
    vrt = curl(u, 0 * u)
    SA, SB = ref.isht_matrices(n, 2 * n, L, L, c["grid"], "ortho", False)
    z = np.einsum("kjlm,lm->kj", SA, vrt.real) + np.einsum("kjlm,lm->kj", SB, vrt.imag)
    fu = u * (z + 2 * om * np.sin(lat)[:, None])
    phi = inv * curl(fu, 0 * fu) - np.einsum("lmkj,kj->lm", T, 0.5 * u**2) + np.einsum("lmkj,kj->lm", T, g * (h + hb))
    got = s.galewsky_initial_condition()
    R.step()
    R.state("galewsky", c["grid"], n)
    sc = np.array([g * h, 80.0 / a, 80.0 / a])[:, None, None]
    near(R, got / t(sc), np.stack([phi, vrt, 0 * vrt]) / sc, "jet", f"{c['grid']} {n}", 1e-6)


def run_dataset(c, R):
    import torch_harmonics.examples as ex

    n = c["n"]
    for norm, ic in itertools.product((False, True), ("galewsky", "random")):
        R.step()
        R.state("dataset", c["grid"], n, c["steps"], norm, ic)
        torch.manual_seed(3)
        d = ex.PdeDataset(dt=60.0, nsteps=c["steps"], dims=(n, 2 * n), grid=c["grid"], initial_condition=ic, num_examples=4, normalize=norm)
        R.check(len(d) == (4 if ic == "random" else 1), "length", len(d))
        state = torch.get_rng_state()
        inp, tar = d[0]
        torch.set_rng_state(state)
        s = ex.ShallowWaterSolver(n, 2 * n, 60.0 / c["steps"], lmax=math.ceil(n / 3), mmax=math.ceil(n / 3), grid=c["grid"]).float()
        with torch.no_grad():
            x = s.galewsky_initial_condition() if ic == "galewsky" else s.random_initial_condition(mach=0.2)
            a, b = s.spec2grid(x), s.spec2grid(s.timestep(x, c["steps"]))
        if norm:
            torch.manual_seed(3)
            y = s.spec2grid(s.galewsky_initial_condition() if ic == "galewsky" else s.random_initial_condition(mach=0.2))
            mu, sd = y.mean((-1, -2), keepdim=True), y.var((-1, -2), keepdim=True).sqrt()
            a, b = (a - mu) / sd, (b - mu) / sd
        for got, want, lab in ((inp, a, "input"), (tar, b, "target")):
            # the jet has no divergence: its channel is rounding noise that normalisation would amplify
            k = slice(0, 2) if ic == "galewsky" else slice(None)
            sc = want[k].abs().amax((-1, -2), keepdim=True).clamp(min=1e-30)
            R.check(bool(torch.isfinite(got[k]).all()) and float(((got - want)[k] / sc).abs().max()) < 1e-3, f"sample-{lab}", f"{ic} normalize={norm}")
