"""Bounded exhaustive explorer: shared machinery of all checks.

A check module provides
    PROPERTY, TECHNIQUE-independent text (ASSUMPTIONS, RULE)
    cases(tier)            -> list of JSON-able dicts, simplest first: the *whole* bounded space
    run_case(case, R)      -> drives the real code in /repo and compares it with a reference model

The explorer enumerates every case (no sampling), in up to 8 forked workers, counts what was
visited and writes the evidence file and replay artefacts.
"""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_TIMEOUT = 400.0
MAX_REPORT = 12
KNOWN_IDS = set()  # ids of this property's recorded (unrepaired) findings, from known_findings.json


# ----------------------------------------------------------------------------- recorder
class Recorder:
    """Collects coverage and failures of one case."""

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.notes = {}

    def state(self, *key):
        self.states.add(_h(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        self.outcomes.add(_h(x))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def fail(self, label, detail=""):
        if len(self.fails) < 4:
            self.fails.append({"label": label, "detail": str(detail)[:1500]})

    def known(self, fid, label, detail=""):
        """The implementation disagrees with the property in exactly the way a recorded finding describes."""
        if fid in KNOWN_IDS:
            self.note("known:" + fid)
        else:
            self.fail(label, f"[{fid}] {detail() if callable(detail) else detail}")

    def check(self, cond, label, detail=""):
        self.traces += 1
        if not cond:
            self.fail(label, detail() if callable(detail) else detail)
        return bool(cond)

    def close(self, got, want, atol, rtol, label):
        """Compare a tensor of the implementation with the reference; NaN/Inf never pass."""
        import torch

        self.traces += 1
        got_t = torch.as_tensor(got).detach()
        want_t = torch.as_tensor(want).detach()
        if tuple(got_t.shape) != tuple(want_t.shape):
            self.fail(label, f"shape {tuple(got_t.shape)} != reference {tuple(want_t.shape)}")
            return False
        cplx = got_t.is_complex() or want_t.is_complex()
        if cplx != (got_t.is_complex() and want_t.is_complex()):
            self.fail(label, f"dtype {got_t.dtype} vs reference {want_t.dtype}")
            return False
        dt = torch.complex128 if cplx else torch.float64
        g, w = got_t.to(dt), want_t.to(dt)
        if g.numel() == 0:
            return True
        self.outcomes.add(_th(g))
        d = (g - w).abs()
        lim = atol + rtol * w.abs()
        bad = ~(d <= lim)
        if bool(bad.any()):
            i = int(torch.argmax(torch.where(torch.isnan(d), torch.full_like(d, math.inf), d - lim)).item())
            idx = []
            r = i
            for s in reversed(g.shape):
                idx.append(r % s)
                r //= s
            self.fail(
                label,
                f"{int(bad.sum())}/{g.numel()} entries differ; worst at {list(reversed(idx))}: got {g.reshape(-1)[i].item()} "
                f"reference {w.reshape(-1)[i].item()} (atol={atol:g}, rtol={rtol:g})",
            )
            return False
        return True

    def same(self, got, want, label):
        """Bitwise equality (NaN never passes)."""
        import torch

        self.traces += 1
        if tuple(got.shape) != tuple(want.shape) or got.dtype != want.dtype:
            self.fail(label, f"{tuple(got.shape)}/{got.dtype} != {tuple(want.shape)}/{want.dtype}")
            return False
        if not torch.equal(got, want):
            self.fail(label, f"not identical, max diff {(got.detach() - want.detach()).abs().max().item() if got.numel() else 0}")
            return False
        return True


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def _th(t):
    import torch

    x = torch.view_as_real(t) if t.is_complex() else t
    x = (x * 4096.0).round().to(torch.float64).contiguous()
    return hashlib.blake2b(x.numpy().tobytes() + repr(tuple(x.shape)).encode(), digest_size=8).digest()


# ----------------------------------------------------------------------------- environment
def setup_env():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TORCHDYNAMO_DISABLE"] = "1"
    os.environ["TORCH_COMPILE_DISABLE"] = "1"
    os.environ["TORCH_HARMONICS_DISTRIBUTED_DEBUG"] = os.environ.get("TORCH_HARMONICS_DISTRIBUTED_DEBUG", "0")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    # every uninitialised torch buffer reads as NaN: reads of undefined memory become visible
    torch.use_deterministic_algorithms(True, warn_only=True)
    torch.utils.deterministic.fill_uninitialized_memory = True


def build():
    import subprocess

    r = subprocess.run(["bash", os.path.join(VERIF, "mc", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        print("error: /repo does not build")
        sys.exit(2)


# ----------------------------------------------------------------------------- workers
def exec_case(mod, case):
    import torch

    R = Recorder(case)
    seed = int.from_bytes(_h(json.dumps(case, sort_keys=True))[:4], "little")
    torch.manual_seed(seed)
    try:
        mod.run_case(case, R)
    except Exception as e:  # the real code refused something the property says it supports
        tb = traceback.format_exc(limit=-6)
        R.fail(f"exception:{type(e).__name__}", tb[-1400:])
    return R


def _worker(conn, mod, cases):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        i = conn.recv()
        if i is None:
            break
        t = time.time()
        R = exec_case(mod, cases[i])
        conn.send((i, R.states, R.transitions, R.traces, R.outcomes, R.fails, R.notes, time.time() - t))
    conn.close()
    os._exit(0)


class Pool:
    def __init__(self, mod, cases, n):
        self.ctx = mp.get_context("fork")
        self.mod, self.cases = mod, cases
        self.w = []
        for _ in range(n):
            self._spawn()

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.mod, self.cases), daemon=True)
        p.start()
        b.close()
        self.w.append({"p": p, "c": a, "cur": None, "t": 0.0, "hist": []})

    def run(self, order, on_result, cap, stop):
        todo = list(order)[::-1]
        t0 = time.time()
        capped = False
        while True:
            for w in self.w:
                if w["cur"] is None and todo and not capped and not stop():
                    if time.time() - t0 > cap:
                        capped = True
                        break
                    i = todo.pop()
                    w["cur"], w["t"] = i, time.time()
                    w["hist"].append(i)
                    w["c"].send(i)
            busy = [w for w in self.w if w["cur"] is not None]
            if not busy:
                break
            ready = mpc.wait([w["c"] for w in busy] + [w["p"].sentinel for w in busy], timeout=5.0)
            for w in list(busy):
                got = None
                try:
                    if w["c"].poll():
                        got = w["c"].recv()
                except (EOFError, ConnectionError, OSError):
                    got = None
                if got is not None:
                    on_result(w, got)
                    w["cur"] = None
                elif not w["p"].is_alive():
                    on_result(w, (w["cur"], set(), 0, 0, set(), [{"label": "crash", "detail": f"process died, exit code {w['p'].exitcode}"}], {}, 0.0))
                    self.w.remove(w)
                    self._spawn()
                elif time.time() - w["t"] > CASE_TIMEOUT:
                    w["p"].kill()
                    on_result(w, (w["cur"], set(), 0, 0, set(), [{"label": "hang", "detail": f"no answer within {CASE_TIMEOUT} s"}], {}, 0.0))
                    self.w.remove(w)
                    self._spawn()
        for w in self.w:
            try:
                w["c"].send(None)
            except Exception:
                pass
        return len(todo)


# ----------------------------------------------------------------------------- known findings
def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop and e.get("status") == "known"]


# ----------------------------------------------------------------------------- main
def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    nworkers = 8
    only = None
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--jobs":
            nworkers = int(next(it))
        elif a == "--only":
            only = next(it)
        elif a == "--time":
            only = None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build()
    setup_env()
    sys.path.insert(0, os.path.join(VERIF, "mc"))
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare(tier)

    known = {e["id"]: e for e in load_known(prop)}
    KNOWN_IDS.update(known)

    if replay:
        art = json.load(open(replay))
        for c in art.get("prefix", []):
            exec_case(mod, c)
        R = exec_case(mod, art["case"])
        for f in R.fails:
            print(f"REPLAY {f['label']}: {f['detail']}")
        print("reproduced" if R.fails else "not reproduced")
        return 1 if R.fails else 0

    cases = mod.cases(tier)
    keys = [json.dumps(c, sort_keys=True) for c in cases]
    if len(set(keys)) != len(keys):
        seen, cc = set(), []
        for k, c in zip(keys, cases):
            if k not in seen:
                seen.add(k)
                cc.append(c)
        cases = cc
    if only:
        cases = [c for c in cases if only in json.dumps(c, sort_keys=True)]
    cap = 650.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_CAP", "7200"))

    agg = {"states": set(), "transitions": 0, "traces": 0, "outcomes": set(), "notes": {}, "slow": []}
    bad = []
    done = [0]

    def on_result(w, r):
        i, st, tr, tc, oc, fails, notes, dt = r
        done[0] += 1
        agg["states"] |= st
        agg["transitions"] += tr
        agg["traces"] += tc
        agg["outcomes"] |= oc
        agg["slow"].append((dt, i))
        for k, v in notes.items():
            agg["notes"][k] = agg["notes"].get(k, 0) + v
        for f in fails:
            bad.append((i, f, list(w["hist"][:-1]) if w else []))

    # big cases first would balance better, but simplest-first gives the shortest counterexample
    pool = Pool(mod, cases, nworkers)
    left = pool.run(range(len(cases)), on_result, cap, lambda: len({b[0] for b in bad}) >= MAX_REPORT)

    kn = {k: agg["notes"].pop("known:" + k) for k in known if "known:" + k in agg["notes"]}
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]['what']}")

    bad.sort(key=lambda b: b[0])
    rc = 0
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if bad:
        rc = 1
        seen = set()
        for i, f, hist in bad:
            if f["label"] in seen:
                continue
            seen.add(f["label"])
            if len(seen) > 5:
                break
            path = os.path.join(evdir, f"replay_{prop}_{len(seen)}.json")
            art = {"property": prop, "tier": tier, "case": cases[i], "label": f["label"], "detail": f["detail"], "prefix": []}
            # re-execute in a fresh process: a failure that needs earlier cases keeps them as its history
            if f["label"] not in ("crash", "hang"):
                ok = _fresh_fails(mod, cases[i])
                if not ok:
                    art["prefix"] = [cases[j] for j in hist]
                    art["note"] = "needs the history in 'prefix'"
            json.dump(art, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {json.dumps(cases[i])}")
            print(f"  {f['label']}: {f['detail'][:700]}")

    samples = []
    for j in sorted({0, len(cases) // 3, (2 * len(cases)) // 3, len(cases) - 1}):
        if 0 <= j < len(cases):
            samples.append(cases[j])
    cov = {
        "states": len(agg["states"]),
        "transitions": agg["transitions"],
        "traces_validated_against_impl": agg["traces"],
        "samples": samples,
        "exhaustive": bool(left == 0 and not bad and not only),
        "cases": done[0],
        "cases_in_bound": len(cases),
        "distinct_outcomes": len(agg["outcomes"]),
        "rule": getattr(mod, "RULE", ""),
    }
    if agg["notes"]:
        cov["counters"] = agg["notes"]
    if kn:
        cov["known_findings"] = kn
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    print(
        f"{prop} {tier}: cases={done[0]}/{len(cases)} states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} violations={len(bad)} wall={ev['wall_s']}s"
    )
    if os.environ.get("MC_SLOW"):
        for dt, i in sorted(agg["slow"], reverse=True)[:8]:
            print(f"   {dt:.2f}s {json.dumps(cases[i])}")
    sys.stdout.flush()
    if rc == 0 and (done[0] == 0 or agg["transitions"] == 0):
        print("error: nothing explored")
        return 2
    return rc


def _fresh_fails(mod, case):
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe()

    def f(c):
        R = exec_case(mod, case)
        c.send(bool(R.fails))
        os._exit(0)

    p = ctx.Process(target=f, args=(b,), daemon=True)
    p.start()
    ok = False
    if a.poll(CASE_TIMEOUT):
        try:
            ok = a.recv()
        except EOFError:
            ok = True
    p.kill()
    return ok
