"""Dataset preparation: every crash point, torn write and network fault is recovered from; archives are verified and contained."""
import contextlib
import hashlib
import io
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import tarfile
import tempfile
import types

import numpy as np

RULE = (
    "crash: preparation is ended at every file-system, network and dataset-file event; torn: after every number of written bytes on a grid; fault: the connection is dropped after every number of chunks, with and without range support; "
    "each followed by an undisturbed run that must produce the complete dataset with its statistics and a further run that must not touch the network; "
    "verify: every single-byte corruption position class of every archive x checksum known/unknown/disabled; contain: every archive of up to three members from an alphabet of files, directories, symbolic and hard links (inside, outside, through links), "
    "with and without the interpreter's extraction filter; loader: every pair of accesses to the dataset classes; sets: sample sets and colours enumerated against a direct computation of every stored value and statistic"
)
ASSUMPTIONS = [
    "requests, tqdm, PIL and h5py are stand-ins (an HTTP server model with byte ranges; a raw image format; a file that is complete only after it was closed); everything happens in a scratch directory",
    "rename within a directory is atomic; data written before a crash of the process persists (process crash, not power loss); one process at a time",
    "statistics are defined for two or more samples, in the units in which the samples are stored",
]
BASE = "stand-in://data"
LABELS = ["<UNK>_0_x_0_0", "beam_1_hall_1_0", "board_1_x_1_0", "beam_2_hall_1_0", "wall_1_x_1_0", "clutter_1_x_1_0"]
H, W = 3, 4


# ----------------------------------------------------------------------------- data model
def enc(a):
    a = np.asarray(a)
    return pickle.dumps((str(a.dtype), a.shape, a.tobytes()))


def dec(b):
    d, s, t = pickle.loads(b)
    return np.frombuffer(t, dtype=d).reshape(s).copy()


def sample(area, k, var=0):
    g = np.arange(H * W).reshape(H, W)
    rgb = np.stack([(g * (3 + c) + 40 * k + 11 * area + 17 * c * (k + 1) + 5 * var) % 256 for c in range(3)] + [np.full((H, W), 255)], axis=-1).astype(np.uint8)
    ids = (g * (k + 1) + area + var) % len(LABELS)
    sem = np.stack([np.zeros_like(ids), np.zeros_like(ids), ids], axis=-1).astype(np.uint8)
    dep = ((g * 1234 + 7000 * k + 999 * area + 321 * var) % 65536).astype(np.int32)
    return rgb, sem, dep


def members(area, n, var=0):
    out = [(f"area_{area}", None), (f"area_{area}/pano", None)]
    for d in ("rgb", "semantic", "depth"):
        out.append((f"area_{area}/pano/{d}", None))
    for k in range(n):
        for d, a in zip(("rgb", "semantic", "depth"), sample(area, k, var)):
            out.append((f"area_{area}/pano/{d}/camera_{k}_{d}.png", enc(a)))
    return out


def make_tar(ms):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t:
        for name, data in ms:
            i = tarfile.TarInfo(name)
            if data is None:
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
            else:
                i.size = len(data)
                t.addfile(i, io.BytesIO(data))
    raw = b.getvalue()
    return raw[: len(raw.rstrip(b"\0")) // 512 * 512 + 512 + 1024]


def quad(n, m):
    import ref

    _, w = ref.nodes_weights(n, "equiangular")
    q = np.repeat(np.asarray(w, dtype=np.float64)[:, None], m, axis=1)
    return q / q.sum()


def expected(spec, var=0):
    """direct computation of the converted file for areas spec = {area: nsamples}"""
    cm = [x.split("_")[0] for x in LABELS]
    ci = sorted(set(cm))
    q = quad(H, W)
    rows, rg, dp, hist = {}, [], [], np.zeros(len(ci))
    for a, n in spec.items():
        for k in range(n):
            rgb, sem, dep = sample(a, k, var)
            lab = np.array([[ci.index(cm[int(v[2])]) for v in r] for r in sem])
            r = rgb[..., :3].transpose(2, 0, 1) / 255.0
            d = dep / 65536.0
            rows[f"area_{a}/pano/rgb/camera_{k}_rgb.png"] = (r, lab, d)
            rg.append(r)
            dp.append(d)
            for c in range(len(ci)):
                hist[c] += q[lab == c].sum()
    rg, dp = np.stack(rg), np.stack(dp)
    n = len(rg)
    mr, md = (rg * q).sum((2, 3)).mean(0), (dp * q).sum((1, 2)).mean(0)
    st = {
        "min_rgb": rg.min((0, 2, 3)), "max_rgb": rg.max((0, 2, 3)), "mean_rgb": mr,
        "std_rgb": np.sqrt((((rg - mr[None, :, None, None]) ** 2) * q).sum((0, 2, 3)) / max(n - 1, 1)),
        "min_depth": dp.min(), "max_depth": dp.max(), "mean_depth": md,
        "std_depth": np.sqrt((((dp - md) ** 2) * q).sum() / max(n - 1, 1)),
        "class_histogram": hist / n,
    }
    # what finding F20 yields instead
    w = ((rg - (rg * q).sum((2, 3), keepdims=True)) ** 2 * q).sum((2, 3))  # within each sample and channel
    b = ((rg * q).sum((2, 3)) - mr) ** 2  # between samples
    f20 = {
        "max_rgb": rg.max((2, 3)).min(0), "std_rgb": np.sqrt((w.sum(1, keepdims=True) + b).sum(0) / max(n - 1, 1)),
        "min_depth": 65536 * st["min_depth"], "max_depth": 65536 * dp.max((1, 2)).min(), "mean_depth": 65536 * md, "std_depth": 65536 * st["std_depth"],
    }
    return rows, st, ci, f20


# ----------------------------------------------------------------------------- stand-ins
class World:
    def __init__(self, scratch, files, crash=None, drop=None, ranges=True):
        self.scratch, self.files, self.crash, self.drop, self.ranges = scratch, files, crash, drop, ranges
        self.n = self.gets = self.chunks = 0
        self.live = True

    def event(self, name):
        if not self.live:
            return
        k = self.n
        self.n += 1
        if self.crash == k:
            os.kill(os.getpid(), signal.SIGKILL)


class HTTPError(OSError):
    pass


class Resp:
    def __init__(self, w, body, status, total):
        self.w, self.body, self.status_code, self.ok = w, body, status, status < 400
        self.headers = {"content-length": str(len(body)), "Content-Length": str(len(body))}
        self.text = body.decode("latin1")
        self.total = total

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(f"{self.status_code} error")

    def iter_content(self, chunk_size=1024, **k):
        for i in range(0, len(self.body), chunk_size):
            self.w.event("chunk")
            if self.w.drop is not None and self.w.chunks >= self.w.drop:
                raise HTTPError("connection dropped")
            self.w.chunks += 1
            yield self.body[i : i + chunk_size]

    @property
    def content(self):
        return b"".join(self.iter_content())

    def json(self):
        return list(LABELS)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def fake_requests(w):
    m = types.ModuleType("requests")

    def get(url, headers=None, **k):
        w.event("get")
        if url.endswith(".json"):
            return Resp(w, b"[]", 200, 0)
        w.gets += 1
        body = w.files[url.rsplit("/", 1)[1]]
        h = {k.lower(): v for k, v in (headers or {}).items()}
        if w.ranges and "range" in h:
            lo = int(h["range"].split("=")[1].split("-")[0])
            if lo >= len(body):
                return Resp(w, b"", 416, len(body))
            return Resp(w, body[lo:], 206, len(body))
        return Resp(w, body, 200, len(body))

    m.get = get
    m.HTTPError = HTTPError
    m.RequestException = HTTPError
    m.exceptions = types.SimpleNamespace(HTTPError=HTTPError, RequestException=HTTPError)

    class Session:
        def get(self, url, headers=None, **k):
            return m.get(url, headers=headers, **k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    m.Session = Session
    return m


class Tqdm:
    def __init__(self, it=None, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1):
        pass

    def close(self):
        pass


class Img:
    def __init__(self, a):
        self.a = np.asarray(a)
        self.size = (self.a.shape[1], self.a.shape[0])
        self.mode = "RGBA"

    def resize(self, size=None, resample=None):
        f0, f1 = self.a.shape[0] // size[1], self.a.shape[1] // size[0]
        return Img(self.a[: size[1] * f0 : f0, : size[0] * f1 : f1])

    def convert(self, mode):
        if mode == "RGBA" and self.a.shape[-1] == 3:
            return Img(np.concatenate([self.a, np.full(self.a.shape[:2] + (1,), 255, np.uint8)], -1))
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype or self.a.dtype)


def fake_pil():
    pil, im = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
    im.open = lambda f, *x, **y: Img(dec(f.read() if hasattr(f, "read") else open(f, "rb").read()))
    im.BILINEAR, im.NEAREST = 2, 0
    im.new = lambda mode, size, color: Img(np.broadcast_to(np.array(tuple(color) + (255,) * (4 - len(color)), np.uint8), (size[1], size[0], 4)).copy())

    def comp(bg, fg):
        al = fg.a[..., 3:].astype(np.float64) / 255
        return Img(np.concatenate([np.round(fg.a[..., :3] * al + bg.a[..., :3] * (1 - al)), np.full(fg.a.shape[:2] + (1,), 255)], -1).astype(np.uint8))

    im.alpha_composite = comp
    pil.Image = im
    return pil


class H5:
    """a file that becomes readable only once it has been closed"""

    def __init__(self, path, mode="r", **k):
        self.path, self.mode, self.d, self.open_ = os.fspath(path), mode, {}, True
        if mode == "r":
            b = open(self.path, "rb").read()
            if not b.startswith(b"H5OK") or hashlib.sha1(b[24:]).digest() != b[4:24]:
                raise OSError("unable to open file (truncated file)")
            self.d = pickle.loads(b[24:])
        else:
            self.f = open(self.path, "wb")
            self.f.write(b"H5-UNFINISHED")
            self.f.flush()

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        H5.world.event("h5")
        if data is not None:
            self.d[name] = np.array([x.encode() if isinstance(x, str) else x for x in data] if isinstance(data, list) else data)
        elif isinstance(dtype, tuple):
            self.d[name] = np.empty(shape, dtype=object)
        else:
            self.d[name] = np.zeros(shape, dtype)
        return Ds(self.d[name])

    def __getitem__(self, k):
        if not self.open_:
            raise ValueError("file is closed")
        return Ds(self.d[k])

    def __setitem__(self, k, v):
        self.create_dataset(k, data=v)

    def close(self):
        if self.open_ and self.mode != "r":
            H5.world.event("h5close")
            body = pickle.dumps(self.d)
            self.f.seek(0)
            self.f.write(b"H5OK" + hashlib.sha1(body).digest() + body)
            self.f.truncate()
            self.f.close()
        self.open_ = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Ds:
    def __init__(self, a):
        self.a = a
        self.shape, self.dtype = a.shape, a.dtype

    def __setitem__(self, k, v):
        H5.world.event("h5write")
        self.a[k] = v

    def __getitem__(self, k):
        return np.array(self.a[k])


def fake_h5():
    m = types.ModuleType("h5py")
    m.File = H5
    m.string_dtype = lambda **k: ("str",)
    return m


EVENTS = ("open", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.mkdir", "shutil.move", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp", "os.chmod", "os.utime")


def child(fn, scratch, files, limit=None, **kw):
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            w = World(scratch, files, **kw)
            H5.world = w
            pil = fake_pil()
            tq = types.ModuleType("tqdm")
            tq.tqdm = Tqdm
            tq.trange = lambda *x, **k: Tqdm(range(*x))
            for n, m in (("requests", fake_requests(w)), ("tqdm", tq), ("PIL", pil), ("PIL.Image", pil.Image), ("h5py", fake_h5())):
                sys.modules[n] = m
            import torch_harmonics.examples.stanford_2d3ds_dataset as S

            tempfile.tempdir = scratch
            sc = os.path.abspath(scratch)

            def hook(name, args):
                if name in EVENTS and any(isinstance(x, (str, bytes)) and os.fsdecode(x).startswith(sc) for x in args):
                    w.event(name)

            sys.addaudithook(hook)
            sys.stdout = io.StringIO()
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = ("ok", fn(S), w.gets, w.n)
            except BaseException as e:
                out = ("err", f"{type(e).__name__}: {e}", w.gets, w.n)
            w.live = False
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit if limit is not None else resource.RLIM_INFINITY,) * 2) if False else None
            d = pickle.dumps(out)
            while d:
                d = d[os.write(b, d) :]
        finally:
            os._exit(0)
    os.close(b)
    buf = b""
    while True:
        c = os.read(a, 65536)
        if not c:
            break
        buf += c
    os.close(a)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else ("dead", None, 0, 0)


# ----------------------------------------------------------------------------- the space
SPEC = {1: 2, 2: 1}
TARS = {f"area_{a}_no_xyz.tar": make_tar(members(a, n)) for a, n in SPEC.items()}
PAIRS = [(f"area_{a}_no_xyz.tar", f"area_{a}") for a in SPEC]
SUMS = {k: hashlib.sha256(v).hexdigest() for k, v in TARS.items()}
NEV = 150


def prepare(tier):
    import torch_harmonics.examples  # noqa


def cases(tier):
    out = [{"part": "plain"}, {"part": "count"}]
    for ar in ((1,), (1, 2)):
        for var in range(4 if tier == "quick" else 24):
            for n in (2, 3):
                out.append({"part": "sets", "areas": list(ar), "n": n, "var": var})
    for n, var, pol in itertools.product((2, 3), (0, 1), (0, 0.1, 0.34, 0.5)):
        out.append({"part": "loader", "n": n, "var": var, "polar": pol})
    nch = sum(-(-len(v) // 1024) for v in TARS.values())
    for e in range(NEV):
        out.append({"part": "crash", "event": e, "ranges": True})
        out.append({"part": "crash", "event": e, "ranges": False})
    st = 512 if tier == "quick" else 64
    for pre in (False, True):
        for k in range(0, max(len(v) for v in TARS.values()) + st, st):
            out.append({"part": "torn", "bytes": k, "downloaded": pre})
    for k, r, t in itertools.product(range(nch + 1), (True, False), (1, 2)):
        out.append({"part": "fault", "drop": k, "ranges": r, "times": t})
    for mode, f, pos in itertools.product(("known", "unknown", "off"), (0, 1), range(6)):
        out.append({"part": "verify", "mode": mode, "file": f, "pos": pos})
    n = len(ALPHA)
    for flt in (True, False):
        out.append({"part": "contain", "filter": flt, "first": None})
        for i in range(n):
            out.append({"part": "contain", "filter": flt, "first": i})
        if tier != "quick":
            for i, j in itertools.product(range(n), repeat=2):
                out.append({"part": "contain3", "filter": flt, "pre": [i, j]})
    if tier == "quick":
        for flt in (True, False):
            for i in LINKS:
                out.append({"part": "contain3", "filter": flt, "pre": [i]})
    if tier != "quick":
        for e, f in itertools.product(range(0, NEV), repeat=2):
            if (e + f) % 3 == 0 or e == f:
                out.append({"part": "crash2", "events": [e, f]})
    return out


def run_case(c, R):
    d = tempfile.mkdtemp(prefix="vs2d_")
    try:
        R.step()
        globals()["run_" + c["part"]](c, R, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prep(d, **kw):
    files = kw.pop("files", TARS)
    sums = kw.pop("sums", SUMS)
    pairs = kw.pop("pairs", PAIRS)
    return child(lambda S: S.Stanford2D3DSDownloader(base_url=BASE, local_dir=d, checksums=sums).prepare_dataset(pairs, downsampling_factor=1), d, files, **kw)


def left_by_crash(d, ranges=True):
    """states of the directory that the recorded findings F21-F23 cannot recover from"""
    out = set()
    p = os.path.join(d, "stanford_2d3ds_dataset.h5")
    if os.path.exists(p):
        try:
            H5(p, "r")
        except Exception:
            out.add("F21")
    for a, n in SPEC.items():
        t = os.path.join(d, f"area_{a}_no_xyz.tar")
        f = os.path.join(d, f"area_{a}")
        if os.path.exists(f) and os.path.exists(t):
            for m, body in members(a, n):
                q = os.path.join(d, m)
                if not os.path.exists(q) or (body is not None and open(q, "rb").read() != body):
                    out.add("F22")
        part = t[:-4] + ".part"
        if ranges and os.path.exists(part) and os.path.getsize(part) >= len(TARS[f"area_{a}_no_xyz.tar"]):
            out.add("F23")
    return out


def judge(R, d, r, what, spec=SPEC, var=0, was=()):
    """was: the unrecoverable states (left_by_crash) the directory was in before this run"""
    if r[0] != "ok" and "F23" in was and "416" in str(r[1]):
        R.known("F23", "later-run-fails", f"{what}: {r[1]}")
        return
    if r[0] != "ok" and "F22" in was:
        R.known("F22", "later-run-fails", f"{what}: {r[1]}")
        return
    if not R.check(r[0] == "ok", "later-run-fails", f"{what}: {r[1]}"):
        return
    try:
        h = H5(r[1], "r").d
    except Exception as e:
        if "F21" in was:
            R.known("F21", "unusable-dataset", f"{what}: {e}")
        else:
            R.fail("unusable-dataset", f"{what}: {e}")
        return
    rows, st, ci, f20 = expected(spec, var)
    paths = [os.path.relpath(p.decode() if isinstance(p, bytes) else p, d) for p in h["data_source_path"]]
    if "F22" in was and set(paths) < set(rows):
        R.known("F22", "incomplete-dataset", f"{what}: {sorted(paths)} instead of {sorted(rows)}")
        return
    if not R.check(sorted(paths) == sorted(rows), "incomplete-dataset", f"{what}: {sorted(paths)} instead of {sorted(rows)}"):
        return
    for i, p in enumerate(paths):
        rgb, lab, dep = rows[p]
        R.check(np.allclose(h["rgb"][i], rgb, atol=1e-6), "rgb-data", f"{what} {p}")
        R.check(np.array_equal(h["semantic"][i], lab), "semantic-data", f"{what} {p}")
        R.check(np.allclose(h["depth"][i], dep, atol=1e-6), "depth-data", f"{what} {p}")
        R.check(str(h["data_target_path"][i]).endswith(p.replace("rgb", "semantic")), "target-path", f"{what} {p}")
    R.check([x.decode() for x in h["class_labels"].tolist()] == ci, "class-labels", what)
    for k, v in st.items():
        near = lambda z: np.shape(h[k]) == np.shape(z) and np.allclose(h[k], z, atol=2e-6, rtol=1e-5)
        text = f"{what}: {np.asarray(h[k]).tolist()} instead of {np.asarray(v).tolist()}"
        if k in f20 and not near(v) and near(f20[k]):
            R.known("F20", f"statistics-{k}", text)
        else:
            R.check(near(v), f"statistics-{k}", text)


def after(R, d, what, most=None, was=frozenset()):
    was = was | left_by_crash(d)
    r = prep(d)
    judge(R, d, r, what, was=was)
    if most is not None:
        R.check(r[2] <= most, "downloads-again", f"{what}: {r[2]}")
    stuck = bool(was) and r[0] != "ok"
    was = was | left_by_crash(d)
    r = prep(d)
    judge(R, d, r, what + ", once more", was=was)
    R.check(r[2] == 0 or stuck, "downloads-again", f"{what}: {r[2]} downloads although the dataset is complete")
    R.outcome((what.split()[0], tuple(sorted(os.listdir(d)))))


def run_plain(c, R, d):
    R.state("plain")
    r = prep(d)
    judge(R, d, r, "first run")
    R.check(r[2] == len(TARS), "downloads", r[2])
    left = sorted(os.listdir(d))
    R.check(not [x for x in left if x.endswith((".tar", ".part", ".tmp"))], "leftovers", left)
    after(R, d, "second run", 0)


def run_count(c, R, d):
    r = prep(d)
    R.state("count", r[3])
    R.note("events_per_run", r[3])
    R.check(r[3] < NEV, "more-events-than-explored", r[3])


def run_sets(c, R, d):
    R.state("sets", str(sorted(c.items(), key=str)))
    spec = {a: c["n"] for a in c["areas"]}
    files = {f"area_{a}_no_xyz.tar": make_tar(members(a, c["n"], c["var"])) for a in c["areas"]}
    r = prep(d, files=files, sums={k: hashlib.sha256(v).hexdigest() for k, v in files.items()}, pairs=[(f"area_{a}_no_xyz.tar", f"area_{a}") for a in c["areas"]])
    judge(R, d, r, f"sample set {c}", spec, c["var"])


def run_loader(c, R, d):
    """what the dataset classes hand out, in every order of access, against the samples that were prepared"""
    R.state("loader", str(sorted(c.items())))
    files = {"area_1_no_xyz.tar": make_tar(members(1, c["n"], c["var"]))}
    cut = int(c["polar"] * H)

    def job(S):
        p = S.Stanford2D3DSDownloader(base_url=BASE, local_dir=d, checksums=None).prepare_dataset([("area_1_no_xyz.tar", "area_1")], downsampling_factor=1)
        out = []
        seg = S.StanfordSegmentationDataset(p, exclude_polar_fraction=c["polar"])
        dep = {lg: S.StanfordDepthDataset(p, log_depth=lg, exclude_polar_fraction=c["polar"]) for lg in (False, True)}
        paths = [x.decode() if isinstance(x, bytes) else x for x in seg.img_filepath]
        meta = (len(seg), len(dep[True]), tuple(seg.input_shape), tuple(seg.target_shape), tuple(dep[False].target_shape), seg.class_labels, np.asarray(seg.class_histogram), np.asarray(seg.mean), np.asarray(dep[False].mean_out))
        for order in itertools.product(range(c["n"]), repeat=2):
            for i in order:
                out.append((i, "seg", seg[i]))
                for lg, x in dep.items():
                    out.append((i, f"dep{int(lg)}", x[i]))
            seg.reset()
            dep[True].reset()
        try:
            sub = S.StanfordDatasetSubset(seg, list(range(c["n"]))[::-1], return_index=True)
        except NotImplementedError as e:
            if "__getitems__" not in str(e):
                raise
            return paths, meta, out, str(e)
        out.append((c["n"] - 1, "sub", sub[0]))
        out.append((0, "sub", sub.__getitems__([0, c["n"] - 1])[1]))
        sub.set_return_index(False)
        out.append((c["n"] - 1, "sub2", sub[0]))
        return paths, meta, out, None

    r = child(job, d, files)
    if not R.check(r[0] == "ok", "loader-fails", r[1]):
        return
    paths, meta, out, sub = r[1]
    if sub is not None:
        R.known("F30", "loader-fails", sub)
    rows, st, ci, f20 = expected({1: c["n"]}, c["var"])
    R.check(meta[:6] == (c["n"], c["n"], (3, H, W), (H, W), (H, W), ci), "loader-shape", meta[:6])
    R.check(np.allclose(meta[6], st["class_histogram"] / st["class_histogram"].sum(), atol=1e-5) and np.allclose(meta[7], st["mean_rgb"], atol=1e-5), "loader-statistics", meta[6:])
    if not np.allclose(meta[8], st["mean_depth"], atol=1e-5) and np.allclose(meta[8], f20["mean_depth"], rtol=1e-5):
        R.known("F20", "loader-statistics", meta[8])
    else:
        R.check(np.allclose(meta[8], st["mean_depth"], atol=1e-5), "loader-statistics", meta[8])
    for i, kind, v in out:
        R.step()
        rgb, lab, dep = rows[os.path.relpath(paths[i], d)]
        ok = np.allclose(v[0], rgb, atol=1e-6)
        if kind.startswith("dep"):
            w = np.where(dep == dep.max(), 0, dep)
            if cut:
                w[:cut] = 0
                w[-cut:] = 0
            ok = ok and np.allclose(v[1], np.log(1 + w) if kind == "dep1" else w, atol=1e-6)
        else:
            w = lab.copy()
            if cut:
                w[:cut] = -100
                w[-cut:] = -100
            ok = ok and np.array_equal(v[1], w) and (len(v) == 3 and v[2] == i if kind == "sub" else len(v) == 2)
        R.check(ok, f"loader-{kind[:3]}", f"sample {i} with {c}")


def run_crash(c, R, d):
    R.state("crash", c["event"], c["ranges"])
    prep(d, crash=c["event"], ranges=c["ranges"])
    was = left_by_crash(d, c["ranges"])
    r = prep(d, ranges=c["ranges"])
    judge(R, d, r, f"after a crash at event {c['event']}", was=was)
    after(R, d, f"after a crash at event {c['event']}", None if was and r[0] != "ok" else 0, was)


def run_crash2(c, R, d):
    R.state("crash2", *c["events"])
    was = set()
    for e in c["events"]:
        prep(d, crash=e)
        was |= left_by_crash(d)
    after(R, d, f"after crashes at events {c['events']}", was=was)


def run_torn(c, R, d):
    R.state("torn", c["bytes"], c["downloaded"])
    if c["downloaded"]:
        for k, v in TARS.items():
            open(os.path.join(d, k), "wb").write(v)
    prep(d, limit=c["bytes"])
    after(R, d, f"after a crash with {c['bytes']} bytes written")


def run_fault(c, R, d):
    R.state("fault", c["drop"], c["ranges"], c["times"])
    for _ in range(c["times"]):
        r = prep(d, drop=c["drop"], ranges=c["ranges"])
        if r[0] == "ok":
            judge(R, d, r, "run whose connection held")
            return
        R.check(not os.path.exists(os.path.join(d, "stanford_2d3ds_dataset.h5")), "partial-dataset", "a failed download left a dataset file")
    after(R, d, f"after {c['times']} connection(s) dropped after {c['drop']} chunks")


def run_verify(c, R, d):
    R.state("verify", c["mode"], c["file"], c["pos"])
    name = list(TARS)[c["file"]]
    b = bytearray(TARS[name])
    data0 = 5 * 512 + 512 + 100  # inside the first image
    pos = [data0, 148, 0, len(b) - 1, 5 * 512 + 20, len(b) // 2][c["pos"]]
    b[pos] ^= 0x41
    files = dict(TARS, **{name: bytes(b)})
    sums = {"known": SUMS, "unknown": {k: v for k, v in SUMS.items() if k != name}, "off": None}[c["mode"]]
    r = prep(d, files=files, sums=sums)
    got = os.path.exists(os.path.join(d, f"area_{c['file'] + 1}"))
    if c["mode"] == "known":
        R.check(r[0] == "err" and "hecksum" in r[1], "corruption-accepted", f"byte {pos} of {name} flipped: {r[:2]}")
        R.check(not got, "extracted-unverified", f"byte {pos} of {name} flipped, archive extracted all the same")
        for k in range(2):  # a retry does not accept it either
            r = prep(d, files=TARS, sums=sums)
            R.check(r[0] == "ok" or "hecksum" in r[1], "retry", r[:2])
            if r[0] == "ok":
                judge(R, d, r, "retry with the correct archive")
            elif k == 0:
                R.check(not os.path.exists(os.path.join(d, f"area_{c['file'] + 1}")), "extracted-unverified", "on retry")
                with contextlib.suppress(FileNotFoundError):
                    os.remove(os.path.join(d, name))  # what the message asks for
        after(R, d, "after removing the corrupt archive")


# ----------------------------------------------------------------------------- containment
F, D_, L, K = "file", "dir", "sym", "hard"
ALPHA = [
    (F, "a", ""), (F, "d/f", ""), (D_, "d", ""), (D_, "d/e", ""),
    (F, "../esc", ""), (F, "d/../../esc", ""), (F, "ABS/esc", ""), (D_, "../escd", ""),
    (L, "s", "d"), (L, "s", ".."), (L, "s", "ABS"), (L, "d/s", ".."), (L, "d/s", "../.."), (L, "s", "d/s/.."), (L, "d/e/s", "../.."), (L, "t", "d/e/s/../.."), (L, "s", "../esc"),
    (F, "s", ""), (F, "s/f", ""), (F, "t/f", ""), (F, "d/s/esc", ""), (F, "s/secret", ""),
    (K, "h", "a"), (K, "h", "../secret"), (K, "d/h", "../secret"), (K, "d/e/h", "../../secret"), (K, "h", "s"), (K, "h", "ABS/secret"), (F, "h", ""), (F, "d/h", ""),
]
LINKS = [i for i, a in enumerate(ALPHA) if a[0] in (L, K)]


def mtar(path, seq, outside):
    with tarfile.open(path, "w") as t:
        for kind, name, tgt in seq:
            i = tarfile.TarInfo(name.replace("ABS", outside))
            if kind == F:
                i.size = 4
                t.addfile(i, io.BytesIO(b"EVIL"))
                continue
            i.type = {D_: tarfile.DIRTYPE, L: tarfile.SYMTYPE, K: tarfile.LNKTYPE}[kind]
            i.mode = 0o755
            i.linkname = tgt.replace("ABS", outside)
            t.addfile(i)


def snap(root, skip):
    out = []
    for p, ds, fs in os.walk(root):
        if os.path.abspath(p) == skip:
            ds[:] = []
            continue
        for f in ds + fs:
            q = os.path.join(p, f)
            if os.path.abspath(q) == skip:
                continue
            st = os.lstat(q)
            out.append((q, st.st_mode, st.st_nlink if not os.path.isdir(q) else 0, os.readlink(q) if os.path.islink(q) else (open(q, "rb").read() if os.path.isfile(q) else "")))
    return sorted(out)


@contextlib.contextmanager
def unprivileged(d):
    """what is extracted here is hostile on purpose: run it as a user who owns nothing but the scratch directory"""
    if os.geteuid() != 0:
        yield
        return
    for p, ds, fs in os.walk(d):
        for q in [p] + [os.path.join(p, f) for f in fs]:
            os.chown(q, 65534, 65534, follow_symlinks=False)
    try:
        os.setegid(65534)
        os.seteuid(65534)
    except OSError:
        pass  # (the members cannot climb out of the scratch directory anyway)
    try:
        yield
    finally:
        os.seteuid(0)
        os.setegid(0)


def recorded_check(tp, base):
    """finding F24: the archives that the recorded member check lets through (it resolves every link against
    the folder of the member and follows no other link)"""
    inside = lambda q: q == base or q.startswith(base + os.sep)
    with tarfile.open(tp) as t:
        for m in t.getmembers():
            p = os.path.abspath(os.path.join(base, m.name))
            if not inside(p) or ((m.issym() or m.islnk()) and not inside(os.path.abspath(os.path.join(os.path.dirname(p), m.linkname)))):
                return False
    return True


def one(S, R, d, seq, flt, k):
    # deep enough that no chain of the explored members can climb out of the scratch directory
    root = os.path.join(d, f"r{k}")
    box = os.path.join(root, *"abcdefghijkl", "x", "y")
    local = os.path.join(box, "data")
    os.makedirs(local)
    for p in (root, os.path.dirname(os.path.dirname(box)), os.path.dirname(box), box):
        open(os.path.join(p, "secret"), "w").write("SECRET")
    tp = os.path.join(local, "in.tar")
    mtar(tp, seq, box)
    before = snap(root, local)
    weak = not flt and any(x[0] in (L, K) for x in seq) and recorded_check(tp, local)
    dl = S.Stanford2D3DSDownloader(base_url=BASE, local_dir=local, checksums=None)
    if not hasattr(dl, "_extract_tar"):
        R.note("extraction_entry_point_missing")
        return
    with unprivileged(d):
        try:
            dl._extract_tar(tp)
            ok = True
        except Exception:
            ok = False
    R.step()

    def contained(cond, label, text):
        if not cond and weak:
            R.known("F24", label, text)
        else:
            R.check(cond, label, text)

    contained(snap(root, local) == before, "escaped", f"{seq} (filter={flt}) changed something outside of the target directory")
    leak = []
    for p, ds, fs in os.walk(local):
        for f in ds + fs:
            q = os.path.join(p, f)
            if os.path.islink(q):
                rp = os.path.realpath(q)
                if rp != local and not rp.startswith(local + os.sep):
                    leak.append(q)
    contained(not leak, "link-outside", f"{seq} (filter={flt}) left a link pointing outside: {leak}")
    if all(s[0] in (F, D_) and ".." not in s[1] and "ABS" not in s[1] for s in seq) and not bad_prefix(seq):
        R.check(ok, "harmless-archive-refused", f"{seq} (filter={flt})")
        for s in seq:
            R.check(os.path.exists(os.path.join(local, s[1])), "member-missing", f"{s} of {seq}")
    R.outcome((ok, flt, len(seq)))
    shutil.rmtree(root, ignore_errors=True)


def bad_prefix(seq):
    names = [s[1] for s in seq]
    for i, s in enumerate(seq):
        for j, t in enumerate(seq):
            if i != j and (s[1] == t[1] or (s[0] == F and t[1].startswith(s[1] + "/"))):
                return True
    return False


@contextlib.contextmanager
def interpreter(flt):
    """an interpreter with or without the extraction filters (older patch releases have none)"""
    if flt:
        yield
        return
    keep = {n: getattr(tarfile, n) for n in ("data_filter", "tar_filter", "fully_trusted_filter") if hasattr(tarfile, n)}
    ex = tarfile.TarFile.extractall

    def extractall(self, path=".", members=None, *, numeric_owner=False):
        return ex(self, path, members, numeric_owner=numeric_owner, filter=keep["fully_trusted_filter"])

    try:
        for n in keep:
            delattr(tarfile, n)
        tarfile.TarFile.extractall = extractall
        yield
    finally:
        tarfile.TarFile.extractall = ex
        for n, v in keep.items():
            setattr(tarfile, n, v)


def contain(c, R, d, seqs):
    import torch_harmonics.examples.stanford_2d3ds_dataset as S

    with interpreter(c["filter"]):
        for k, s in enumerate(seqs):
            R.state(c["filter"], s)
            one(S, R, d, s, c["filter"], k)


def run_contain(c, R, d):
    contain(c, R, d, [(a,) for a in ALPHA] if c["first"] is None else [(ALPHA[c["first"]], a) for a in ALPHA])


def run_contain3(c, R, d):
    pre = tuple(ALPHA[i] for i in c["pre"])
    rest = itertools.product(ALPHA, repeat=3 - len(pre))
    contain(c, R, d, [pre + r for r in rest])
