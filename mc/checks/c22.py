"""The elevation-map loader: every crash point, torn write, failed download and two-process interleaving leaves a usable cache."""
import itertools
import os
import resource
import shutil
import signal
import sys
import tempfile
import types
import zlib

import numpy as np
import torch

RULE = (
    "crash: the process is ended at every file-system/network event and, separately, after every single byte written (torn writes), then the loader is called again; fault: every download error at every read; "
    "race: a second process runs completely while the first is paused at each of its events, and the reverse; a state is (history, point); after each history every later call must return the complete map, "
    "downloading at most once more, and leave no partial file in its place"
)
ASSUMPTIONS = ["network and image decoder are stand-ins (a byte stream; a decoder that rejects incomplete files); everything happens in a scratch directory", "rename within a directory is atomic; data written before a crash of the process persists (process crash, not power loss)"]
H, W = 3, 4
PIX = (np.arange(H * W, dtype=np.uint8).reshape(H, W) * 20 + 7).astype(np.uint8)


def payload():
    body = bytes([H, W]) + PIX.tobytes()
    return b"IMG0" + zlib.crc32(body).to_bytes(4, "big") + body


def prepare(tier):
    import torch_harmonics.utils  # noqa


def cases(tier):
    out = [{"part": "plain"}, {"part": "resize"}, {"part": "count"}]
    for e in range(60):
        out.append({"part": "crash", "event": e})
    for k in range(len(payload()) + 1):
        out.append({"part": "torn", "bytes": k})
    for k, n in itertools.product(range(0, 4), range(1, 4)):
        out.append({"part": "fault", "reads": k, "times": n})
    for e, who in itertools.product(range(60), ("finish", "crash")):
        out.append({"part": "race", "event": e, "first": who})
    for seq in itertools.product(("ok", "crash0", "crash1", "torn", "fault"), repeat=3 if tier == "quick" else 4):
        out.append({"part": "hist", "seq": list(seq)})
    return out


# ----------------------------------------------------------------------------- stand-ins
class Img:
    def __init__(self, f):
        b = f.read() if hasattr(f, "read") else open(f, "rb").read()
        if len(b) < 10 or b[:4] != b"IMG0" or zlib.crc32(b[8:]) != int.from_bytes(b[4:8], "big"):
            raise OSError("cannot identify image file")
        self.a = np.frombuffer(b[10:], dtype=np.uint8).reshape(b[8], b[9])

    def convert(self, mode):
        return self

    def load(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype or np.uint8)


class Resp:
    """a chunked response; hooks run before every read"""

    def __init__(self, world):
        self.w, self.pos = world, 0
        self.status = 200
        self.headers = {"Content-Length": str(len(payload()))}
        self.length = len(payload())

    def read(self, n=-1):
        self.w.event("read")
        self.w.reads += 1
        if self.w.fail_at is not None and self.w.reads > self.w.fail_at:
            raise OSError("connection reset")
        b = payload()
        end = len(b) if n is None or n < 0 else min(len(b), self.pos + n)
        out = b[self.pos : end]
        self.pos = end
        return out

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[: len(b)] = b
        return len(b)

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def info(self):
        return self.headers

    def geturl(self):
        return "stand-in"

    def __iter__(self):
        b = self.read()
        return iter([b] if b else [])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class World:
    """event hook of one process: what to do at which event"""

    def __init__(self, scratch, crash=None, pause=None, fail_at=None):
        self.scratch, self.crash, self.pause, self.fail_at = scratch, crash, pause, fail_at
        self.n = self.reads = self.downloads = 0
        self.live = True

    def event(self, name):
        if not self.live:
            return
        k = self.n
        self.n += 1
        if self.crash == k:
            os.kill(os.getpid(), signal.SIGKILL)
        if self.pause is not None and self.pause[0] == k:
            os.write(self.pause[1], b"p")
            os.read(self.pause[2], 1)


EVENTS = ("open", "os.rename", "os.remove", "os.link", "os.truncate", "os.mkdir", "shutil.move", "tempfile.mkstemp", "os.listdir", "os.chmod")


def child(fn, scratch, **kw):
    """run fn(world) in a forked process; returns (status, value) through a pipe"""
    limit = kw.pop("limit", None)
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            w = World(scratch, **kw)
            import urllib.request

            pil = types.ModuleType("PIL")
            pil.Image = types.ModuleType("PIL.Image")
            pil.Image.open = lambda f, *x, **y: Img(f)
            sys.modules["PIL"], sys.modules["PIL.Image"] = pil, pil.Image

            def urlopen(*x, **y):
                w.event("urlopen")
                w.downloads += 1
                return Resp(w)

            def urlretrieve(url, filename=None, *x, **y):
                w.event("urlopen")
                w.downloads += 1
                r = Resp(w)
                with open(filename, "wb") as f:
                    f.write(r.read())
                return filename, {}

            urllib.request.urlopen, urllib.request.urlretrieve = urlopen, urlretrieve
            import torch_harmonics.utils as U

            for nm, f in (("urlopen", urlopen), ("urlretrieve", urlretrieve)):
                if hasattr(U, nm):
                    setattr(U, nm, f)
            tempfile.tempdir = scratch
            os.environ["TMPDIR"] = scratch

            def hook(name, args):
                if name in EVENTS and any(isinstance(x, (str, bytes)) and os.fsdecode(x).startswith(scratch) for x in args):
                    w.event(name)

            sys.addaudithook(hook)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                v = fn(U)
                w.live = False
                out = repr(("ok", v.numpy().tolist() if v is not None else None, w.downloads, w.n))
            except BaseException as e:
                w.live = False
                out = repr(("err", f"{type(e).__name__}: {e}", w.downloads, w.n))
            os.write(b, out.encode())
        finally:
            os._exit(0)
    os.close(b)
    return pid, a


def result(pa):
    pid, a = pa
    buf = b""
    while True:
        c = os.read(a, 65536)
        if not c:
            break
        buf += c
    os.close(a)
    os.waitpid(pid, 0)
    return eval(buf.decode(), {"nan": float("nan"), "inf": float("inf")}) if buf else ("dead", None, 0, 0)


def call(scratch, **kw):
    return result(child(lambda U: U.load_mola_elevation(cache_dir=scratch), scratch, **kw))


def good(R, r, what, max_downloads):
    R.check(r[0] == "ok", "later-call-fails", f"{what}: {r[1]}")
    if r[0] == "ok":
        R.check(np.allclose(np.array(r[1]), PIX / 255.0, atol=1e-7), "wrong-data", f"{what}: {r[1]}")
        R.check(r[2] <= max_downloads, "downloaded-again", f"{what}: {r[2]} downloads")


def run_case(c, R):
    d = tempfile.mkdtemp(prefix="vmola_")
    try:
        R.step()
        globals()["run_" + c["part"]](c, R, d)
        R.outcome((c["part"], sorted(os.listdir(d))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def after(R, d, what):
    """two further calls: the first may download, the second may not"""
    good(R, call(d), what, 1)
    good(R, call(d), what + " (second call)", 0)


def run_plain(c, R, d):
    R.state("plain")
    r = call(d)
    good(R, r, "first call", 1)
    R.check(r[2] == 1, "no-download", r)
    good(R, call(d), "cached call", 0)


def run_resize(c, R, d):
    import torch.nn.functional as F

    for n, m in itertools.product((1, 2, 3, 5), (1, 2, 4, 7)):
        R.state("resize", n, m)
        r = result(child(lambda U: U.load_mola_elevation(n, m, cache_dir=d), d))
        want = F.interpolate(torch.as_tensor(PIX.astype(np.float32) / 255.0)[None, None], size=(n, m), mode="bilinear", align_corners=False)[0, 0].numpy()
        R.check(r[0] == "ok" and np.allclose(np.array(r[1]), want, atol=1e-6), "resize", f"{n}x{m}: {r[1]}")
    # the default cache directory is the system temporary directory
    r = result(child(lambda U: U.load_mola_elevation(), d))
    good(R, r, "default cache_dir", 0)


def run_count(c, R, d):
    # the bound on events used by the crash and race parts covers the whole run
    r = call(d)
    R.state("count", r[3])
    R.note("events_per_call", r[3])
    R.check(r[3] < 60, "more-events-than-explored", r[3])


def run_crash(c, R, d):
    R.state("crash", c["event"])
    call(d, crash=c["event"])
    after(R, d, f"after a crash at event {c['event']}")


def run_torn(c, R, d):
    R.state("torn", c["bytes"])
    call(d, limit=c["bytes"])
    after(R, d, f"after a crash with {c['bytes']} bytes written")


def run_fault(c, R, d):
    R.state("fault", c["reads"], c["times"])
    for _ in range(c["times"]):
        r = call(d, fail_at=c["reads"])
        if r[0] == "ok":
            good(R, r, "download that did not fail", 1)
            return
    after(R, d, f"after {c['times']} download(s) failing at read {c['reads']}")


def run_race(c, R, d):
    R.state("race", c["event"], c["first"])
    a, b = os.pipe()
    e, f = os.pipe()
    p = child(lambda U: U.load_mola_elevation(cache_dir=d), d, pause=(c["event"], b, e))
    os.close(b)
    os.close(e)
    paused = os.read(a, 1) == b"p"
    if paused:
        good(R, call(d), f"second process while the first is paused at event {c['event']}", 1)
        if c["first"] == "crash":
            os.kill(p[0], signal.SIGKILL)
            result(p)
        else:
            os.write(f, b"g")
            good(R, result(p), f"first process, resumed at event {c['event']}", 1)
    else:
        good(R, result(p), "undisturbed", 1)
    os.close(a)
    os.close(f)
    after(R, d, f"after two processes, event {c['event']}")


def run_hist(c, R, d):
    R.state("hist", *c["seq"])
    have = False
    for k, s in enumerate(c["seq"]):
        what = f"history {c['seq'][: k + 1]}"
        if s == "ok":
            good(R, call(d), what, 0 if have else 1)
            have = True
            continue
        kw = {"crash0": {"crash": 1}, "crash1": {"crash": 3}, "torn": {"limit": 9}, "fault": {"fail_at": 0}}[s]
        r = call(d, **kw)
        if have and s in ("torn", "fault"):
            good(R, r, what, 0)  # the cache is complete: nothing is written or downloaded
    after(R, d, f"history {c['seq']}")
