"""Controlled distributed runtime: every rank is a forked process, every communication call a scheduling point.

The parent (coordinator) owns the transport.  At any time at most one rank runs; the scheduler decides
which one.  Transport nondeterminism that a real backend has is explicit:
  delivery = eager : data of an asynchronous operation lands as soon as it can (any later call of the rank)
             lazy  : it lands only when the rank waits for the operation
  capture  = early : a send buffer is read when the send is posted
             late  : it is read as late as the protocol allows (on wait, or when nothing else can move)
Point-to-point sends are rendezvous (no buffering), so missing receives are deadlocks.
"""
import math
import os
import pickle
import select
import struct
import sys
import traceback

import torch
import torch.distributed as dist

CTX = None
_installed = False


class SimError(Exception):
    pass


class Group:
    """A process group: an ordered tuple of global ranks."""

    def __init__(self, name, ranks):
        self.name, self.ranks = name, tuple(ranks)

    def size(self):
        return len(self.ranks)

    def rank(self):
        return self.ranks.index(CTX.rank)

    def __repr__(self):
        return f"Group({self.name},{self.ranks})"

    __deepcopy__ = None


def _deepcopy(self, memo):
    return self


Group.__deepcopy__ = _deepcopy


# ----------------------------------------------------------------------------- wire
def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _readn(fd, n):
    out = bytearray()
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return bytes(out)


def _recv(fd):
    (n,) = struct.unpack("<Q", _readn(fd, 8))
    return pickle.loads(_readn(fd, n))


def _enc(t):
    t = t.detach()
    c = t.is_complex()
    x = torch.view_as_real(t.contiguous()) if c else t.contiguous()
    if x.dtype == torch.bfloat16:
        raw = x.view(torch.int16).numpy().tobytes()
    else:
        raw = x.numpy().tobytes()
    return (str(t.dtype), tuple(t.shape), raw)


def _dec(e):
    dt = getattr(torch, e[0].split(".")[1])
    n = int(math.prod(e[1]))
    if n == 0:
        return torch.empty(e[1], dtype=dt)
    return torch.frombuffer(bytearray(e[2]), dtype=dt).clone().reshape(e[1])


# ----------------------------------------------------------------------------- child side
class Work:
    def __init__(self, cid):
        self.cid = cid

    def wait(self, timeout=None):
        CTX.wait(self.cid)
        return True

    def is_completed(self):
        return self.cid in CTX.delivered

    def is_success(self):
        return True

    def get_future(self):
        raise SimError("futures are not modelled")


class Ctx:
    def __init__(self, rank, world, rfd, wfd, delivery, capture):
        self.rank, self.world, self.rfd, self.wfd = rank, world, rfd, wfd
        self.delivery, self.capture = delivery, capture
        self.n = 0
        self.pending = {}  # cid -> (inputs, outputs)
        self.uncaptured = {}
        self.delivered = set()
        self.destroyed = []
        self.wgroup = Group("world", range(world))

    def _in(self, msg):
        for cid, data in msg:
            outs = self.pending.pop(cid, None)
            self.delivered.add(cid)
            if outs is None:
                continue
            for o, d in zip(outs, data):
                if d is None:
                    continue
                src = _dec(d)
                if src.numel() != o.numel() or src.dtype != o.dtype:
                    raise SimError(f"message of {tuple(src.shape)} {src.dtype} delivered into a buffer of {tuple(o.shape)} {o.dtype}")
                with torch.no_grad():
                    o.copy_(src.reshape(o.shape))

    def prep(self, kind, group, meta, inputs, outputs, sync=False):
        g = group if group is not None else self.wgroup
        if self.rank not in g.ranks:
            raise SimError(f"rank {self.rank} is not a member of {g}")
        if g.name in self.destroyed:
            raise SimError(f"{kind} on destroyed group {g.name}")
        for t in list(inputs) + list(outputs):
            if not t.is_contiguous():
                raise SimError(f"{kind}: tensors must be contiguous")
        cid = self.n
        self.n += 1
        self.pending[cid] = list(outputs)
        late = self.capture == "late" and not sync
        if late:
            self.uncaptured[cid] = list(inputs)
        shapes = {"in": [(tuple(t.shape), str(t.dtype)) for t in inputs], "out": [(tuple(t.shape), str(t.dtype)) for t in outputs]}
        return (cid, kind, g.name, g.ranks, meta, shapes, None if late else [_enc(t) for t in inputs])

    def post(self, kind, group, meta, inputs, outputs, sync=False):
        msg = self.prep(kind, group, meta, inputs, outputs, sync)
        return self.issue([msg], sync)[0]

    def issue(self, msgs, sync=False):
        """one communication call: a batch of asynchronous operations, or one blocking operation"""
        _send(self.wfd, ("post", msgs, sync))
        self._reply()
        if sync:
            if msgs[0][0] not in self.delivered:
                raise SimError("runtime error: blocking call returned early")
            return [None]
        return [Work(m[0]) for m in msgs]

    def wait(self, cid):
        if cid in self.delivered:
            return
        own = {}
        if cid in self.uncaptured:
            own[cid] = [_enc(t) for t in self.uncaptured.pop(cid)]
        _send(self.wfd, ("wait", cid, own))
        self._reply()
        if cid not in self.delivered:
            raise SimError("runtime error: wait returned early")

    def _reply(self):
        while True:
            m = _recv(self.rfd)
            if m[0] == "flush":
                d = {c: [_enc(t) for t in ts] for c, ts in self.uncaptured.items()}
                self.uncaptured = {}
                _send(self.wfd, ("flushed", d))
                continue
            if m[0] == "abort":
                os._exit(3)
            self._in(m[1])
            return


# --- the torch.distributed surface
def _g(group):
    return group if isinstance(group, Group) else CTX.wgroup


def get_rank(group=None):
    g = _g(group)
    return g.ranks.index(CTX.rank) if CTX.rank in g.ranks else -1


def get_world_size(group=None):
    return len(_g(group).ranks)


def get_process_group_ranks(group=None):
    return list(_g(group).ranks)


def get_global_rank(group, group_rank):
    return _g(group).ranks[group_rank]


def get_group_rank(group, global_rank):
    return _g(group).ranks.index(global_rank)


def _opname(op):
    s = str(op)
    for k in ("SUM", "AVG", "MAX", "MIN", "PRODUCT"):
        if k in s.upper():
            return k
    return "SUM"


def all_reduce(tensor, op=None, group=None, async_op=False):
    return CTX.post("all_reduce", _grp(group), (_opname(op or "SUM"),), [tensor], [tensor], sync=not async_op)


def _grp(group):
    return group if isinstance(group, Group) else None


def all_gather(tensor_list, tensor, group=None, async_op=False):
    return CTX.post("all_gather", _grp(group), (), [tensor], list(tensor_list), sync=not async_op)


def all_gather_into_tensor(output_tensor, input_tensor, group=None, async_op=False):
    return CTX.post("all_gather_into", _grp(group), (), [input_tensor], [output_tensor], sync=not async_op)


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    return CTX.post("all_to_all", _grp(group), (), list(input_tensor_list), list(output_tensor_list), sync=not async_op)


def all_to_all_single(output, input, output_split_sizes=None, input_split_sizes=None, group=None, async_op=False):
    n = get_world_size(group)
    i = list(torch.split(input, input_split_sizes if input_split_sizes else [input.shape[0] // n] * n, dim=0))
    o = list(torch.split(output, output_split_sizes if output_split_sizes else [output.shape[0] // n] * n, dim=0))
    return CTX.post("all_to_all", _grp(group), (), i, o, sync=not async_op)


def reduce_scatter(output, input_list, op=None, group=None, async_op=False):
    return CTX.post("reduce_scatter", _grp(group), (_opname(op or "SUM"),), list(input_list), [output], sync=not async_op)


def reduce_scatter_tensor(output, input, op=None, group=None, async_op=False):
    n = get_world_size(group)
    return CTX.post("reduce_scatter", _grp(group), (_opname(op or "SUM"),), list(torch.chunk(input.reshape(-1), n)), [output], sync=not async_op)


def broadcast(tensor, src=None, group=None, async_op=False, group_src=None):
    g = _g(group)
    s = src if src is not None else g.ranks[group_src]
    return CTX.post("broadcast", _grp(group), (s,), [tensor], [tensor], sync=not async_op)


def reduce(tensor, dst=None, op=None, group=None, async_op=False, group_dst=None):
    d = dst if dst is not None else _g(group).ranks[group_dst]
    return CTX.post("reduce", _grp(group), (d, _opname(op or "SUM")), [tensor], [tensor] if CTX.rank == d else [], sync=not async_op)


def gather(tensor, gather_list=None, dst=None, group=None, async_op=False, group_dst=None):
    d = dst if dst is not None else _g(group).ranks[group_dst or 0]
    return CTX.post("gather", _grp(group), (d,), [tensor], list(gather_list) if CTX.rank == d else [], sync=not async_op)


def scatter(tensor, scatter_list=None, src=None, group=None, async_op=False, group_src=None):
    s = src if src is not None else _g(group).ranks[group_src or 0]
    return CTX.post("scatter", _grp(group), (s,), list(scatter_list) if CTX.rank == s else [], [tensor], sync=not async_op)


def get_backend(group=None):
    return "gloo"


def barrier(group=None, async_op=False, device_ids=None):
    return CTX.post("barrier", _grp(group), (), [], [], sync=not async_op)


def isend(tensor, dst=None, group=None, tag=0, group_dst=None):
    d = dst if dst is not None else _g(group).ranks[group_dst]
    return CTX.post("send", _grp(group), (d,), [tensor], [])


def irecv(tensor, src=None, group=None, tag=0, group_src=None):
    s = src if src is not None else _g(group).ranks[group_src]
    return CTX.post("recv", _grp(group), (s,), [], [tensor])


def send(tensor, dst=None, group=None, tag=0, group_dst=None):
    isend(tensor, dst, group, tag, group_dst).wait()


def recv(tensor, src=None, group=None, tag=0, group_src=None):
    irecv(tensor, src, group, tag, group_src).wait()


class P2POp:
    def __init__(self, op, tensor, peer=None, group=None, tag=0, group_peer=None):
        self.op, self.tensor, self.group, self.tag = op, tensor, group, tag
        self.peer = peer if peer is not None else _g(group).ranks[group_peer]


def batch_isend_irecv(p2p_op_list):
    ms = []
    for p in p2p_op_list:
        if p.op is isend:
            ms.append(CTX.prep("send", _grp(p.group), (p.peer,), [p.tensor], []))
        elif p.op is irecv:
            ms.append(CTX.prep("recv", _grp(p.group), (p.peer,), [], [p.tensor]))
        else:
            raise SimError(f"unexpected operation in batch_isend_irecv: {p.op}")
    return CTX.issue(ms) if ms else []


def destroy_process_group(group=None):
    CTX.destroyed.append(_g(group).name)


def is_initialized():
    return CTX is not None


NAMES = "get_rank get_world_size get_process_group_ranks get_global_rank get_group_rank all_reduce all_gather all_gather_into_tensor all_to_all all_to_all_single reduce_scatter reduce_scatter_tensor broadcast reduce gather scatter get_backend barrier isend irecv send recv P2POp batch_isend_irecv destroy_process_group is_initialized".split()


def install():
    """Replace the torch.distributed entry points once, before the library is imported."""
    global _installed
    if _installed:
        return
    import torch.distributed.distributed_c10d as c10d

    for n in NAMES:
        setattr(dist, n, globals()[n])
        setattr(c10d, n, globals()[n])
    _installed = True


# ----------------------------------------------------------------------------- coordinator
class Priority:
    """Non-preemptive: the running rank goes on until it blocks; then the first ready rank of `order`."""

    def __init__(self, order):
        self.order = list(order)
        self.points = 0

    def choose(self, ready, cur):
        self.points += len(ready) > 1
        if cur in ready:
            return cur
        return min(ready, key=self.order.index)


class Script:
    """Follow recorded choices, then default; remembers the alternatives for DFS."""

    def __init__(self, prefix, bound):
        self.prefix, self.bound = prefix, bound
        self.log = []  # (chosen, alternatives, preemptions so far)
        self.pre = 0
        self.points = 0

    def choose(self, ready, cur):
        ready = sorted(ready)
        opts = []
        for r in ([cur] if cur in ready else []) + [r for r in ready if r != cur]:
            cost = 1 if (cur in ready and r != cur) else 0
            if self.pre + cost <= self.bound:
                opts.append((r, cost))
        k = len(self.log)
        if k < len(self.prefix):
            r = self.prefix[k]
            cost = dict(opts).get(r, 0)
        else:
            r, cost = opts[0]
        self.pre += cost
        self.log.append((r, [o for o, _ in opts]))
        self.points += len(opts) > 1
        return r


class Run:
    def __init__(self):
        self.results = {}
        self.error = None
        self.steps = 0
        self.msgs = 0
        self.trace = []
        self.log = []


_RED = {"SUM": lambda a, b: a + b, "MAX": torch.maximum, "MIN": torch.minimum, "PRODUCT": lambda a, b: a * b}


def run(fn, world, sched, delivery="eager", capture="early", timeout=120.0):
    """Execute fn(rank) on every rank under the given schedule; returns a Run."""
    res = Run()
    ch = []
    for r in range(world):
        a, b = os.pipe()  # coordinator -> child
        c, d = os.pipe()  # child -> coordinator
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                for x in ch:
                    os.close(x["w"])
                    os.close(x["r"])
                global CTX
                CTX = Ctx(r, world, a, d, delivery, capture)
                CTX._reply()  # wait for the baton
                try:
                    out = ("end", fn(r), {c_: [_enc(t) for t in ts] for c_, ts in CTX.uncaptured.items()})
                except BaseException as e:
                    out = ("err", type(e).__name__, str(e)[:600], traceback.format_exc(limit=-5)[-1200:])
                _send(d, out)
            except BaseException:
                pass
            os._exit(0)
        os.close(a)
        os.close(d)
        ch.append({"pid": pid, "w": b, "r": c, "st": "ready", "wait": None, "ops": {}, "inbox": [], "seq": {}})
    try:
        _coordinate(ch, world, sched, delivery, res, timeout)
    finally:
        for x in ch:
            try:
                os.kill(x["pid"], 9)
            except ProcessLookupError:
                pass
            os.close(x["w"])
            os.close(x["r"])
            os.waitpid(x["pid"], 0)
    return res


def _coordinate(ch, world, sched, delivery, res, timeout):
    colls = {}  # (gname, seq) -> {rank: op}
    chan = {}  # (gname, src, dst) -> [sends, recvs]
    cur = None

    def complete(rank, cid, data):
        o = ch[rank]["ops"][cid]
        o["done"] = True
        if res.log:
            res.log[-1]["completes"].append((rank, cid, ch[rank]["wait"] == cid, bool(data)))
        ch[rank]["inbox"].append((cid, data))
        if ch[rank]["wait"] == cid:
            ch[rank]["wait"] = None
            ch[rank]["st"] = "ready"

    def progress():
        for key, (ss, rs) in chan.items():
            while ss and rs and ss[0]["data"] is not None:
                s, r = ss.pop(0), rs.pop(0)
                if s["data"][0][0] != r["shapes"]["out"][0][1] or math.prod(s["data"][0][1]) != math.prod(r["shapes"]["out"][0][0]):
                    raise SimError(f"p2p mismatch on {key}: sent {s['data'][0][:2]} received as {r['shapes']['out'][0]}")
                res.msgs += 1
                complete(s["rank"], s["cid"], [])
                complete(r["rank"], r["cid"], s["data"])
        for key in list(colls):
            d = colls[key]
            ops = list(d.values())
            kinds = {(o["kind"], o["meta"]) for o in ops}
            if len(kinds) > 1:
                raise SimError(f"collective mismatch on {key}: {sorted(map(str, kinds))}")
            ranks = ops[0]["ranks"]
            if len(d) == len(ranks) and all(o["data"] is not None for o in ops):
                del colls[key]
                res.msgs += 1
                outs = collective(ops[0]["kind"], ops[0]["meta"], ranks, d)
                for r in ranks:
                    complete(r, d[r]["cid"], outs[r])

    while True:
        ready = [r for r in range(world) if ch[r]["st"] == "ready"]
        if not ready:
            if all(x["st"] == "end" for x in ch):
                break
            # nobody can move: read the send buffers that are still in flight
            got = False
            for r in range(world):
                if ch[r]["st"] == "blocked" and any(o["data"] is None and o["kind"] != "recv" for o in ch[r]["ops"].values() if not o["done"]):
                    _send(ch[r]["w"], ("flush",))
                    m = _take(ch[r], timeout)
                    for c, dta in m[1].items():
                        ch[r]["ops"][c]["data"] = dta
                        got = True
            if got:
                progress()
                continue
            stuck = {r: (ch[r]["ops"][ch[r]["wait"]]["kind"], ch[r]["ops"][ch[r]["wait"]]["g"]) if ch[r]["wait"] is not None else ch[r]["st"] for r in range(world)}
            raise SimError(f"deadlock: {stuck}")
        cur = sched.choose(ready, cur)
        x = ch[cur]
        res.steps += 1
        # took: operations whose data is visible to the rank during this step; completes: filled in while the step's calls are matched
        step = {"rank": cur, "ready": list(ready), "posted": [], "completes": [], "took": []}
        res.log.append(step)
        box = x["inbox"]
        if delivery == "lazy":
            # only what the rank explicitly waited for
            w = x.pop("justwaited", None)
            give = [b for b in box if b[0] == w]
            x["inbox"] = [b for b in box if b[0] != w]
        else:
            give = box
            x["inbox"] = []
        step["took"] = [b[0] for b in give]
        _send(x["w"], ("go", give))
        m = _take(x, timeout)
        for cid, kind, gname, ranks, meta, shapes, data in m[1] if m[0] == "post" else ():
            o = {"rank": cur, "cid": cid, "kind": kind, "g": gname, "ranks": ranks, "meta": meta, "shapes": shapes, "data": data, "done": False}
            x["ops"][cid] = o
            step["posted"].append(cid)
            res.trace.append((cur, kind, gname, tuple(s for s, _ in shapes["in"])))
            if kind in ("send", "recv"):
                peer = meta[0]
                if peer not in ranks or peer == cur:
                    raise SimError(f"{kind} with rank {peer} outside {ranks} (or self)")
                k = (gname, cur, peer) if kind == "send" else (gname, peer, cur)
                chan.setdefault(k, ([], []))[0 if kind == "send" else 1].append(o)
            else:
                if not shapes["in"] and kind == "barrier":
                    o["data"] = []
                s = x["seq"].get(gname, 0)
                x["seq"][gname] = s + 1
                colls.setdefault((gname, s), {})[cur] = o
        if m[0] == "post":
            if m[2]:  # blocking call
                cid = m[1][0][0]
                x["justwaited"], x["st"], x["wait"] = cid, "blocked", cid
            progress()
        elif m[0] == "wait":
            _, cid, own = m
            for c, dta in own.items():
                x["ops"][c]["data"] = dta
            x["justwaited"] = cid
            if x["ops"][cid]["done"]:
                pass
            else:
                x["st"], x["wait"] = "blocked", cid
            progress()
        elif m[0] == "end":
            x["st"] = "end"
            res.results[cur] = m[1]
            for c, dta in m[2].items():
                x["ops"][c]["data"] = dta
            progress()
        elif m[0] == "err":
            raise SimError(f"rank {cur} raised {m[1]}: {m[2]}\n{m[3]}")
    left = [k for k, (a, b) in chan.items() if a or b]
    if left or colls:
        raise SimError(f"operations never completed: p2p {left} collectives {[(k, sorted(d)) for k, d in colls.items()]}")


def _take(x, timeout):
    r, _, _ = select.select([x["r"]], [], [], timeout)
    if not r:
        raise SimError("rank does not answer (hang)")
    try:
        return _recv(x["r"])
    except EOFError:
        raise SimError("rank process died")


def collective(kind, meta, ranks, d):
    n = len(ranks)
    if kind == "all_reduce":
        ts = [_dec(d[r]["data"][0]) for r in ranks]
        if len({(t.shape, t.dtype) for t in ts}) > 1:
            raise SimError(f"all_reduce of different shapes {[tuple(t.shape) for t in ts]}")
        out = _enc(_reduce(meta[0], ts))
        return {r: [out] for r in ranks}
    if kind == "all_gather":
        ins = [d[r]["data"][0] for r in ranks]
        return {r: ins for r in ranks}
    if kind == "all_gather_into":
        ts = [_dec(d[r]["data"][0]) for r in ranks]
        if len({t.shape for t in ts}) > 1:
            raise SimError("all_gather_into_tensor of different shapes")
        out = _enc(torch.cat([t.reshape(-1) for t in ts]))
        return {r: [out] for r in ranks}
    if kind == "all_to_all":
        for r in ranks:
            if len(d[r]["data"]) != n or len(d[r]["shapes"]["out"]) != n:
                raise SimError("all_to_all list length differs from group size")
        return {r: [d[s]["data"][j] for s in ranks] for j, r in enumerate(ranks)}
    if kind == "reduce_scatter":
        for r in ranks:
            if len(d[r]["data"]) != n:
                raise SimError("reduce_scatter list length differs from group size")
        if len({math.prod(e[1]) for r in ranks for e in d[r]["data"]} | {math.prod(d[r]["shapes"]["out"][0][0]) for r in ranks}) > 1:
            raise SimError("reduce_scatter needs equally sized chunks")
        return {r: [_enc(_reduce(meta[0], [_dec(d[s]["data"][j]).reshape(-1) for s in ranks]))] for j, r in enumerate(ranks)}
    if kind == "broadcast":
        return {r: [d[meta[0]]["data"][0]] for r in ranks}
    if kind == "reduce":
        out = _enc(_reduce(meta[1], [_dec(d[r]["data"][0]) for r in ranks]))
        return {r: [out] if r == meta[0] else [] for r in ranks}
    if kind == "gather":
        return {r: [d[s]["data"][0] for s in ranks] if r == meta[0] else [] for r in ranks}
    if kind == "scatter":
        if len(d[meta[0]]["data"]) != n:
            raise SimError("scatter list length differs from group size")
        return {r: [d[meta[0]]["data"][j]] for j, r in enumerate(ranks)}
    if kind == "barrier":
        return {r: [] for r in ranks}
    raise SimError(f"unmodelled collective {kind}")


def _reduce(op, ts):
    if op == "AVG":
        return _reduce("SUM", ts) / len(ts)
    out = ts[0].clone()
    for t in ts[1:]:
        out = _RED[op](out, t)
    return out


# ----------------------------------------------------------------------------- meshes
def mesh(P, A, layout, none_polar=False, none_azimuth=False):
    """groups of every rank on a P x A process grid; layout: 'rows' (azimuth contiguous), 'cols', 'rev'."""
    world = P * A
    pos = {}
    for p in range(P):
        for a in range(A):
            r = {"rows": p * A + a, "cols": a * P + p, "rev": world - 1 - (p * A + a)}[layout]
            pos[r] = (p, a)
    inv = {v: k for k, v in pos.items()}
    polar = {r: None if none_polar else Group(f"polar{pos[r][1]}", [inv[(p, pos[r][1])] for p in range(P)]) for r in pos}
    azim = {r: None if none_azimuth else Group(f"azimuth{pos[r][0]}", [inv[(pos[r][0], a)] for a in range(A)]) for r in pos}
    return pos, inv, polar, azim


def split(n, k):
    """balanced split sizes, the documented rule"""
    b, r = divmod(n, k)
    return [b + 1] * r + [b] * (k - r)


def bounds(n, k, i):
    s = split(n, k)
    return sum(s[:i]), sum(s[: i + 1])


def shard(t, dim, k, i):
    lo, hi = bounds(t.shape[dim], k, i)
    return t.narrow(dim, lo, hi - lo).contiguous()
