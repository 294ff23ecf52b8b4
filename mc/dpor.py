"""Dynamic partial-order reduction over the steps of a simulated distributed run.

Ranks share no memory, so steps of different ranks commute unless one of them completes an asynchronous operation of
the other: then the order decides at which of its calls the other rank sees the data.  (A blocked rank that waits for
that very operation is ordered after it: no race.)  With lazy delivery data is seen at the wait only and nothing races.
"""


class Replay:
    def __init__(self, path, order):
        self.path, self.order, self.k, self.points = path, order, 0, 0

    def choose(self, ready, cur):
        k = self.k
        self.k += 1
        self.points += len(ready) > 1
        if k < len(self.path):
            assert self.path[k] in ready, "schedule is not replayable"
            return self.path[k]
        return cur if cur in ready else min(ready, key=self.order.index)


def races(log, eager):
    """pairs (i, rank to run at i) whose order can be reversed"""
    n = len(log)
    posted_at = {}
    for k, s in enumerate(log):
        for c in s["posted"]:
            posted_at[(s["rank"], c)] = k
    hb = [None] * n  # hb[j] = set of steps that happen before j, as per-rank latest index
    last = {}
    waitorder = {}
    out = []
    for j, s in enumerate(log):
        r = s["rank"]
        prev = last.get(r)
        clock = dict(hb[prev]) if prev is not None else {}
        if prev is not None:
            clock[r] = prev
        base = dict(clock)
        # enabling: the step that completed what this rank was blocked on
        for i in waitorder.pop(r, []):
            merge(clock, hb[i], i, log[i]["rank"])
        base2 = dict(clock)
        if eager:
            for i in range(j - 1, -1, -1):
                t = log[i]
                q = t["rank"]
                if q == r:
                    continue
                # i completed something for r that r takes at j, while r could also have run first
                c1 = any(rr == r and cid in s["took"] and data and not blk for rr, cid, blk, data in t["completes"])
                # j completes something q had posted before its step i
                c2 = any(data and rr == q and posted_at.get((q, cid), n) < i and cid not in seen_before(log, q, i) for rr, cid, blk, data in s["completes"])
                if c1 or c2:
                    if base2.get(q, -1) < i:
                        out.append((i, r))
                    merge(clock, hb[i], i, q)
        hb[j] = clock
        last[r] = j
        for rr, cid, blk, data in s["completes"]:
            if blk:
                waitorder.setdefault(rr, []).append(j)
    return out


def seen_before(log, q, i):
    return {c for s in log[:i] if s["rank"] == q for c in s["took"]}


def merge(clock, other, i, q):
    for k, v in other.items():
        if v > clock.get(k, -1):
            clock[k] = v
    if i > clock.get(q, -1):
        clock[q] = i


def explore(run, eager, world, bound, bases=None):
    """every schedule obtained from the base schedules (each rank first once) by reversing at most `bound` racing steps
    (bases: only from the first so many base schedules; the others are executed as they are)

    run(scheduler) -> Run or None (stop); yields every Run.
    """
    seen = set()
    for first in range(world):
        order = list(range(first, world)) + list(range(first))
        todo = [([], 0)]
        while todo:
            path, dev = todo.pop(0)
            s = Replay(path, order)
            r = run(s)
            yield r
            if r is None:
                return
            key = tuple((x["rank"], tuple(x["took"])) for x in r.log)
            if key in seen:
                continue
            seen.add(key)
            if dev >= bound or (bases is not None and first >= bases):
                continue
            for i, q in sorted(set(races(r.log, eager))):
                if i < len(path):
                    continue
                for c in [q] if q in r.log[i]["ready"] else [x for x in r.log[i]["ready"] if x != r.log[i]["rank"]]:
                    todo.append(([x["rank"] for x in r.log[:i]] + [c], dev + 1))
