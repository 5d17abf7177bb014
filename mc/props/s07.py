"""All interleavings of writes, overlapping flushes, refused syncs and
cancellations around the awaited storage commits of the web store, on the real
coroutines under a real event loop whose every suspension the explorer owns."""

import asyncio

from ..lib import boot, explore_jobs, pick, run
from ..webstore import decode, mod

boot()

STORES = ["a.", "b."]


class Refused(Exception):
    pass


class Handle:
    """storage handle whose sync takes its copy either when called or when it
    commits, and commits only when the explorer says so"""

    def __init__(self, world, ns):
        self.world, self.ns = world, ns
        self._local = {}

    def get(self, key, default=None):
        return self._local.get(key, default)

    def __setitem__(self, key, value):
        self._local[key] = value

    async def sync(self):
        w = self.world
        snap = dict(self._local)
        fut = asyncio.get_running_loop().create_future()
        entry = (self, fut)
        w.pending.append(entry)
        try:
            how = await fut
        finally:
            if entry in w.pending:
                w.pending.remove(entry)
        if w.late:
            snap = dict(self._local)
        if how in ("ok", "late"):
            w.persist(self.ns, snap)
        if how in ("no", "late"):
            raise Refused()


class World:
    def __init__(self, late, stores):
        self.late = late
        self.pending = []
        self.disk = {}
        self.ver = {s: 0 for s in stores}          # version now in memory
        self.diskver = {s: 0 for s in stores}      # version persisted
        self.handles = {}
        self.back = []

    async def opener(self, ns):
        h = self.handles[ns] = Handle(self, ns)
        return h

    def persist(self, ns, snap):
        self.disk[ns] = snap
        store = ns[2:]
        if store in self.diskver:
            v = dict(decode(snap)).get(b"k")
            v = int(v) if v else 0
            if v < self.diskver[store]:
                self.back.append((store, self.diskver[store], v))
            self.diskver[store] = v


async def settle():
    for _ in range(12):
        await asyncio.sleep(0)


async def replay(choices, cfg):
    """run one schedule; returns (label trail, enabled actions at the end, fault)"""
    late, flushes, writes, cancels, faults, nstores = cfg
    stores = STORES[:nstores]
    w = World(late, stores)
    dber = await mod().WebDBer.open(name="w", stores=stores, storageOpener=w.opener)
    dbs = {s: dber.env.open_db(s) for s in stores}
    tasks, need, done = [], [], []
    trail = []
    left = {s: writes for s in stores}
    ncancel, nfault = cancels, faults

    def check_flush(i):
        t = tasks[i]
        if not t.done() or done[i]:
            return None
        done[i] = True
        if t.cancelled():
            return None
        ex = t.exception()
        if ex is not None:
            if isinstance(ex, Refused):
                return None
            return f"flush {i} raised {ex!r}"
        for s in stores:
            if w.diskver[s] < need[i][s]:
                return (f"flush {i} completed although storage holds version "
                        f"{w.diskver[s]} of {s} and version {need[i][s]} was written before "
                        f"that flush was called")
        return None

    def enabled():
        out = []
        if len(tasks) < flushes:
            out.append(("flush",))
        for s in stores:
            if left[s]:
                out.append(("write", s))
        for i, t in enumerate(tasks):
            if not t.done() and ncancel:
                out.append(("cancel", i))
        for j in range(len(w.pending)):
            out.append(("commit", j))
            if nfault:
                out.append(("refuse", j))
                out.append(("refuse-late", j))
        return out

    fault = None
    for c in choices:
        acts = enabled()
        a = acts[c]
        trail.append(a)
        if a[0] == "flush":
            need.append(dict(w.ver))
            done.append(False)
            tasks.append(asyncio.ensure_future(dber.flush()))
        elif a[0] == "write":
            s = a[1]
            left[s] -= 1
            w.ver[s] += 1
            dber.setVal(dbs[s], b"k", b"%d" % w.ver[s])
        elif a[0] == "cancel":
            ncancel -= 1
            tasks[a[1]].cancel()
        else:
            how = {"commit": "ok", "refuse": "no", "refuse-late": "late"}[a[0]]
            if how != "ok":
                nfault -= 1
            h, fut = w.pending[a[1]]
            w.pending.pop(a[1])
            if not fut.done():
                fut.set_result(how)
        await settle()
        for i in range(len(tasks)):
            fault = fault or check_flush(i)
        if w.back:
            fault = fault or f"storage went back: {w.back}"
        if fault:
            break
    acts = enabled()
    if not fault and not acts:
        # everything ended: nothing may be stuck, and one quiet flush persists all
        stuck = [i for i, t in enumerate(tasks) if not t.done()]
        if stuck:
            fault = f"flush {stuck} never ends"
        else:
            last = asyncio.ensure_future(dber.flush())
            for _ in range(8):
                await settle()
                while w.pending:
                    h, fut = w.pending.pop(0)
                    fut.set_result("ok")
            await settle()
            if not last.done():
                fault = "a quiet flush never ends"
                last.cancel()
            elif last.exception():
                fault = f"a quiet flush raised {last.exception()!r}"
            else:
                for s in stores:
                    if w.diskver[s] != w.ver[s]:
                        fault = (f"after a quiet flush storage holds version {w.diskver[s]} of "
                                 f"{s}, memory holds {w.ver[s]}")
    for t in tasks:
        if not t.done():
            t.cancel()
    await settle()
    for t in tasks:
        if t.done() and not t.cancelled():
            t.exception()
    return trail, acts, fault


def job(res, spec):
    cfg, prefix = spec
    loop = asyncio.new_event_loop()
    try:
        stack = [list(prefix)]
        while stack:
            choices = stack.pop()
            trail, acts, fault = loop.run_until_complete(replay(choices, cfg))
            res.add("transitions")
            res.add("states")
            if fault:
                res.violation(f"{cfg}:{trail}", f"schedule {trail}: {fault}",
                              dict(cfg=cfg, choices=choices))
                if res.full:
                    return
                continue
            if not acts:
                res.add("traces_validated_against_impl")
                res.add("schedules")
                res.sample({"cfg": cfg, "schedule": trail})
                continue
            for i in range(len(acts) - 1, -1, -1):
                stack.append(choices + [i])
    finally:
        loop.close()


def main(res):
    # (late copy, flushes, writes per store, cancels, faults, stores)
    both = (0, 1)
    cfgs = pick(
        [(late, 3, 2, 1, 1, 1) for late in both]
        + [(late, 2, 2, 1, 1, 1) for late in both]
        + [(late, 2, 1, 1, 0, 2) for late in both],
        [(late, 4, 2, 0, 0, 1) for late in both]
        + [(late, 3, 2, 1, 1, 1) for late in both]
        + [(late, 3, 3, 0, 1, 1) for late in both]
        + [(late, 2, 2, 1, 1, 2) for late in both])
    jobs = []
    loop = asyncio.new_event_loop()
    for cfg in cfgs:
        _, acts, _ = loop.run_until_complete(replay([], cfg))
        for i in range(len(acts)):
            _, nxt, _ = loop.run_until_complete(replay([i], cfg))
            jobs += [(cfg, [i, j]) for j in range(len(nxt))]
    loop.close()
    explore_jobs(res, job, jobs)


def check():
    return run("S07", "model_checking", main)
