"""What waits in escrow is used when what it needs comes within its time, and is dropped once the time is over.
The messages of every scenario are cut into batches that arrive at different times; the result must be that of the
same history without a clock in which what has waited too long was taken out of escrow by hand."""

import itertools
import re

from ..kel import Clock, World
from ..lib import TIER, Violation, explore_jobs, run
from . import k02

DAY = 86400
TABLES = {b"ooes.": "TimeoutOOE", b"pses.": "TimeoutPSE", b"pwes.": "TimeoutPWE", b"pdes.": "TimeoutPWE",
          b"ldes.": "TimeoutLDE", b"uwes.": "TimeoutUWE", b"ures.": "TimeoutURE", b"vres.": "TimeoutVRE"}
RECEIPTS = b"uwes.", b"ures.", b"vres."
NAMES = {**k02.SCENES, **k02.BIG}


def said(msg):
    return re.search(rb'"d":"([^"]{44})"', msg).group(1)


def entries(w):
    """what waits, by table"""
    out = set()
    for n in TABLES:
        for k, v in w.db.env._disk.dbs.get(n, {}).items():
            out |= {(n, bytes(k), bytes(x)) for x in (v if isinstance(v, list) else [v])}
    return out


def remove(w, gone):
    """takes entries out of escrow by hand"""
    dbs = dict(w.db.env._disk.dbs)
    for n in {n for n, _, _ in gone}:
        t = dbs[n]
        new = type(t)()
        for k, v in t.items():
            if isinstance(v, list):
                left = [x for x in v if (n, bytes(k), bytes(x)) not in gone]
                if left:
                    new[k] = left
            elif (n, bytes(k), bytes(v)) not in gone:
                new[k] = v
        dbs[n] = new
    w.db.env._disk.dbs = dbs


def cuts(n):
    """ways to cut n messages into batches"""
    idx = range(n)
    many = n <= (4 if TIER == "quick" else 8)
    for r in range(1, n):
        if not many and r > 2 and n - r > 1 + (TIER != "quick"):
            continue
        for h in itertools.combinations(idx, r):
            a = [i for i in idx if i not in h]
            yield a, list(h)
            if r > 1:
                yield a, list(reversed(h))
    for a, b in itertools.permutations(idx, 2):
        rest = [i for i in idx if i not in (a, b)]
        if rest:
            yield [a], [b], rest
            yield [a], rest, [b]


def waits(w, three):
    ts = sorted({getattr(w.kvy, t) for t in TABLES.values()})
    if three:
        return [(ts[0] - 1, 2), (ts[0] - 1, ts[-1] - ts[0]), (ts[0] // 2, ts[0] + 7), (ts[-1] - 1, 3), (ts[-1] + 1, 1), (1, DAY + 5)]
    return [(x,) for x in [1] + [t + d for t in ts for d in (-1, 1)] + [DAY + 5, DAY + ts[0] - 1, 400 * DAY + 5]]


def history(w, m, batches, times, clock):
    """with a clock: everything arrives, escrows are passed before and after each batch"""
    t0 = clock.now
    try:
        for b, dt in zip(batches, (0,) + times):
            import datetime
            clock.now = clock.now + datetime.timedelta(seconds=dt)
            w.escrows()
            for i in b:
                k02.deliver(w, m.list[i])
            w.escrows()
        return k02.outcome(w, m)
    finally:
        clock.now = t0


def reference(w, m, batches, times):
    """without one: what waited too long is taken out.  None where a copy comes of something that had its time"""
    saids = [said(x[1]) for x in m.list]
    own, since = {}, {}  # what waits -> the event it is about, since when
    came = {}            # event -> when it came first
    now = 0
    over = set()
    for b, dt in zip(batches, (0,) + times):
        now += dt
        gone = {e for e in own if now - since[e] > getattr(w.kvy, TABLES[e[0]])}
        remove(w, gone)
        over |= {own[e] for e in gone}
        if any(saids[i] in over for i in b):
            return None, over
        for i in b:
            if not m.list[i][0].startswith("rct"):
                came.setdefault(saids[i], now)
            k02.deliver(w, m.list[i])
        w.escrows()
        own = {e: min((e[2].find(x), x) for x in saids if x in e[2])[1] for e in entries(w)}
        # events wait from when they came first, receipts each from when it came
        since = {e: since.get(e, now) if e[0] in RECEIPTS else came[own[e]] for e in own}
    return k02.outcome(w, m), over


def job(res, spec):
    name, part, parts = spec
    clock = Clock().install()
    m = NAMES[name]()
    m.loose = False
    w = World()
    try:
        empty = w.save()
        for n, batches in enumerate(cuts(len(m.list))):
            if n % parts != part:
                continue
            for times in waits(w, len(batches) > 2):
                w.restore(empty)
                want, over = reference(w, m, batches, times)
                if want is None:
                    continue
                w.restore(empty)
                got = history(w, m, batches, times, clock)
                res.add("states")
                res.add("transitions", len(m.list))
                if got != want:
                    show = [[m.list[i][0] for i in b] for b in batches]
                    res.violation(f"{name}:{show}:{times}", f"scenario {name}: {show} arrive, {times} s between: differs from "
                                  f"what the time allows in {k02.diff(want, got)}", dict(batches=show, times=times, got=got, want=want))
                if res.full:
                    return
    finally:
        w.close()


def main(res):
    jobs = []
    for name, mk in NAMES.items():
        parts = 8 if len(mk().list) > 5 else 2
        jobs += [(name, p, parts) for p in range(parts)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["states"]


def check():
    return run("K14", "model_checking", main)
