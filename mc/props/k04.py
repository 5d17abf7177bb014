"""A validator that dies at any moment and starts again loses nothing it cannot get back, and never
ends up with a log it would not have accepted.  Every commit of every run is a crash point."""

import itertools

from ..kel import Clock, World, receive
from ..lib import TIER, Violation, explore_jobs, run
from . import k02, k03


def whole(w, m):
    for x in m.list:
        receive(w, x[1])
        w.escrows()


def sound(w, pres, show, key):
    """logs and key state agree with each other"""
    db = w.db
    for p in pres:
        fel = list(db.fels.getAllIter(keys=p))
        if len(set(fel)) != len(fel):
            raise Violation(key, f"{show}: the first seen log {fel} lists an event twice")
        st = w.state(p)
        if (st is None) != (not fel):
            raise Violation(key, f"{show}: first seen log {fel} but key state {st}")
        if st and fel[-1] != st["d"]:
            raise Violation(key, f"{show}: the last event first seen is {fel[-1]} but key state is of {st['d']}")
        if st and db.kels.getLast(keys=p, on=st["sn"]) != st["d"]:
            raise Violation(key, f"{show}: the log's event at {st['sn']} is not that of the key state {st['d']}")


# ------------------------------------------------------------ one history, cut anywhere
def resume(res, spec):
    name, first, of = spec
    Clock().install()
    m = {**k02.SCENES, **k02.BIG}[name]()
    w = World()
    try:
        empty = w.save()
        for x in m.list:
            receive(w, x[1])
            w.escrows()
        want = k02.outcome(w, m)
        w.restore(empty)
        # crash points: in the delivery of message i or the escrow processing after it
        for i, (nm, msg) in enumerate(m.list):
            start = w.save()
            for part in ("delivery", "escrows"):
                base = w.save()
                at = 0
                while True:
                    w.restore(base)
                    act = (lambda: receive(w, msg)) if part == "delivery" else w.kvy.processEscrows
                    if not w.dies(at, act):
                        break
                    res.add("crash_points")
                    if i % of == first:
                        dead = w.save()
                        for how in ("again", "rest", "escrows", "died twice"):
                            w.restore(dead)
                            w.reboot()
                            again(res, w, m, i, how, want, f"{name}:{nm}:{part}:{at}:{how}",
                                  f"scenario {name}, process died before commit {at} of {part} of {nm}, then {how}")
                            if res.full:
                                return
                    at += 1
                if part == "escrows":
                    w.escrows()
            assert w.save() != start
    finally:
        w.close()


def again(res, w, m, i, how, want, key, show):
    res.add("states")
    if how == "escrows":
        w.escrows()
    if how == "died twice":
        w.dies(2, lambda: receive(w, m.list[i][1]))
        w.reboot()
    if how != "rest":
        for x in m.list:
            receive(w, x[1])
            res.add("transitions")
        w.escrows()
    else:
        for x in m.list[i:]:
            receive(w, x[1])
            res.add("transitions")
        for x in m.list:
            receive(w, x[1])
            w.escrows()
    sound(w, m.pres, show, key)
    got = k02.outcome(w, m)
    if got != want:
        raise Violation(key, f"{show}: after redelivery the outcome differs from that of the undisturbed run in "
                        f"{k02.diff(want, got)}", dict(got=got, want=want))


# ------------------------------------------------------------ conflicting histories, cut anywhere
def conflict(res, spec):
    name, lead = spec
    Clock().install()
    p = k03.POOLS[name]()
    w = World()
    try:
        for i in lead[:-1]:
            receive(w, p.list[i][1])
            w.escrows()
        base = w.save()
        last = p.list[lead[-1]]
        at = 0
        while True:
            w.restore(base)
            if not w.dies(at, lambda: receive(w, last[1])):
                break
            res.add("crash_points")
            dead = w.save()
            for j, (nm, msg) in enumerate(p.list):
                w.restore(dead)
                w.reboot()
                before = k03.fels(w, p)
                receive(w, msg)
                mid = w.save()
                for follow in (None, lead[-1]):
                    w.restore(mid)
                    if follow is not None:
                        receive(w, p.list[follow][1])
                    w.escrows()
                    res.add("states")
                    res.add("transitions")
                    path = [p.list[k][0] for k in lead] + [f"died before commit {at}", nm] + \
                        ([p.list[follow][0]] if follow is not None else [])
                    for x in p.pres:
                        fel = list(w.db.fels.getAllIter(keys=x))
                        st = k03.replay(p, fel, name, path) if w.state(x) else None
                        if (st.seen() if st else None) != w.state(x):
                            # the cut event may sit in the log, not yet acknowledged, until something follows it
                            if not (fel and w.state(x) == (k03.replay(p, fel[:-1], name, path) or Nothing).seen()):
                                raise Violation(f"{name}:{path}", f"pool {name}, history {path}: key state "
                                                f"{w.state(x)} is not what the accepted events {fel} give")
            at += 1
    finally:
        w.close()


class Nothing:
    @staticmethod
    def seen():
        return None


def both(res, spec):
    {"resume": resume, "conflict": conflict}[spec[0]](res, spec[1:])


def main(res):
    jobs = []
    names = k02.SCENES if TIER == "quick" else {**k02.SCENES, **k02.BIG}
    for name in names:
        n = len(names[name]().list)
        jobs += [("resume", name, i, n) for i in range(n)]
    for name, mk in k03.POOLS.items():
        n = len(mk().list)
        for r in ((1, 2) if TIER == "quick" else (1, 2, 3)):
            jobs += [("conflict", name, lead) for lead in itertools.permutations(range(n), r)]
    explore_jobs(res, both, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["states"]


def check():
    return run("K04", "model_checking", main)
