"""What a completed flush acknowledged is what a new session sees: every call of
every store family, and every short history of writes, flushes that fail at any
sync, and restarts."""

import itertools
import json

from ..lib import boot, explore_jobs, pick, run
from ..webcheck import FAMILY, job as family_job
from ..webmodel import OnIoSet, Plain
from ..webstore import Backend, decode, drive, open_db

boot()

A, B = "a.", "b."


class Refused(Exception):
    pass


# (label, kind, argument)
ACTIONS = [
    ("a.putVal(k,1)", "w", (A, "putVal", dict(key=b"k", val=b"1"))),
    ("a.setVal(k,2)", "w", (A, "setVal", dict(key=b"k", val=b"2"))),
    ("a.remVal(k)", "w", (A, "remVal", dict(key=b"k"))),
    ("b.appendOnIoSetVals(K,xy)", "w", (B, "appendOnIoSetVals",
                                        dict(key=b"K", vals=[b"x", b"y"]))),
    ("b.remOnAllIoSet(K,0)", "w", (B, "remOnAllIoSet", dict(key=b"K", on=0))),
    ("version", "v", None),
    ("flush", "f", None),
    ("flush, sync 1 fails", "f", (0, "before")),
    ("flush, sync 2 fails", "f", (1, "before")),
    ("flush, sync 1 fails late", "f", (0, "after")),
    ("flush, sync 2 fails late", "f", (1, "after")),
    ("restart", "r", None),
]


class World:
    def __init__(self):
        self.backend = Backend()
        self.model = {A: Plain(), B: OnIoSet()}     # live content
        self.version = None
        # per store: the set of images that storage may legitimately hold now
        self.disk = {A: [[]], B: [[]], "v": [None]}
        self.vers = 0
        self.start()

    def start(self):
        self.dber = open_db(self.backend, [A, B])
        self.dbs = {s: self.dber.env.open_db(s) for s in (A, B)}

    def image(self):
        per = self.backend.persisted
        out = {s: decode(per.get(f"w:{s}")) for s in (A, B)}
        v = dict(decode(per.get("w:__meta__"))).get(b"__version__")
        out["v"] = v.decode() if v is not None else None
        return out

    def live(self):
        return {A: self.model[A].dump(), B: self.model[B].dump(), "v": self.version}


class Fail(Exception):
    pass


def act(w, label, kind, arg):
    if kind == "w":
        store, name, kwa = arg
        want = getattr(w.model[store], name)(**kwa)
        got = getattr(w.dber, name)(w.dbs[store], **kwa)
        if got != want:
            raise Fail(f"{label} answered {got!r} instead of {want!r}")
    elif kind == "v":
        w.vers += 1
        w.version = f"{w.vers}.0.0"
        w.dber.version = w.version
    elif kind == "f":
        count = [0, 0]     # syncs started, commits done

        async def gate(handle):
            n = count[0]
            count[0] += 1
            if arg is not None and n == arg[0]:
                if arg[1] == "after":
                    handle.backend.persisted[handle.namespace] = dict(handle._local)
                raise Refused()
            count[1] += 1

        w.backend.gate = gate
        try:
            n = drive(w.dber.flush())
            ok = True
        except Refused:
            ok = False
        w.backend.gate = None
        failed = arg is not None and count[0] > arg[0]
        live = w.live()
        if failed and ok:
            raise Fail(f"{label}: a refused sync was reported as a completed flush")
        if not failed and not ok:
            raise Fail(f"{label}: flush raised although every sync succeeded")
        if ok:
            if n != count[1]:
                raise Fail(f"{label}: reported {n} stores synced, {count[1]} were")
            w.disk = {s: [live[s]] for s in w.disk}
        else:
            w.disk = {s: w.disk[s] + [live[s]] for s in w.disk}
    elif kind == "r":
        w.start()
        img = w.image()
        w.model = {A: Plain(img[A]), B: OnIoSet.of(img[B])}
        w.version = img["v"]
        w.disk = {s: [img[s]] for s in w.disk}
    img = w.image()
    for s, allowed in w.disk.items():
        if img[s] not in allowed:
            raise Fail(f"after {label} storage holds {img[s]!r} for {s}; allowed {allowed!r}")
    live = w.live()
    seen = {s: list(w.dber.getTopItemIter(w.dbs[s])) for s in (A, B)}
    seen["v"] = w.dber.version
    if seen != live:
        raise Fail(f"after {label} the store shows {seen!r} instead of {live!r}")


def histories(res, first, depth):
    for tail in itertools.product(ACTIONS, repeat=depth - 1):
        seq = (first,) + tail
        # nothing new: two restarts in a row
        if any(a[1] == "r" == b[1] for a, b in zip(seq, seq[1:])):
            continue
        w = World()
        hist = []
        try:
            for a in seq:
                hist.append(a[0])
                res.add("transitions")
                act(w, *a)
            res.add("transitions", 2)
            act(w, "closing flush", "f", None)
            act(w, "closing restart", "r", None)
        except Fail as ex:
            res.violation(" > ".join(hist), str(ex), dict(history=hist))
            if res.full:
                return
        res.add("states")
        res.add("traces_validated_against_impl")
        res.add("histories")
    res.sample({"history": hist})


def job(res, spec):
    if spec[0] == "flush":
        family_job(res, spec)
    else:
        histories(res, ACTIONS[spec[1]], spec[2])


def main(res):
    n = pick(2, 8)
    jobs = [("flush", fam, (i, n)) for fam in FAMILY for i in range(n)]
    jobs += [("hist", i, pick(4, 5)) for i in range(len(ACTIONS))]
    explore_jobs(res, job, jobs)


def check():
    return run("S06", "model_checking", main)
