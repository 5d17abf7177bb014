"""Cleaning a database keeps everything that verifies, removes what does not, and can be repeated after
dying at any moment.  The real Baser.clean is run on every reachable database of several pools."""

import os
import shutil
import types

from ..kel import Clock, World, Died, S, cig, coring, eventing, icp, sigs, wit, key
from ..lib import TIER, Violation, explore_jobs, pick, run
from . import k02, k03, k05, k06
from keri import kering
from keri.core import serdering
from keri.db import basing
import kshim
import lmdb

MARK = "mcclean"


class Files:
    """stand-in for shutil inside the module under test: acts only below the scratch directory, and can die"""

    def __init__(self):
        self.left = None
        self.calls = 0

    def step(self, *paths):
        for p in paths:
            if f"/{MARK}" not in os.path.realpath(p):
                raise AssertionError(f"outside scratch: {p}")
        self.calls += 1
        if self.left is not None:
            if self.left == 0:
                raise Died()
            self.left -= 1

    def rmtree(self, path, *pa, **kwa):
        self.step(path)
        return shutil.rmtree(path, *pa, **kwa)

    def move(self, src, dst, *pa, **kwa):
        self.step(src, dst)
        return shutil.move(src, dst, *pa, **kwa)

    def __getattr__(self, name):
        return getattr(shutil, name)


FILES = Files()


class Store(World):
    """a persistent database in a scratch directory"""

    def __init__(self, name):
        basing.shutil = FILES
        self.head = f"/{MARK}{os.getpid()}"
        self.name = name
        self.open()

    def open(self):
        self.db = basing.Baser(name=self.name, temp=False, headDirPath=self.head, reopen=True)
        self.kvy = eventing.Kevery(db=self.db, lax=True, local=False)

    def again(self):
        """the database is opened by another process"""
        self.db.close()
        self.open()

    def fill(self, dbs):
        self.db.env._disk.dbs = dict(dbs)

    def drop(self):
        """everything away, also the clean copy"""
        env = self.db.env
        root = self.db.path.split(f"/{MARK}")[0] + f"/{MARK}{os.getpid()}"
        self.db.close()
        if env is not None:
            lmdb.disk_drop(env)
        shutil.rmtree(root, ignore_errors=True)


def see(w):
    v = k05.view(w, True)
    for p in v:
        v[p].pop("record")
    return v


def reached(source, name, lead, limit):
    """every database reachable by up to limit actions beginning with lead"""
    if source == "case":
        c = k06.CASES[name]()
        msgs, setup = [(m[0], m[1]) for m in c.list], [m[1] for m in c.setup]
    else:
        table = k03.POOLS if source == "pool" else {**k02.SCENES, **k02.BIG}
        msgs, setup = [(m[0], m[1]) for m in table[name]().list], []
    w = World()
    acts = msgs + [("escrows", None)]

    def do(a):
        if a[1] is None:
            w.kvy.processEscrows()
        else:
            k02.deliver(w, a)
    try:
        for s in setup:
            k02.deliver(w, ("", s))
        if source == "scene":
            for m in msgs:
                do(m)
                w.escrows()
                yield dict(w.db.env._disk.dbs), m[0]
            return
        for i in lead:
            do(acts[i])
        seen = {k03.ident(w)}
        todo = [(w.save(), [acts[i][0] for i in lead])]
        while todo:
            snap, path = todo.pop(0)
            yield snap[0], path
            if len(path) == limit:
                continue
            for a in acts:
                w.restore(snap)
                do(a)
                k = k03.ident(w)
                if k not in seen:
                    seen.add(k)
                    todo.append((w.save(), path + [a[0]]))
    finally:
        w.close()


def approved(want, w):
    """superseded approvals can no longer bring in what they approved"""
    for p, v in want.items():
        if v["state"]["di"]:
            for d in v["fel"]:
                if v[d]["aes"]:
                    dp = v["state"]["di"]
                    if v[d]["aes"][1] not in {w.db.kels.getLast(keys=dp, on=n) for n in
                                              range(want[dp]["state"]["sn"] + 1)}:
                        return False
    return True


def whole(res, spec):
    source, name, lead, limit = spec
    Clock().install()
    s = Store("all")
    try:
        for dbs, path in reached(source, name, lead, limit):
            s.drop()
            s.open()
            s.fill(dbs)
            s.again()
            want = see(s)
            if not approved(want, s):
                continue
            res.add("states")
            res.add("transitions")
            s.db.clean()
            live = {p: s.state(p) for p in sorted(dict.keys(s.db.kevers))}
            s.db.reopen(reuse=True)
            got = see(s)
            show = f"{name}, history {path}"
            if got != want:
                raise Violation(f"{name}:{path}", f"{show}: cleaning changes {k05.diffs(want, got)}")
            if live != {p: v["state"] for p, v in want.items()}:
                raise Violation(f"{name}:{path}:live", f"{show}: after cleaning the key states in memory are {live}, "
                                f"must be {want}")
    finally:
        s.drop()


# ------------------------------------------------------------ corrupted content
def corrupt(res, spec):
    """one event loses what makes it valid: the log ends before it, other logs stay"""
    name, how = spec
    Clock().install()
    m = {**k02.SCENES, **k02.BIG}[name]()
    w, s = World(), Store("bad")
    try:
        for x in m.list:
            k02.deliver(w, x)
            w.escrows()
        full, good = w.save(), k05.view(w, True)
        for p in good:
            for n, d in enumerate(good[p]["fel"]):
                w.restore(full)
                kk = (p, d)
                if how == "unsigned":
                    w.db.sigs.rem(keys=kk)
                elif how == "forged":
                    ss = w.db.sigs.get(keys=kk)
                    e = w.db.evts.get(keys=kk)
                    w.db.sigs.pin(keys=kk, vals=[S(30).sign(e.raw, index=x.index) for x in ss])
                elif how == "unwitnessed":
                    if not good[p][d]["wigs"]:
                        continue
                    w.db.wigs.rem(keys=kk)
                elif how == "missing":
                    w.db.evts.rem(keys=kk)
                s.drop()
                s.open()
                s.fill(w.db.env._disk.dbs)
                s.db.close()
                s.db.reopen(reuse=True)
                res.add("states")
                res.add("transitions")
                s.db.clean()
                s.db.reopen(reuse=True)
                got = {q: list(s.db.fels.getAllIter(keys=q)) for q in good}
                want = {q: list(v["fel"]) for q, v in good.items()}
                want[p] = want[p][:n]
                gone = {(p, x) for x in good[p]["fel"][n:]}
                more = True
                while more:                   # what a removed event approved goes too
                    more = False
                    for q, v in good.items():
                        for i, x in enumerate(want[q]):
                            if v[x]["aes"] and (v["state"]["di"], v[x]["aes"][1]) in gone:
                                gone |= {(q, y) for y in want[q][i:]}
                                want[q] = want[q][:i]
                                more = True
                                break
                show = f"{name}, event {n} of {p[:8]} {how}"
                if got != want:
                    raise Violation(f"{name}:{how}:{p}:{n}", f"{show}: after cleaning the logs are {got}, must be {want}")
                for q in good:
                    st = s.state(q)
                    if (st and st["d"]) != (s.db.kels.getLast(keys=q, on=st["sn"]) if st else None) \
                            or bool(st) != bool(want[q]):
                        raise Violation(f"{name}:{how}:{p}:{n}:state", f"{show}: after cleaning key state of "
                                        f"{q[:8]} is {st}, its log {want[q]}")
    finally:
        w.close()
        s.drop()


# ------------------------------------------------------------ dying
def dying(res, spec):
    name = spec
    Clock().install()
    m = {**k02.SCENES, **k02.BIG}[name]()
    w, s = World(), Store("die")
    try:
        for x in m.list:
            k02.deliver(w, x)
            w.escrows()
        dbs = w.save()[0]
        want = see(w)

        def fresh():
            s.drop()
            s.open()
            s.fill(dbs)
            s.again()
        fresh()
        lmdb.CONTROL.commits = 0
        FILES.calls = 0
        s.db.clean()
        commits, steps = lmdb.CONTROL.commits, FILES.calls
        stride = pick(3, 1)
        points = [("commit", i) for i in range(0, commits, stride)] + [("file", i) for i in range(steps + 1)]
        for kind, at in points:
            fresh()
            left = [at]

            def before(env, txn):
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
            died = False
            try:
                if kind == "commit":
                    lmdb.CONTROL.before_commit = before
                else:
                    FILES.left = at
                s.db.clean()
            except Died:
                died = True
            finally:
                lmdb.CONTROL.before_commit = None
                FILES.left = None
            res.add("states")
            show = f"{name}, dying at {kind} {at}"
            s.open()
            mid = see(s)
            if mid != want and not (died and kind == "file"):
                raise Violation(f"die:{name}:{kind}:{at}", f"{show}: content lost: {k05.diffs(want, mid)}")
            s.db.clean()
            res.add("transitions")
            s.open()
            got = see(s)
            if got != want:
                raise Violation(f"die:{name}:{kind}:{at}:again", f"{show}, then cleaned again: content differs: "
                                f"{k05.diffs(want, got)}")
    finally:
        w.close()
        s.drop()


# ------------------------------------------------------------ other tables
KEPT = ("hbys", "schema", "rpys", "eans", "tops", "cgms", "exns", "erpy", "kdts", "ksns", "knas", "oobis", "roobi",
        "woobi", "moobi", "mfa", "rmfa", "cfld", "cons", "ccigs", "cdel", "migs", "ifld", "sids", "icigs", "sdts",
        "esigs", "ecigs", "epath", "enst", "chas", "reps", "wkas", "meids", "maids", "tsgs", "scgs", "imgs", "iimgs")


def raws(db):
    """content of the tables below the typed interface"""
    return {n: {k: (list(v) if isinstance(v, list) else v) for k, v in t.items()}
            for n, t in db.env._disk.dbs.items() if n is not None}


def samples(db, name):
    """values that table name can hold"""
    e = icp([1], [2])
    d1, d2 = coring.Diger(qb64=e.said), coring.Diger(ser=b"two")
    sg = sigs(e, [1])[0]
    cg = cig(e, 1)
    pre = coring.Prefixer(qb64=e.pre)
    dt = [coring.Dater(dts=f"2021-06-27T21:26:2{i}.233257+00:00") for i in (1, 2)]
    from keri.recording import EventSourceRecord, KeyStateRecord, OobiRecord, TopicsRecord, WellKnownAuthN
    oo = [OobiRecord(cid=e.pre), OobiRecord(cid=e.pre, role="witness")]
    tab = dict(hbys="ab", cfld="ab", ifld="ab", cons="ab", sids="ab", epath="ab", enst="ab",
               eans=(d1, d2), cgms=(d1, d2), erpy=(d1, d2), knas=(d1, d2), chas=(d1, d2), reps=(d1, d2),
               meids=(d1, d2), cdel=(d1, d2), maids=(pre, coring.Prefixer(qb64=icp([2], [3]).pre)),
               rpys=(e, icp([2], [3])), exns=(e, icp([2], [3])),
               kdts=dt, migs=dt, sdts=dt, esigs=(sg, sigs(e, [2])[0]), tsgs=(sg, sigs(e, [2])[0]),
               ccigs=(signed(cg), signed(cig(e, 2))), icigs=(signed(cg), signed(cig(e, 2))),
               ecigs=((cg.verfer, signed(cg)), (cig(e, 2).verfer, signed(cig(e, 2)))),
               scgs=((cg.verfer, signed(cg)), (cig(e, 2).verfer, signed(cig(e, 2)))),
               oobis=oo, roobi=oo, woobi=oo, moobi=oo, mfa=oo, rmfa=oo,
               tops=(TopicsRecord(topics=dict(a=1)), TopicsRecord(topics=dict(b=2))),
               ksns=(KeyStateRecord(i=e.pre), KeyStateRecord(i="x")),
               wkas=(WellKnownAuthN(url="u", dt="d"), WellKnownAuthN(url="v", dt="d")))
    return tab.get(name)


def signed(c):
    return coring.Cigar(qb64=c.qb64)


def others(res, spec):
    """every way two entries can be in any one of the tables besides the logs"""
    name = spec
    Clock().install()
    s = Store("oth")
    e = icp([1], [2])
    try:
        s.drop()
        s.open()
        vals = samples(s.db, name)
        if vals is None:
            return
        sub = getattr(s.db, name)
        many = hasattr(sub, "add")
        keys = [("a",), ("b", "c")] if name not in ("tsgs", "cdel") else [("a", "b", "0" * 32, "d"), ("c", "d", "1" * 32, "f")]
        if name == "cdel":
            keys = [("a",), ("b",)]
        places = [(k, v) for k in keys for v in vals]
        for pick_ in range(1, 2 ** len(places)):
            put = [places[i] for i in range(len(places)) if pick_ >> i & 1]
            if not many and len({k for k, _ in put}) < len(put):
                continue
            s.drop()
            s.open()
            s.event(e, sigs(e, [1]))
            sub = getattr(s.db, name)
            for k, v in put:
                if name == "cdel":
                    sub.pin(keys=k, on=2, val=v)
                else:
                    (sub.add if many else sub.put)(keys=k, val=v)
            want = raws(s.db)
            s.db.clean()
            s.open()
            got = raws(s.db)
            res.add("states")
            res.add("transitions")
            if got != want:
                bad = [n for n in want if got.get(n) != want[n]]
                raise Violation(f"{name}:{pick_}", f"table {name} with {[(k, str(v)) for k, v in put]}: cleaning changes "
                                f"{bad}: {[{k: (want[n].get(k), got.get(n, {}).get(k)) for k in list(want[n]) + list(got.get(n, {})) if want[n].get(k) != got.get(n, {}).get(k)} for n in bad]}"[:900])
    finally:
        s.drop()


def habs(res, spec):
    """own identifiers: those whose log verifies stay own, with name and group; places they can be reached at stay"""
    import itertools
    from keri.recording import EndpointRecord, HabitatRecord, LocationRecord
    Clock().install()
    s = Store("hab")
    es = [icp([1], [2]), icp([3], [4])]
    said = coring.Diger(ser=b"x")
    try:
        for logs, mids, end, locs in itertools.product(itertools.product((0, 1), repeat=2), itertools.product((0, 1), repeat=2),
                                                       (0, 1), itertools.product((0, 1), repeat=3)):
            s.drop()
            s.open()
            for n, e in enumerate(es):
                s.event(e, sigs(e, [1 + 2 * n]))
                if not logs[n]:             # the log does not verify any more
                    s.db.sigs.rem(keys=(e.pre, e.said))
                s.db.habs.put(keys=e.pre, val=HabitatRecord(hid=e.pre, name=f"n{n}", domain="dom" if n else None,
                              mid="M" if mids[n] else None, smids=[], rmids=[]))
                s.db.names.put(keys=("dom" if n else "", f"n{n}"), val=e.pre)
            if end:
                s.db.ends.put(keys=(es[0].pre, "controller", wit(1)), val=EndpointRecord(allowed=True))
                s.db.eans.put(keys=(es[0].pre, "controller", wit(1)), val=said)
            schemes = [x for x, on in zip(("http", "https", "tcp"), locs) if on]
            for x in schemes:
                s.db.locs.put(keys=(wit(1), x), val=LocationRecord(url=f"{x}://h/"))
                s.db.lans.put(keys=(wit(1), x), val=said)
            s.db.clean()
            own, groups = set(s.db.prefixes), set(s.db.groups)
            s.open()
            res.add("states")
            res.add("transitions")
            show = f"logs {logs}, groups {mids}, end {end}, places {schemes}"
            want = {e.pre for n, e in enumerate(es) if logs[n]}
            wgr = {e.pre for n, e in enumerate(es) if logs[n] and mids[n]}
            for what, got, ref in (
                    ("own identifiers", own, want), ("groups", groups, wgr),
                    ("own identifiers when opened again", set(s.db.prefixes), want),
                    ("groups when opened again", set(s.db.groups), wgr),
                    ("names", {v for _, v in s.db.names.getTopItemIter()}, want),
                    ("names' keys", {k for k, _ in s.db.names.getTopItemIter()},
                     {("dom" if n else "", f"n{n}") for n in (0, 1) if logs[n]}),
                    ("ends", len(list(s.db.ends.getTopItemIter())), int(bool(end and schemes))),
                    ("places", sorted(k[1] for k, _ in s.db.locs.getTopItemIter()), sorted(schemes) if end else []),
                    ("replies naming places", sorted(k[1] for k, _ in s.db.lans.getTopItemIter()),
                     sorted(schemes) if end else [])):
                if got != ref:
                    raise Violation(f"habs:{logs}:{mids}:{end}:{locs}:{what}", f"{show}: after cleaning {what} are {got}, must be {ref}")
    finally:
        s.drop()


def job(res, spec):
    dict(whole=whole, corrupt=corrupt, dying=dying, others=others, habs=habs)[spec[0]](res, *spec[1:])


def main(res):
    limit = pick(3, 5)
    jobs = [("habs", None)]
    jobs += [("dying", n) for n in (("delegated", "twologs", "witnessed") if TIER == "quick" else
                                    {**k02.SCENES, **k02.BIG})]
    for name in k03.POOLS:
        jobs += [("whole", ("pool", name, (i,), limit)) for i in range(len(k03.POOLS[name]().list))]
    for name in k06.CASES:
        jobs += [("whole", ("case", name, (i,), limit)) for i in range(len(k06.CASES[name]().list))]
    for name in {**k02.SCENES, **k02.BIG}:
        jobs.append(("whole", ("scene", name, (), 0)))
        jobs += [("corrupt", (name, how)) for how in ("unsigned", "forged", "unwitnessed", "missing")
                 if not name.startswith("fork") and name not in ("recovery",)]
    jobs += [("others", n) for n in KEPT]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K08", "model_checking", main)
