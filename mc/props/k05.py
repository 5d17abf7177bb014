"""What a validator stores is enough.  In every reachable database: a restarted process behaves as the
one that kept running, and the exported log rebuilds the same log elsewhere."""

import itertools

from ..kel import Clock, World, kering
from ..lib import TIER, Violation, explore_jobs, pick, run
from . import k02, k03, k06
from keri.core import parsing

VOLATILE = ()


def content(w):
    return {n: {k: (list(v) if isinstance(v, list) else v) for k, v in t.items()} for n, t in w.dump().items()}


def tables(a, b):
    return sorted(n.decode() for n in set(a) | set(b) if a.get(n) != b.get(n))


# ------------------------------------------------------------ restart
def restart(res, spec):
    """same answers to every next message, whether or not the process was restarted before it"""
    source, name, lead, limit = spec
    Clock().install()
    if source == "pool":
        msgs = [(m[0], m[1]) for m in k03.POOLS[name]().list]
        setup = []
    elif source == "case":
        c = k06.CASES[name]()
        msgs = [(m[0], m[1]) for m in c.list]
        setup = [m[1] for m in c.setup]
    else:
        msgs = [(m[0], m[1]) for m in k02.SCENES[name]().list]
        setup = []
    w = World()
    acts = msgs + [("escrows", None)]

    def do(a):
        if a[1] is None:
            w.kvy.processEscrows()
        else:
            k02.deliver(w, a)
    try:
        for s in setup:
            k02.deliver(w, ("", s))
        for i in lead:
            do(acts[i])
        seen = {k03.ident(w)}
        todo = [(w.save(), [acts[i][0] for i in lead])]
        while todo:
            snap, path = todo.pop(0)
            w.restore(snap)
            w.reboot()
            cold = w.save()
            states = {p: w.state(p) for p in known(w)}
            w.restore(snap)
            for p, st in states.items():
                if w.state(p) != st:
                    raise Violation(f"{name}:{path}", f"{name}, history {path}: after a restart key state is {st}, "
                                    f"before it was {w.state(p)}")
            for a in acts:
                here = path + [a[0]]
                w.restore(cold)
                do(a)
                got = content(w)
                w.restore(snap)
                do(a)
                want = content(w)
                res.add("transitions")
                if got != want:
                    raise Violation(f"{name}:{here}", f"{name}, history {here}: when restarted before the last step the "
                                    f"database differs in {tables(got, want)}")
                if len(here) < limit:
                    k = k03.ident(w)
                    if k not in seen:
                        seen.add(k)
                        todo.append((w.save(), here))
            res.add("states")
    finally:
        w.close()


def known(w):
    return sorted({k[0] for k, _ in w.db.states.getTopItemIter()})


# ------------------------------------------------------------ export and import
KEEP = ("fels", "kels", "fons", "states", "aess", "sigs", "wigs", "rcts", "vrcs", "wits")


def view(w, dates):
    db, out = w.db, {}
    for p in known(w):
        v = out[p] = dict(state=w.state(p), kel=w.kel(p), fel=list(db.fels.getAllIter(keys=p)))
        ks = db.states.get(keys=p)
        v["record"] = {k: x for k, x in vars(ks).items() if dates or k != "dt"}
        v["record"] = {k: (vars(x) if hasattr(x, "__dict__") else x) for k, x in v["record"].items()}
        for d in v["fel"]:
            kk = (p, d)
            v[d] = dict(fn=db.fons.get(keys=kk).num, aes=[x.qb64 for x in db.aess.get(keys=kk) or ()],
                        sigs=sorted(s.qb64 for s in db.sigs.get(keys=kk)),
                        wigs=sorted(s.qb64 for s in db.wigs.get(keys=kk)),
                        wits=[x.qb64 for x in db.wits.get(keys=kk)],
                        rcts=sorted((a.qb64, b.qb64) for a, b in db.rcts.get(keys=kk)),
                        vrcs=sorted((k, s.qb64) for k, s in db.vrcs.getTopItemIter(keys=kk)),
                        local=db.esrs.get(keys=kk).local)
            if dates:
                v[d]["dts"] = db.dtss.get(keys=kk).dts
    return out


def export(res, spec):
    source, name, lead = spec
    clock = Clock().install()
    m = k03.POOLS[name]() if source == "pool" else {**k02.SCENES, **k02.BIG}[name]()
    w, o = World(), World(cloned=True)
    try:
        empty = w.save(), o.save()
        for order in ([lead] if lead else rotations(len(m.list))):
            w.restore(empty[0])
            clock.now = Clock().now
            for i in order:
                clock.ahead(1)
                k02.deliver(w, m.list[i])
                w.escrows()
            pres = known(w)
            here = [m.list[i][0] for i in order]
            want = view(w, True)
            plain = view(w, False)
            clock.ahead(100)
            for gv in (kering.Vrsn_1_0, kering.Vrsn_2_0):
                for way in ("all", "each", "from", "twice"):
                    o.restore(empty[1])
                    res.add("states")
                    res.add("transitions", len(pres))
                    show = f"{name}, history {here}, exported {way} as version {gv.major}"
                    key = f"export:{name}:{here}:{way}:{gv.major}"
                    feed(w, o, pres, way, gv)
                    o.escrows()
                    if way == "from":
                        # events from a number on: the rest must fit what is there already
                        feed(w, o, pres, "all", gv)
                        o.escrows()
                    # first seen times travel with the events unless they had to wait in escrow
                    got = view(o, way in ("each", "twice"))
                    ref = want if way in ("each", "twice") else plain
                    if got != ref:
                        raise Violation(key, f"{show}: the copy differs: {diffs(ref, got)}", dict(got=got, want=ref))
    finally:
        w.close()
        o.close()


def rotations(n):
    yield list(range(n))
    yield list(reversed(range(n)))
    for i in range(1, n):
        yield list(range(i, n)) + list(range(i))


def feed(w, o, pres, way, gv):
    msgs = []
    if way in ("all", "from"):
        msgs = list(w.db.cloneAllPreIter(gvrsn=gv)) if way == "all" else \
            [x for p in pres for x in w.db.clonePreIter(pre=p, fn=1, gvrsn=gv)]
    else:
        for p in pres:
            k = w.db.kevers[p]
            msgs += list(w.db.cloneDelegation(k, gvrsn=gv)) + list(w.db.clonePreIter(pre=p, gvrsn=gv))
        if way == "twice":
            msgs = msgs + msgs
    ims = bytearray().join(msgs)
    parsing.Parser(framed=True, kvy=o.kvy, version=gv).parse(ims=ims, local=False)
    assert not ims


def diffs(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            out.append(f"log {p[:8]} {'missing' if p not in b else 'extra'}")
            continue
        for f in sorted(set(a[p]) | set(b[p])):
            if a[p].get(f) != b[p].get(f):
                x, y = a[p].get(f), b[p].get(f)
                if isinstance(x, dict) and isinstance(y, dict):
                    out += [f"{f[:8]}.{g}: {x.get(g)} -> {y.get(g)}" for g in x if x.get(g) != y.get(g)]
                else:
                    out.append(f"{f[:8]}: {x} -> {y}")
    return "; ".join(out)[:900]


def both(res, spec):
    {"restart": restart, "export": export}[spec[0]](res, spec[1:])


def main(res):
    limit = pick(3, 5)
    jobs = []
    for source, table, mk in (("pool", k03.POOLS, None), ("case", k06.CASES, None), ("scene", k02.SCENES, None)):
        for name in table:
            n = len(table[name]().list)
            jobs += [("restart", source, name, (i,), limit) for i in range(n)]
    for name in {**k02.SCENES, **k02.BIG}:
        jobs.append(("export", "scene", name, None))
    for name, mk in k03.POOLS.items():
        n = len(mk().list)
        for lead in itertools.permutations(range(n), pick(3, 4)):
            jobs.append(("export", "pool", name, lead))
    explore_jobs(res, both, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K05", "model_checking", main)
