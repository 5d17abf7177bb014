"""First seen wins.  Every reachable database state of a validator that receives, in any order and
any number of times, a pool of mutually conflicting events, with escrow processing at any moment."""

import itertools

from .. import kelmodel as km
from ..kel import Clock, World, dig, digs, icp, ixn, key, rct, receive, rot, sigs, wig, wire, cig
from ..lib import Violation, explore_jobs, pick, run
from .k02 import Msgs

COMMIT = {key(i): digs(i) for i in range(40)}


class Pool(Msgs):
    """messages, and what each event is worth when fully attested"""

    def __init__(self):
        super().__init__()
        self.full = {}           # said -> (event, signatures, witness signatures)

    def add(self, e, keys, wits=(), at=None, sent=None, wsent=None):
        """sent/wsent: which of the signatures each delivered copy carries (list of lists)"""
        at = list(range(len(keys)) if at is None else at)
        self.full[e.said] = (e, [km.Sg(key(k), i, i) for k, i in zip(keys, at)],
                             [km.Sg(wit_(w), i) for i, w in enumerate(wits)])
        if e.pre not in self.pres:
            self.pres.append(e.pre)
        for part in (sent or [range(len(keys))]):
            part = list(part)
            for wpart in (wsent or [range(len(wits))]):
                wpart = list(wpart)
                self.part(e, [keys[i] for i in part], [at[i] for i in part], [wits[i] for i in wpart], wpart)
        return e


def wit_(w):
    from ..kel import wit
    return wit(w)


def rivals():
    """two inceptions of one key, rival interactions, rival rotations"""
    p = Pool()
    a = p.add(icp([1], [2], basic=True), [1])
    p.add(icp([1], [3], basic=True), [1])
    x = p.add(ixn(a.pre, 1, a.said), [1])
    p.add(ixn(a.pre, 1, a.said, [dict(d=a.said)]), [1])
    p.add(rot(a.pre, 1, a.said, [2], [4]), [2])
    p.add(ixn(a.pre, 2, x.said), [1])
    p.add(rot(a.pre, 2, x.said, [2], [5]), [2])
    return p


def recoveries():
    """rotations that replace interactions, at several depths, and what builds on either branch"""
    p = Pool()
    a = p.add(icp([1], [2]), [1])
    x = p.add(ixn(a.pre, 1, a.said), [1])
    y = p.add(ixn(a.pre, 2, x.said), [1])
    r = p.add(rot(a.pre, 1, a.said, [2], [3]), [2])
    s = p.add(rot(a.pre, 2, x.said, [2], [4]), [2])
    z = p.add(ixn(a.pre, 2, r.said), [2])
    p.add(rot(a.pre, 3, y.said, [2], [3]), [2])
    p.add(rot(a.pre, 2, r.said, [3], [5]), [3])
    return p


def quorums():
    """rivals that gather two signatures each"""
    p = Pool()
    a = p.add(icp([1, 2], [3, 4]), [1, 2])
    x = p.add(ixn(a.pre, 1, a.said), [1, 2], sent=[[0], [1]])
    p.add(ixn(a.pre, 1, a.said, [dict(d=a.said)]), [1, 2], sent=[[0], [1]])
    p.add(rot(a.pre, 1, a.said, [3, 4], [5]), [3, 4], sent=[[0], [1]])
    return p


def witnesses():
    """rivals that gather two receipts each"""
    p = Pool()
    a = p.add(icp([1], [2], wits=(1, 2), toad=2), [1], wits=(1, 2))
    for data in ([], [dict(d=a.said)]):
        x = p.add(ixn(a.pre, 1, a.said, data), [1], wits=(1, 2), wsent=[[]])
        p.rw(x, [1], [0])
        p.rc(x, [2])
    r = p.add(rot(a.pre, 1, a.said, [2], [3], toad=1, cuts=(1, 2), adds=(3,)), [2], wits=(3,), wsent=[[]])
    p.rw(r, [3], [0])
    return p


def chainrec():
    """recovery of a recovery"""
    p = Pool()
    a = p.add(icp([1], [2]), [1])
    x = p.add(ixn(a.pre, 1, a.said), [1])
    r = p.add(rot(a.pre, 1, a.said, [2], [3]), [2])
    y = p.add(ixn(a.pre, 2, r.said), [2])
    p.add(ixn(a.pre, 3, y.said), [2])
    s = p.add(rot(a.pre, 2, r.said, [3], [4]), [3])
    p.add(rot(a.pre, 3, y.said, [3], [6]), [3])
    p.add(ixn(a.pre, 3, s.said), [3])
    p.add(rot(a.pre, 1, a.said, [3], [7]), [3])
    return p


def traits():
    """logs with both traits, nested weights, many witnesses"""
    p = Pool()
    half = ["1/2", "1/2"]
    a = p.add(icp([1, 2, 3], [4, 5, 6], kt=[half, ["1"]], nt=[["1"], half], cnfg=("EO", "DND")), [1, 2, 3])
    p.add(ixn(a.pre, 1, a.said), [1, 2, 3])
    r = p.add(rot(a.pre, 1, a.said, [4, 5, 6], [7], kt=half + ["0"]), [4, 5, 6])
    p.add(rot(a.pre, 2, r.said, [7], []), [7])
    b = p.add(icp([11], [12], wits=(1, 2, 3), toad=2, cnfg=("DND",)), [11], wits=(1, 2, 3))
    q = p.add(rot(b.pre, 1, b.said, [12], [13], toad=3, cuts=(2, 1), adds=(5, 4)), [12], wits=(3, 5, 4))
    p.add(rot(b.pre, 2, q.said, [13], [14], toad=0, cuts=(5, 4, 3)), [13])
    return p


POOLS = dict(rivals=rivals, recoveries=recoveries, quorums=quorums, witnesses=witnesses, chainrec=chainrec, traits=traits)


def fels(w, p):
    return {x: list(w.db.fels.getAllIter(keys=x)) for x in p.pres}


def ident(w):
    return hash(tuple((n, tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in sorted(t.items())))
                      for n, t in sorted((n, t) for n, t in w.db.env._disk.dbs.items() if n and t)))


def replay(p, fel, name, path):
    """the model state after the accepted events in first seen order; every one must be acceptable"""
    st = None
    for d in fel:
        e, sgs, wgs = p.full[d]
        v, nst = km.judge(st, e, sgs, wgs, lambda k: COMMIT.get(k, ()))
        if v != "accept":
            raise Violation(f"{name}:{path}", f"pool {name}, history {path}: accepted event {d} at {e.sn}, which a "
                            f"validator with log {list(st.first) if st else []} must answer {v}")
        st = nst
    return st


def job(res, spec):
    name, lead, limit = spec
    Clock().install()
    p = POOLS[name]()
    w = World()
    names = [m[0] + "/" + str(i) for i, m in enumerate(p.list)] + ["escrows"]
    try:
        seen = {}
        path = ()
        for i in lead:
            receive(w, p.list[i][1])
            path += (names[i],)
        todo = [(w.save(), path)]
        while todo:
            snap, path = todo.pop(0)
            if len(path) == limit:
                continue
            w.restore(snap)
            before = fels(w, p)
            for i, act in enumerate(names):
                w.restore(snap)
                if act == "escrows":
                    w.kvy.processEscrows()
                else:
                    receive(w, p.list[i][1])
                res.add("transitions")
                here = path + (act,)
                after = fels(w, p)
                for x in p.pres:
                    if after[x][:len(before[x])] != before[x]:
                        raise Violation(f"{name}:{here}", f"pool {name}, history {here}: the first seen log changed "
                                        f"from {before[x]} to {after[x]}")
                    st = replay(p, after[x], name, here)
                    got = w.state(x)
                    if (st.seen() if st else None) != got:
                        raise Violation(f"{name}:{here}", f"pool {name}, history {here}: key state {got} is not what "
                                        f"the accepted events give: {st.seen() if st else None}")
                    for sn, d in (st.at if st else {}).items():
                        if w.db.kels.getLast(keys=x, on=sn) != d:
                            raise Violation(f"{name}:{here}", f"pool {name}, history {here}: event at {sn} is "
                                            f"{w.db.kels.getLast(keys=x, on=sn)}, must be {d}")
                k = ident(w)
                if k not in seen:
                    seen[k] = True
                    res.add("states")
                    todo.append((w.save(), here))
    finally:
        w.close()


def main(res):
    limit = pick(5, 7)
    jobs = []
    for name, mk in POOLS.items():
        n = len(mk().list)
        jobs += [(name, lead, limit) for lead in itertools.product(range(n), repeat=2)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K03", "model_checking", main)
