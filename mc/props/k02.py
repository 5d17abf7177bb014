"""Whatever order messages arrive in, the outcome is the same.  Every permutation of every scenario's
messages is delivered to a fresh validator, with escrow processing after every delivery or only at
the end; the result must be what in-order delivery gives."""

import itertools

from ..kel import Clock, World, cig, icp, ixn, rct, receive, rot, seal, sigs, wig, wire
from ..lib import TIER, Violation, explore_jobs, run


class Msgs:
    """messages of a scenario, in an order in which each could be accepted on arrival"""

    def __init__(self):
        self.list = []
        self.loose = False       # only the latest events and the state are the same in every order
        self.pres = []
        self.want = {}           # pre -> saids of the log, in order

    def ev(self, e, keys, at=None, wits=(), widx=None, log=True):
        if e.pre not in self.pres:
            self.pres.append(e.pre)
            self.want[e.pre] = []
        if log:
            self.want[e.pre].append(e.said)
        return self.part(e, keys, at, wits, widx)

    def part(self, e, keys, at=None, wits=(), widx=None):
        """another copy of an event with other signatures"""
        ss = sigs(e, keys, at)
        ws = [wig(e, w, i) for w, i in zip(wits, widx if widx is not None else range(len(wits)))]
        self.list.append((f"{e.ilk}{e.sn}{'' if at is None else at}{widx or ''}", wire(e, ss, ws)))
        return e

    def rc(self, e, wits):
        self.list.append((f"rct{e.sn}by{wits}", wire(rct(e.pre, e.sn, e.said), cigs=[cig(e, w) for w in wits])))

    def rw(self, e, wits, idx):
        self.list.append((f"rct{e.sn}wig{idx}", wire(rct(e.pre, e.sn, e.said),
                          wigs=[wig(e, w, i) for w, i in zip(wits, idx)])))

    def rt(self, e, by, keys, at=None):
        """transferable receipt of e by the log whose establishment event is by"""
        self.list.append((f"rct{e.sn}of{e.pre[:3]}by{by.sn}", wire(
            rct(e.pre, e.sn, e.said), tsgs=[(by.pre, by.sn, by.said, sigs(e, keys, at))])))


def deliver(w, m):
    receive(w, m[1])


# ------------------------------------------------------------ scenarios
def chain():
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    x = m.ev(ixn(i.pre, 1, i.said), [1])
    r = m.ev(rot(i.pre, 2, x.said, [2], [3]), [2])
    y = m.ev(ixn(i.pre, 3, r.said), [2])
    r2 = m.ev(rot(i.pre, 4, y.said, [3], [4]), [3])
    m.ev(ixn(i.pre, 5, r2.said), [3])
    return m


def partial():
    m = Msgs()
    i = icp([1, 2], [3, 4])
    m.ev(i, [1], [0])
    m.part(i, [2], [1])
    x = ixn(i.pre, 1, i.said)
    m.ev(x, [2], [1])
    m.part(x, [1], [0])
    r = rot(i.pre, 2, x.said, [3, 4], [5])
    m.ev(r, [3], [0])
    m.part(r, [4], [1])
    return m


def witnessed():
    m = Msgs()
    i = icp([1], [2], wits=(1, 2), toad=2)
    m.ev(i, [1])
    m.rc(i, [1])
    m.rw(i, [2], [1])
    x = ixn(i.pre, 1, i.said)
    m.ev(x, [1])
    m.rw(x, [1], [0])
    m.rc(x, [2])
    return m


def witnesschange():
    m = Msgs()
    i = icp([1], [2], wits=(1,), toad=1)
    m.ev(i, [1], wits=(1,))
    r = rot(i.pre, 1, i.said, [2], [3], toad=1, cuts=(1,), adds=(2,))
    m.ev(r, [2])
    m.rc(r, [2])
    x = ixn(i.pre, 2, r.said)
    m.ev(x, [2])
    m.rw(x, [2], [0])
    return m


def recovery():
    """one interaction is replaced by a rotation at its number"""
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    r = rot(i.pre, 1, i.said, [2], [3])
    m.ev(r, [2])
    x = m.ev(ixn(i.pre, 2, r.said), [2])
    m.ev(rot(i.pre, 3, x.said, [3], [4]), [3])
    return m


def partwit():
    m = Msgs()
    i = icp([1, 2], [3], wits=(1, 2), toad=2)
    m.ev(i, [1], [0], wits=(1,))
    m.part(i, [2], [1])
    m.rc(i, [2])
    x = ixn(i.pre, 1, i.said)
    m.ev(x, [1], [0])
    m.part(x, [2], [1], wits=(2,), widx=(1,))
    m.rw(x, [1], [0])
    return m


def copies():
    """the same events again and again with different signatures"""
    m = Msgs()
    i = icp([1, 2, 3], [4], kt="2")
    m.ev(i, [1, 2], [0, 1])
    m.part(i, [3], [2])
    m.part(i, [2, 3], [1, 2])
    x = ixn(i.pre, 1, i.said)
    m.ev(x, [2, 3], [1, 2])
    m.part(x, [1], [0])
    m.part(x, [1, 2], [0, 1])
    return m


def twologs():
    """two logs; one receipts the other"""
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    j = m.ev(icp([11], [12]), [11])
    m.rt(i, j, [11])
    x = m.ev(ixn(i.pre, 1, i.said), [1])
    r = m.ev(rot(j.pre, 1, j.said, [12], [13]), [12])
    m.rt(x, r, [12])
    return m


def anyreceipts():
    """receipts by non-witnesses"""
    m = Msgs()
    i = m.ev(icp([1], [2], wits=(1,), toad=1), [1], wits=(1,))
    m.rc(i, [7])
    x = m.ev(ixn(i.pre, 1, i.said), [1], wits=(1,))
    m.rc(x, [7, 8])
    return m


def forked():
    """interactions replaced by a rotation: whichever arrive first, the rotation's branch wins"""
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    x = m.part(ixn(i.pre, 1, i.said), [1])
    m.part(ixn(i.pre, 2, x.said), [1])
    m.ev(rot(i.pre, 1, i.said, [2], [3]), [2])
    m.loose = True
    return m


def forkedwit():
    """the replacing rotation changes witnesses and is receipted separately"""
    m = Msgs()
    i = m.ev(icp([1], [2], wits=(1, 2), toad=1), [1], wits=(1,))
    m.part(ixn(i.pre, 1, i.said), [1], wits=(1,))
    r = m.ev(rot(i.pre, 1, i.said, [2], [3], toad=2, cuts=(1,), adds=(3,)), [2])
    m.rw(r, [2], [0])        # an unindexed receipt that conflicts with the first seen event may be dropped
    m.rw(r, [3], [1])
    m.loose = True
    return m


def forkedpart():
    """the replacing rotation gathers its signatures"""
    m = Msgs()
    i = m.ev(icp([1, 2], [3, 4]), [1, 2])
    m.part(ixn(i.pre, 1, i.said), [1, 2])
    r = m.ev(rot(i.pre, 1, i.said, [3, 4], [5]), [3], [0])
    m.part(r, [4], [1])
    m.loose = True
    return m


def delegated():
    """a delegated log and the log that approves it"""
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    d = m.ev(icp([11], [12], di=i.pre), [11])
    x = m.ev(ixn(i.pre, 1, i.said, [seal(d)]), [1])
    r = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    m.ev(ixn(i.pre, 2, x.said, [seal(r)]), [1])
    m.ev(r, [12])
    m.ev(ixn(d.pre, 2, r.said), [12])
    return m


def manyreceipts():
    m = Msgs()
    i = icp([1, 2], [3, 4], wits=(1, 2, 3), toad=2)
    m.ev(i, [1], [0])
    m.part(i, [2], [1])
    m.rc(i, [1])
    m.rw(i, [3], [2])
    r = rot(i.pre, 1, i.said, [3, 4], [5], toad=2, cuts=(2,), adds=(4,))
    m.ev(r, [3, 4])
    m.rw(r, [4], [2])
    m.rc(r, [3])
    m.ev(ixn(i.pre, 2, r.said), [3, 4], wits=(1, 3))
    return m


def deepdelegated():
    """a log delegated by a delegated log"""
    m = Msgs()
    i = m.ev(icp([1], [2]), [1])
    d = m.ev(icp([11], [12], di=i.pre), [11])
    x = m.ev(ixn(i.pre, 1, i.said, [seal(d)]), [1])
    e = m.ev(icp([21], [22], di=d.pre), [21])
    m.ev(ixn(d.pre, 1, d.said, [seal(e)]), [11])
    r = rot(d.pre, 2, m.want[d.pre][1], [12], [13], ilk="drt")
    m.ev(ixn(i.pre, 2, x.said, [seal(r)]), [1])
    m.ev(r, [12])
    m.ev(ixn(e.pre, 1, e.said), [21])
    return m


BIG = dict(manyreceipts=manyreceipts, deepdelegated=deepdelegated)
SCENES = dict(delegated=delegated, forked=forked, forkedwit=forkedwit, forkedpart=forkedpart, chain=chain, partial=partial, witnessed=witnessed, witnesschange=witnesschange, recovery=recovery,
              partwit=partwit, copies=copies, twologs=twologs, anyreceipts=anyreceipts)


def outcome(w, m):
    """what order must not influence"""
    db = w.db
    out = {}
    for p in m.pres:
        st = w.state(p)
        if m.loose:
            out[p] = dict(state=st, kel=[db.kels.getLast(keys=p, on=n) for n in range(st["sn"] + 1)] if st else [])
        else:
            out[p] = dict(state=st, kel=w.kel(p), fel=list(db.fels.getAllIter(keys=p)))
        for d in m.want[p]:
            out[p][d] = dict(
                sigs=sorted((s.index, s.qb64) for s in db.sigs.get(keys=(p, d))),
                wigs=sorted((s.index, s.qb64) for s in db.wigs.get(keys=(p, d))),
                rcts=sorted((a.qb64, b.qb64) for a, b in db.rcts.get(keys=(p, d))),
                vrcs=sorted((k, s.qb64) for k, s in db.vrcs.getTopItemIter(keys=(p, d))))
    if not m.loose:
        out["kept"] = sorted(n for n, t in db.env._disk.dbs.items() if n in ESCROWS and t)
    return out


ESCROWS = (b"pses.", b"pwes.", b"ooes.", b"ldes.", b"ures.", b"uwes.", b"vres.", b"pdes.", b"udes.", b"qnfs.")


def diff(a, b):
    out = []
    for p in a:
        if a[p] != b[p]:
            if isinstance(a[p], dict):
                for f in a[p]:
                    if a[p][f] != b[p][f]:
                        if isinstance(a[p][f], dict) and isinstance(b[p][f], dict):
                            out += [f"{f[:8]}.{g}" for g in a[p][f] if a[p][f][g] != b[p][f][g]]
                        else:
                            out.append(f"{p[:8]}.{f}")
            else:
                out.append(f"{p}: {b[p]} instead of {a[p]}")
    return ", ".join(out)


def job(res, spec):
    name, mode, lead = spec
    Clock().install()
    m = {**SCENES, **BIG}[name]()
    w = World()
    try:
        empty = w.save()
        for x in m.list:
            deliver(w, x)
            w.escrows()
        want = outcome(w, m)
        for p in m.pres:
            st = want[p]["state"]
            if want[p]["kel"][-len(m.want[p]):] != m.want[p] or st is None:
                raise Violation(f"{name}:in-order", f"scenario {name} delivered in order gives the log "
                                f"{want[p]['kel']}, must be {m.want[p]}")
        if want.get("kept"):
            raise Violation(f"{name}:in-order-kept", f"scenario {name} in order leaves escrows {want['kept']}")
        w.restore(empty)
        walk(res, w, m, name, mode, want, lead)
    finally:
        w.close()


def walk(res, w, m, name, mode, want, lead):
    """every order starting with lead, sharing common beginnings"""
    n = len(m.list)

    def rec(done, left):
        if not left:
            snap = w.save()
            if mode == "end":
                w.escrows()
            res.add("states")
            got = outcome(w, m)
            if got != want:
                order = [m.list[i][0] for i in done]
                res.violation(f"{name}:{mode}:{order}", f"scenario {name}, order {order}, escrows {mode}: differs from "
                              f"in-order delivery in {diff(want, got)}", dict(order=order, got=got, want=want))
            w.restore(snap)
            return
        snap = w.save()
        for i in left:
            if res.full:
                return
            deliver(w, m.list[i])
            if mode == "each":
                w.escrows()
            res.add("transitions")
            rec(done + [i], [j for j in left if j != i])
            w.restore(snap)
    for i in lead:
        deliver(w, m.list[i])
        if mode == "each":
            w.escrows()
    rec(list(lead), [j for j in range(n) if j not in lead])


def main(res):
    jobs = []
    for name, mk in (SCENES if TIER == "quick" else {**SCENES, **BIG}).items():
        n = len(mk().list)
        for mode in ("each", "end"):
            jobs += [(name, mode, lead) for lead in itertools.permutations(range(n), 1 if n < 7 else 2)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["states"]


def check():
    return run("K02", "model_checking", main)
