"""Delegated events need an approval that stands.  Every history of logs that delegate to each other
(approvals, rivals, recoveries on any level, right and wrong pointers to the approval), judged by an
independent reference of the delegation and superseding rules."""

import itertools

from .. import kelmodel as km
from ..kel import Clock, World, icp, ixn, receive, rot, seal, sigs, wig, wire, dig, key
from ..lib import Violation, explore_jobs, pick, run
from .k03 import COMMIT, ident, wit_

FAKE = dig(39)


class Case:
    def __init__(self):
        self.full = {}      # said -> (event, signatures, witness signatures)
        self.setup = []     # delivered before exploration
        self.list = []      # (name, wire, said)
        self.pres = []
        self.names = {}
        self.lost = []      # events whose approval is no longer indexed after the setup

    def ev(self, name, e, keys, wits=(), base=False, sources=(None,)):
        """sources: pointers to approvals attached to delivered copies, each an event, or (number, digest)"""
        self.full[e.said] = (e, [km.Sg(key(k), i, i) for i, k in enumerate(keys)],
                             [km.Sg(wit_(w), i) for i, w in enumerate(wits)])
        self.names[e.said] = name
        if e.pre not in self.pres:
            self.pres.append(e.pre)
        for s in sources:
            if s is None:
                src, tag = None, ""
            elif isinstance(s, tuple):
                src, tag = s, f"+{s[0]}?"
            else:
                src, tag = (s.sn, s.said), "+" + self.names[s.said]
            m = (name + tag, wire(e, sigs(e, keys), [wig(e, w, i) for i, w in enumerate(wits)], source=src), e.said,
                 src)
            (self.setup if base else self.list).append(m)
        return e


# ------------------------------------------------------------ the reference
class Model:
    """what a validator has accepted: per log the standing branch and the first seen order, and for
    each delegated event the event that approved it"""

    def __init__(self, logs=(), boss=()):
        self.logs = dict(logs)
        self.boss = dict(boss)

    def copy(self):
        return Model(self.logs, self.boss)


def fold(case, branch):
    st = None
    for d in branch:
        e, sg, wg = case.full[d]
        v, st = km.judge(st, e, sg, wg, lambda k: COMMIT.get(k, ()))
        assert v == "accept", (case.names[d], v)
    return st


def seals(e):
    return [(a["i"], a["s"], a["d"]) for a in e.sad["a"] if list(a) == ["i", "s", "d"]]


def approvals(case, model, delpre, e):
    """events of the delegator's standing branch that approve e"""
    return [d for d in model.logs.get(delpre, ()) if (e.pre, e.sad["s"], e.said) in seals(case.full[d][0])]


def above(case, model, new, bn, old, bo):
    """may the rotation new approved by bn replace the rotation old approved by bo"""
    n, o = case.full[bn][0], case.full[bo][0]
    if n.sn > o.sn:
        return True
    if bn == bo:
        sl = seals(n)
        en, eo = case.full[new][0], case.full[old][0]
        return sl.index((en.pre, en.sad["s"], en.said)) > sl.index((eo.pre, eo.sad["s"], eo.said))
    if n.sn == o.sn and n.sad["t"] in ("rot", "drt") and o.sad["t"] == "ixn":
        return True
    if n.sn == o.sn and n.sad["t"] == o.sad["t"] == "drt" and bn in model.boss and bo in model.boss:
        return above(case, model, bn, model.boss[bn], bo, model.boss[bo])
    return False


def judge(case, model, said):
    """-> set of approvals by which the event is acceptable now ({None} when it needs none); empty when it is not"""
    e, sg, wg = case.full[said]
    branch = model.logs.get(e.pre, ())
    ilk, sn = e.sad["t"], e.sn
    if not branch:
        if ilk not in ("icp", "dip") or km.judge(None, e, sg, wg, lambda k: COMMIT.get(k, ()))[0] != "accept":
            return set()
        delpre = e.sad.get("di")
    else:
        first = case.full[branch[0]][0]
        delpre = first.sad.get("di")
        if ilk in ("icp", "dip") or sn > len(branch) or sn < 1 or (sn < len(branch) and branch[sn] == said):
            return set()
        if (ilk == "drt") != bool(delpre) and ilk != "ixn":
            return set()
        est = max(i for i, d in enumerate(branch) if case.full[d][0].sad["t"] != "ixn")
        if sn < len(branch) and not (ilk == "rot" and sn > est or ilk == "drt" and sn >= est):
            return set()
        if km.judge(fold(case, branch[:sn]), e, sg, wg, lambda k: COMMIT.get(k, ()))[0] != "accept":
            return set()
        if ilk == "drt" and sn == est:
            old = branch[sn]
            return {b for b in allowed(case, model, delpre, e) if above(case, model, said, b, old, model.boss[old])}
    if ilk in ("dip", "drt"):
        return allowed(case, model, delpre, e)
    return {None}


def allowed(case, model, delpre, e):
    branch = model.logs.get(delpre, ())
    if not branch or "DND" in case.full[branch[0]][0].sad["c"]:
        return set()
    return set(approvals(case, model, delpre, e))


def accept(case, model, said, by):
    e = case.full[said][0]
    m = model.copy()
    m.logs[e.pre] = m.logs.get(e.pre, ())[:e.sn] + (said,)
    if by is not None:
        m.boss[said] = by
    return m


# ------------------------------------------------------------ cases
def simple():
    """approval of inception and rotation, wrong pointers"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1])
    d = icp([11], [12], di=i.pre)
    r = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1])
    y = c.ev("R.ixn2(drt)", ixn(i.pre, 2, x.said, [seal(r)]), [1])
    c.ev("D.dip", d, [11], sources=(None, x, (2, FAKE), (0, FAKE)))
    c.ev("D.drt1", r, [12], sources=(None, y, x))
    c.ev("D.ixn1", ixn(d.pre, 1, d.said), [11])
    return c


def first():
    """a delegator whose identifier is its key approves in its inception"""
    c = Case()
    pre = key(1)
    d = icp([11], [12], di=pre)
    r = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    i = c.ev("R.icp(dip,drt)", icp([1], [2], basic=True, data=[seal(d), seal(r)]), [1])
    x = c.ev("R.ixn1", ixn(pre, 1, i.said), [1])
    c.ev("R.rot1(drt)", rot(pre, 1, i.said, [2], [3], data=[seal(r)]), [2])
    c.ev("D.dip", d, [11], sources=(None, i, x, (0, FAKE)))
    c.ev("D.drt1", r, [12], sources=(None, i))
    c.ev("D.ixn1", ixn(d.pre, 1, d.said), [11])
    return c


def unapproved():
    """seals that approve something else, or are no approval"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    s = seal(d)
    r = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    bad = [dict(s, s="1"), dict(s, d=r.said), dict(i=r.said, s=s["s"], d=s["d"]), dict(d=s["d"]),
           dict(s=s["s"], d=s["d"]), dict(d=s["d"], s=s["s"], i=s["i"]), dict(s, x="y")]
    x = c.ev("R.ixn1(bad)", ixn(i.pre, 1, i.said, bad), [1])
    y = c.ev("R.rot2(drt)", rot(i.pre, 2, x.said, [2], [3], data=[seal(r), dict(seal(r), s="0")]), [2])
    z = c.ev("R.ixn3(dip)", ixn(i.pre, 3, y.said, [dict(d=s["d"]), s]), [2])
    c.ev("D.dip", d, [11], sources=(None, x, z))
    c.ev("D.drt1", r, [12], sources=(None, y, (9, FAKE)))
    return c


def undone():
    """the approving interactions are superseded in the delegator's log"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    e = icp([21], [22], di=i.pre)
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1])
    y = c.ev("R.ixn2(eip)", ixn(i.pre, 2, x.said, [seal(e)]), [1])
    r = c.ev("R.rot1", rot(i.pre, 1, i.said, [2], [3]), [2])
    c.ev("R.ixn2'", ixn(i.pre, 2, r.said), [2])
    c.ev("D.dip", d, [11], sources=(None, x))
    c.ev("E.dip", e, [21], sources=(None, y))
    return c


def forbidding():
    """a log that does not allow delegation"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2], cnfg=["DND"]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1])
    r = c.ev("R.rot1(dip)", rot(i.pre, 1, i.said, [2], [3], data=[seal(d)]), [2])
    c.ev("D.dip", d, [11], sources=(None, x))
    c.ev("D.ixn1", ixn(d.pre, 1, d.said), [11])
    assert r
    return c


def kinds():
    """rotations of the wrong kind"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    bad = rot(i.pre, 1, i.said, [2], [4], ilk="drt")
    dr = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    x = c.ev("R.ixn1(dip,bad,dr)", ixn(i.pre, 1, i.said, [seal(d), seal(bad), seal(dr)]), [1])
    c.ev("R.rot1", rot(i.pre, 1, i.said, [2], [3]), [2])
    c.ev("R.drt1", bad, [2], sources=(None, x))
    c.ev("D.dip", d, [11], sources=(x,))
    c.ev("D.rot1", rot(d.pre, 1, d.said, [12], [14]), [12], sources=(None, x))
    c.ev("D.drt1", dr, [12], sources=(x,))
    c.ev("R.drt2", rot(i.pre, 2, x.said, [2], [4], ilk="drt"), [2])
    return c


def rivals():
    """rotations that may replace each other, by where they are approved"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    a, b, e, f = (rot(d.pre, 1, d.said, [12], [n], ilk="drt") for n in (13, 14, 15, 16))
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1], base=True)
    y = c.ev("R.ixn2(a,b)", ixn(i.pre, 2, x.said, [seal(a), seal(b)]), [1], base=True)
    c.ev("D.dip", d, [11], sources=(x,), base=True)
    z = c.ev("R.ixn3(c)", ixn(i.pre, 3, y.said, [seal(e)]), [1])
    r = c.ev("R.rot3(f)", rot(i.pre, 3, y.said, [2], [3], data=[seal(f)]), [2])
    c.ev("D.a", a, [12], sources=(y,))
    c.ev("D.b", b, [12], sources=(None, y))
    c.ev("D.c", e, [12], sources=(z,))
    c.ev("D.f", f, [12], sources=(r, None))
    c.ev("D.ixn2a", ixn(d.pre, 2, a.said), [12])
    return c


def deep():
    """recovery of interactions and rotations at several depths"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    a = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    b = rot(d.pre, 1, d.said, [12], [14], ilk="drt")
    p = ixn(d.pre, 2, a.said)
    q = ixn(d.pre, 3, p.said)
    s = rot(d.pre, 2, a.said, [13], [15], ilk="drt")
    t = rot(d.pre, 3, p.said, [13], [16], ilk="drt")
    x = c.ev("R.ixn1(dip,a,s,t)", ixn(i.pre, 1, i.said, [seal(d), seal(a), seal(s), seal(t)]), [1], base=True)
    c.ev("D.dip", d, [11], sources=(x,), base=True)
    c.ev("D.a1", a, [12], sources=(x,), base=True)
    y = c.ev("R.ixn2(b)", ixn(i.pre, 2, x.said, [seal(b)]), [1], base=True)
    c.ev("D.p2", p, [12])
    c.ev("D.q3", q, [12])
    c.ev("D.s2", s, [13], sources=(x, None))
    c.ev("D.t3", t, [13], sources=(x,))
    c.ev("D.b1", b, [12], sources=(y, None))
    c.ev("D.ixn2b", ixn(d.pre, 2, b.said), [12])
    return c


def commitments():
    """the replacing rotation obeys the commitments and witnesses of the event both follow"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12, 17], nt="1", di=i.pre, wits=(1, 2), toad=1)
    a = rot(d.pre, 1, d.said, [12], [13], ilk="drt", toad=1, cuts=(1, 2), adds=(3,))
    evs = dict(
        ok=(rot(d.pre, 1, d.said, [17], [14], ilk="drt", toad=1, cuts=(1,)), [17], (2,)),
        bya=(rot(d.pre, 1, d.said, [13], [14], ilk="drt", toad=1, cuts=(1,)), [13], (2,)),
        wita=(rot(d.pre, 1, d.said, [12], [14], ilk="drt", toad=1, cuts=(3,)), [12], ()),
        nowit=(rot(d.pre, 1, d.said, [12], [15], ilk="drt", toad=1, cuts=(1,)), [12], ()),
        adds=(rot(d.pre, 1, d.said, [12], [16], ilk="drt", toad=2, adds=(3,)), [12], (1, 2)))
    x = c.ev("R.ixn1(dip,a)", ixn(i.pre, 1, i.said, [seal(d), seal(a)]), [1], base=True)
    y = c.ev("R.ixn2(all)", ixn(i.pre, 2, x.said, [seal(v[0]) for v in evs.values()]), [1], base=True)
    c.ev("D.dip", d, [11], wits=(1,), sources=(x,), base=True)
    c.ev("D.a1", a, [12], wits=(3,), sources=(x,))
    for n, (e, keys, wits) in evs.items():
        c.ev("D." + n, e, keys, wits=wits, sources=(y,) if n != "ok" else (y, None))
    return c


def chained():
    """approvals that tie are settled further up"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    e = icp([21], [22], di=d.pre)
    old = rot(e.pre, 1, e.said, [22], [23], ilk="drt")
    new = rot(e.pre, 1, e.said, [22], [24], ilk="drt")
    ixd = ixn(d.pre, 1, d.said, [seal(e)])
    a = rot(d.pre, 2, ixd.said, [12], [13], ilk="drt", data=[seal(old)])
    b = rot(d.pre, 2, ixd.said, [12], [14], ilk="drt", data=[seal(new)])
    x = c.ev("R.ixn1(dip,a)", ixn(i.pre, 1, i.said, [seal(d), seal(a)]), [1], base=True)
    c.ev("D.dip", d, [11], sources=(x,), base=True)
    c.ev("D.ixn1(eip)", ixd, [11], base=True)
    c.ev("E.dip", e, [21], sources=(ixd,), base=True)
    y = c.ev("R.ixn2(b)", ixn(i.pre, 2, x.said, [seal(b)]), [1])
    c.ev("D.a2(old)", a, [12], sources=(x,))
    c.ev("D.b2(new)", b, [12], sources=(y, None))
    c.ev("E.old", old, [22], sources=(a, None))
    c.ev("E.new", new, [22], sources=(b, None))
    return c


def witnessedlater():
    """the delegator takes on witnesses after it approved"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2], wits=(1,), toad=1), [1], wits=(1,), base=True)
    d = icp([11], [12], di=i.pre)
    r = rot(d.pre, 1, d.said, [12], [13], ilk="drt")
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1], wits=(1,))
    y = c.ev("R.rot2(drt)", rot(i.pre, 2, x.said, [2], [3], toad=2, adds=(2, 3), data=[seal(r)]), [2], wits=(1, 2))
    c.ev("R.rot3", rot(i.pre, 3, y.said, [3], [4], toad=3, adds=(4, 5)), [3], wits=(1, 2, 3))
    c.ev("D.dip", d, [11], sources=(None, x))
    c.ev("D.drt1", r, [12], sources=(None, y))
    return c


def reindexed():
    """the index from event to approval is rebuilt from the logs when an entry is missing"""
    c = Case()
    i = c.ev("R.icp", icp([1], [2]), [1], base=True)
    d = icp([11], [12], di=i.pre)
    a, b, e = (rot(d.pre, 1, d.said, [12], [n], ilk="drt") for n in (13, 14, 15))
    x = c.ev("R.ixn1(dip)", ixn(i.pre, 1, i.said, [seal(d)]), [1], base=True)
    y = c.ev("R.ixn2(a)", ixn(i.pre, 2, x.said, [seal(a)]), [1], base=True)
    c.ev("D.dip", d, [11], sources=(x,), base=True)
    c.ev("D.a", a, [12], sources=(y,), base=True)
    z = c.ev("R.rot2(b)", rot(i.pre, 2, x.said, [2], [3], data=[seal(b), seal(e)]), [2])
    c.ev("D.b", b, [12], sources=(None, z))
    c.ev("D.c", e, [12], sources=(None, z))
    c.ev("D.ixn2a", ixn(d.pre, 2, a.said), [12])
    c.lost = [a]
    return c


CASES = dict(first=first, witnessedlater=witnessedlater, reindexed=reindexed, simple=simple, unapproved=unapproved, undone=undone, forbidding=forbidding, kinds=kinds, rivals=rivals,
             deep=deep, commitments=commitments, chained=chained)


# ------------------------------------------------------------ exploration
def fels(w, c):
    return {x: tuple(w.db.fels.getAllIter(keys=x)) for x in c.pres}


def absorb(w, c, model, before, after, key, show):
    """the model after what the code newly accepted, in some order in which each is acceptable"""
    new = {}
    for p in c.pres:
        if after[p][:len(before[p])] != before[p]:
            raise Violation(key, f"{show}: first seen log of {p} changed from {before[p]} to {after[p]}")
        if after[p][len(before[p]):]:
            new[p] = after[p][len(before[p]):]

    def rec(m, left):
        if not left:
            return m
        for p, ds in left.items():
            by = judge(c, m, ds[0])
            if not by:
                continue
            if None not in by:
                cpl = w.db.aess.get(keys=(p, ds[0]))
                by = {b for b in by if cpl and cpl[1].qb64 == b and cpl[0].sn == c.full[b][0].sn}
            for b in by:
                rest = {q: v for q, v in left.items() if q != p}
                if ds[1:]:
                    rest[p] = ds[1:]
                got = rec(accept(c, m, ds[0], b), rest)
                if got is not None:
                    return got
        return None
    m = rec(model, new)
    if m is None:
        nm = {p[:6]: [c.names[d] for d in ds] for p, ds in new.items()}
        raise Violation(key, f"{show}: accepts {nm}, which the rules do not allow (or approval recorded wrongly); logs "
                        f"were {[[c.names[d] for d in before[p]] for p in c.pres]}")
    for p in c.pres:
        st = w.state(p)
        want = fold(c, m.logs[p]).seen() if p in m.logs else None
        if want:
            want["di"] = c.full[m.logs[p][0]][0].sad.get("di") or None
        if st != want:
            raise Violation(key, f"{show}: key state {st} is not what the accepted events give: {want}")
    return m


def job(res, spec):
    name, lead, limit = spec
    Clock().install()
    c = CASES[name]()
    w = World()
    acts = [m[0] for m in c.list] + ["escrows"]
    try:
        model = Model()

        def deliver(m, msg, path):
            before = fels(w, c)
            receive(w, msg[1])
            after = fels(w, c)
            k, show = f"{name}:{path}", f"case {name}, history {path}"
            must = judge(c, m, msg[2])
            m = absorb(w, c, m, before, after, k, show)
            pre = c.full[msg[2]][0].pre
            if must and msg[2] not in after[pre]:
                if None in must or (not c.lost and msg[3] and msg[3][0] and any(c.full[b][0].sn == msg[3][0] for b in must)):
                    raise Violation(k, f"{show}: {msg[0]} is not accepted although it is valid and its approval stands")
                if msg[3] and (not msg[3][0] or not any(len(b) > msg[3][0] for b in m.logs.values())):
                    return m     # malformed pointer, or one that waits for an event that does not exist yet
                snap, n = w.save(), m
                while msg[2] not in after[pre] and judge(c, n, msg[2]):
                    b4 = after
                    w.kvy.processEscrows()
                    after = fels(w, c)
                    n = absorb(w, c, n, b4, after, k, show + " + escrows")
                    if after == b4:
                        raise Violation(k, f"{show}: {msg[0]} is valid and approved but escrow processing does not "
                                        "accept it")
                w.restore(snap)
            return m

        for msg in c.setup:
            model = deliver(model, msg, ["setup " + msg[0]])
            if msg[2] not in fels(w, c)[c.full[msg[2]][0].pre]:
                raise Violation(f"{name}:setup", f"case {name}: {msg[0]} is not accepted")
        for e in c.lost:
            assert w.db.aess.rem(keys=(e.pre, e.said))
        path = []
        for i in lead:
            path.append(acts[i])
            model = deliver(model, c.list[i], list(path))
        seen = {}
        todo = [(w.save(), model, path)]
        while todo:
            snap, model, path = todo.pop(0)
            if len(path) == limit:
                continue
            for i, act in enumerate(acts):
                w.restore(snap)
                here = path + [act]
                if act == "escrows":
                    before = fels(w, c)
                    w.kvy.processEscrows()
                    m = absorb(w, c, model, before, fels(w, c), f"{name}:{here}", f"case {name}, history {here}")
                else:
                    m = deliver(model, c.list[i], here)
                res.add("transitions")
                k = ident(w)
                if k not in seen:
                    seen[k] = True
                    res.add("states")
                    todo.append((w.save(), m, here))
    finally:
        w.close()


def main(res):
    jobs = []
    for name, mk in CASES.items():
        n = len(mk().list)
        limit = pick(4, 6)
        jobs += [(name, lead, limit) for lead in itertools.product(range(n), repeat=2)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K06", "model_checking", main)
