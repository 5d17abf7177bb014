"""The delegation protocol at the delegate: two delegates of one controller, one with a witness, have an inception and (the one without)
a rotation approved.  Every order of requests, receipts, approvals, look-alike approvals, publications and passes over the escrows."""

import copy

from ..kel import Clock, World, icp, ixn, key, receive, rot, sigs, wig, wire, wit
from ..lib import explore_jobs, pick, run
from .m02 import Home, SALT
from keri import kering
from keri.app import agenting, delegating, habbing
from keri.core import coring, indexing, signing
from keri.kering import Kinds

V1 = kering.Vrsn_1_0
VKW = dict(version=V1, kind=Kinds.json)


class Bad(Exception):
    pass


class Site(Home):
    """the delegates' controller"""
    def __init__(self):
        super().__init__(None)
        self.boot()
        self.boss = icp([31], [32])
        self.hby.psr.parse(bytearray(wire(self.boss, sigs(self.boss, [31]))))
        assert self.boss.pre in self.hby.kevers
        self.proxy = self.hby.makeHab(name="proxy", **VKW)
        w = signing.Signer(raw=b"W" * 32, transferable=False)
        self.wit = w
        self.habs = dict(p=self.hby.makeHab(name="p", delpre=self.boss.pre, **VKW),
                         q=self.hby.makeHab(name="q", delpre=self.boss.pre, wits=[w.verfer.qb64], toad=1, **VKW))
        self.swain = delegating.Anchorer(hby=self.hby, proxy=self.proxy, version=V1)
        self.swain.extend = self.swain.remove = lambda doers: None
        self.keys = {k: h.pre for k, h in self.habs.items()}

    def boot(self):
        dict.clear(self.db.kevers)
        self.db.prefixes.clear()
        self.db.groups.clear()
        self.db.reload()
        self.hby = habbing.Habery(name="mc", temp=True, ks=self.ks, db=self.db, cf=self.cf, salt=SALT, bran=self.bran, version=V1)

    def save(self):
        s = self.swain
        return (dict(self.db.env._disk.dbs), dict(self.ks.env._disk.dbs), {p: copy.copy(k) for p, k in dict.items(self.db.kevers)},
                {p: (list(b.msgs), b.posted, list(b.cues)) for p, b in s.publishers.items()}, list(s.witDoer.msgs), list(s.witDoer.cues),
                list(s.postman.evts), list(s.witq.msgs))

    def load(self, snap):
        disk, kdisk, kevers, pubs, wm, wc, evts, qs = snap
        self.db.env._disk.dbs, self.ks.env._disk.dbs = dict(disk), dict(kdisk)
        dict.clear(self.db.kevers)
        for p, k in kevers.items():
            dict.__setitem__(self.db.kevers, p, copy.copy(k))
        s = self.swain
        s.publishers = {}
        for p, (msgs, posted, cues) in pubs.items():
            b = s.publishers[p] = agenting.WitnessPublisher(hby=self.hby)
            b.msgs.extend(msgs)
            b.posted = posted
            b.cues.extend(cues)
        for d, v in ((s.witDoer.msgs, wm), (s.witDoer.cues, wc), (s.postman.evts, evts), (s.witq.msgs, qs)):
            d.clear()
            d.extend(v)
        self.hby.kvy.cues.clear()


# events under way: p0 and p2 (inception and rotation of p), q0
ACTS = ["ask p0", "ask q0", "wit q0", "told q5", "told q0", "boss p0", "boss q0", "boss p2", "like p0", "like q0", "undo", "turn p", "ask p2", "sent p", "sent q",
        "pass"]


class Model:
    """what has been done, and what must have come of it"""
    def __init__(self, site):
        self.done, self.stage, self.boss, self.by = (), {}, [site.boss], {}

    def copy(self):
        m = copy.copy(self)
        m.stage, m.boss, m.by = dict(self.stage), list(self.boss), dict(self.by)
        return m

    def key(self):
        return tuple(sorted(self.stage.items())), tuple(e.said for e in self.boss), tuple(sorted(self.by.items())), tuple(sorted(set(self.done) - {"pass"}))


def serder(site, e):
    pre = site.keys[e[0]]
    said = site.db.kels.getLast(keys=pre, on=int(e[1]))
    return site.db.evts.get(keys=(pre, said))


def approval(site, m, e):
    """the event of the boss's log that approves e, as an honest reader finds it"""
    s = serder(site, e)
    for x in m.boss:
        if any(dict(a) == dict(i=s.pre, s=f"{s.sn:x}", d=s.said) for a in x.ked["a"]):
            return x
    return None


def can(site, m, a):
    what, _, e = a.partition(" ")
    if what == "pass":
        return m.done[-1:] != ("pass",) or m.done == LATE
    if a in m.done and what != "sent":
        return False
    if what == "boss" or what == "like":
        return e != "p2" or "turn p" in m.done
    if what == "turn":
        return True
    if e == "p2":
        return "turn p" in m.done and m.stage.get("p0") == "complete"
    if what == "told":
        return e == "q5" or "wit q0" in m.done
    if what == "wit":
        return True
    if what == "undo":
        return len(m.boss) > 1 and m.boss[-1].ilk == "ixn"
    if what == "sent":
        return any(st == "publishing" for k, st in m.stage.items() if k[0] == e)
    return True


def expect_pass(site, m):
    """the model's escrow pass: returns [(event, request)] made"""
    asked = []
    for k in sorted(m.stage):
        if m.stage[k] == "receipting" and (k[0] == "p" or {"wit q0", "told q0"} <= set(m.done)):
            m.stage[k] = "waiting"
            asked.append(k)
    fresh = []
    for k in sorted(m.stage):
        if m.stage[k] == "waiting" and approval(site, m, k):
            m.stage[k] = "publishing"
            m.by[k] = approval(site, m, k).sn, approval(site, m, k).said
            fresh.append(k)
    for k in sorted(m.stage):
        if m.stage[k] == "published":
            m.stage[k] = "complete"
    return asked, fresh


def step(site, m, a, where):
    what, _, e = a.partition(" ")
    s = site.swain
    evts, qs, pubs = len(s.postman.evts), len(s.witq.msgs), {p: len(b.msgs) for p, b in s.publishers.items()}
    asked, fresh = [], []
    if what == "ask":
        s.delegation(pre=site.keys[e[0]], sn=int(e[1]))
        m.stage[e] = "receipting"
    elif what == "turn":
        site.habs["p"].interact(data=[dict(i=key(70))], **VKW)
        site.habs["p"].rotate(**VKW)
    elif what == "wit":
        x = serder(site, e)
        g = site.wit.sign(x.raw, index=0)
        site.db.wigs.add(keys=(x.pre, x.said), val=g)
    elif what == "told":
        s.witDoer.cues.append(dict(pre=site.keys[e[0]], sn=int(e[1]), auths=None))
    elif what in ("boss", "like"):
        x = serder(site, e)
        top = m.boss[-1]
        seal = dict(i=x.pre, s=f"{x.sn:x}", d=x.said)
        if what == "like":
            seal = dict(i=x.pre, s=f"{x.sn + 1:x}", d=x.said) if e == "p0" else dict(i=x.pre, s=f"{x.sn:x}", d=site.boss.said)
        ks = [32] if any(b.ilk == "rot" for b in m.boss) else [31]
        y = ixn(site.boss.pre, top.sn + 1, top.said, [seal])
        site.hby.psr.parse(bytearray(wire(y, sigs(y, ks))))
        m.boss.append(y)
    elif what == "undo":
        # the delegator recovers: its last interaction no longer counts
        top = m.boss.pop()
        y = rot(site.boss.pre, top.sn, m.boss[-1].said, [32], [33])
        site.hby.psr.parse(bytearray(wire(y, sigs(y, [32]))))
        m.boss.append(y)
    elif what == "sent":
        b = s.publishers.get(site.keys[e])
        if b is None:
            raise Bad(f"{where}: nobody is publishing {e}'s delegator")
        while b.msgs:
            msg = b.msgs.popleft()
            b.posted += 1
            b.cues.append(msg)
        for k in m.stage:
            if k[0] == e and m.stage[k] == "publishing":
                m.stage[k] = "published"
    elif what == "pass":
        asked, fresh = expect_pass(site, m)
        s.processEscrows()
    if site.db.kels.getLast(keys=site.boss.pre, on=m.boss[-1].sn) != m.boss[-1].said:
        raise Bad(f"{where}: the delegator's log is not as made (harness)")
    m.done += (a,)

    # -- requests to the delegator
    new = list(s.postman.evts)[evts:]
    want = []
    for k in asked:
        x = serder(site, k)
        want += [("exn", x.said), (x.ilk, x.said)]
    got = []
    for v in new:
        sd = v["serder"]
        if v["dest"] != site.boss.pre or v["topic"] != "delegate" or v["src"] != site.proxy.pre:
            raise Bad(f"{where}: request goes from {v['src']} to {v['dest']} on {v['topic']}")
        got.append((sd.ilk, sd.said if sd.ilk != "exn" else sd.ked["e"]["evt"]["d"]))
        if sd.ilk != "exn":
            far = World()
            receive(far, bytes(sd.raw) + bytes(v["attachment"]))
            if sd.sn == 0 and not any(True for _ in far.db.delegables.getTopItemIter()) and not far.db.env._disk.dbs.get(b"pdes.") \
                    and not far.db.env._disk.dbs.get(b"dpes."):
                raise Bad(f"{where}: the delegator does not get the event with its signatures")
            far.close()
    if sorted(got) != sorted(want):
        raise Bad(f"{where}: requests to the delegator {got}, expected {want}")
    seals = [(v["pre"], tuple(sorted(v["q"]["a"].items()))) for v in list(s.witq.msgs)[qs:]]
    wseals = [(site.boss.pre, tuple(sorted(dict(i=serder(site, k).pre, s=serder(site, k).snh, d=serder(site, k).said).items()))) for k in asked]
    if sorted(seals) != sorted(wseals):
        raise Bad(f"{where}: asks the delegator's witnesses for {seals}, expected {wseals}")
    # -- publication of the delegator's log
    for k in fresh:
        b = s.publishers.get(site.keys[k[0]])
        out = b"".join(bytes(v["msg"]) for v in list(b.msgs)[pubs.get(site.keys[k[0]], 0):]) if b else b""
        if f'"d":"{approval(site, m, k).said}"'.encode() not in out:
            raise Bad(f"{where}: the approval of {k} is not published to the witnesses")
    # -- what is recorded
    for k in ("p0", "p2", "q0"):
        pre, sn = site.keys[k[0]], int(k[1])
        if k == "p2" and "turn p" not in m.done:
            continue
        x = serder(site, k)
        st = m.stage.get(k)
        done = site.swain.complete(coring.Prefixer(qb64=pre), coring.Number(num=sn), coring.Diger(qb64=x.said))
        if done != (st == "complete"):
            raise Bad(f"{where}: delegation of {k} {'done' if done else 'not done'}, it is {st}")
        src = site.db.aess.get(keys=(pre, x.said))
        if st in ("publishing", "published", "complete"):
            if not src or (src[0].sn, src[1].qb64) != m.by[k]:
                raise Bad(f"{where}: {k} was approved by {m.by[k]}, recorded {src and (src[0].sn, src[1].qb64)}")
        elif src:
            raise Bad(f"{where}: {k} recorded as approved, it is {st}")
    for (pre, said) in {k for k, _ in site.db.aess.getTopItemIter()}:
        if said not in {serder(site, k).said for k in m.stage}:
            raise Bad(f"{where}: an event that needs no approval is recorded as approved")


def finish(site, m, where):
    """whatever happened so far: once the rest is done, every delegation asked for gets done"""
    for a in ["ask p0", "ask q0", "pass", "wit q0", "told q0", "pass", "boss p0", "boss q0", "pass", "sent p", "sent q", "pass", "turn p", "ask p2",
              "pass", "boss p2", "pass", "sent p", "pass"]:
        if a.startswith("boss") and a[5:] not in m.by and not approval(site, m, a[5:]):
            m.done = tuple(d for d in m.done if d != a)     # once more, if it was undone
        if can(site, m, a) or a == "pass":
            step(site, m, a, f"{where} / {a}")
    if [m.stage.get(k) for k in ("p0", "q0", "p2")] != ["complete"] * 3:
        raise Bad(f"{where}: model itself does not finish: {m.stage}")
    if set(d for _, d in m.by.values()) - {e.said for e in m.boss}:
        return                                  # approved by what the delegator took back since
    far = World()
    for pre in [site.boss.pre, site.keys["p"], site.keys["q"]]:
        for msg in site.db.clonePreIter(pre=pre, gvrsn=V1):
            receive(far, bytes(msg))
    far.kvy.processEscrows()
    for k in ("p", "q"):
        if site.keys[k] not in far.db.kevers or far.db.kevers[site.keys[k]].sn != (2 if k == "p" else 0):
            raise Bad(f"{where}: a validator does not accept {k} as delegated in the end")
    far.close()


def job(res, j):
    first, depth, late = j
    Clock().install()
    site = Site()
    try:
        m0 = Model(site)
        for a in late:
            step(site, m0, a, f"start ({', '.join(late)})")
        depth += len(late)
        seen, todo = set(), [(site.save(), m0)]
        for snap, m in todo:
            if len(m.done) >= depth:
                continue
            for a in ([first] if m.done == late else ACTS):
                site.load(snap)
                n = m.copy()
                where = ", ".join(m.done + (a,))
                try:
                    if not can(site, n, a):
                        continue
                    res.add("transitions")
                    step(site, n, a, where)
                    k = n.key()
                    if k in seen:
                        continue
                    seen.add(k)
                    res.add("states")
                    here = site.save()
                    todo.append((here, n))
                    if len(n.done) == len(late) + pick(2 if late else 4, 4 if late else 6):
                        res.add("endings")
                        finish(site, n.copy(), where)
                except (Bad, kering.KeriError, AttributeError, KeyError) as ex:
                    res.violation(where.replace(", ", ">"), f"{type(ex).__name__}: {ex}", dict(path=list(m.done + (a,))))
                    if res.full:
                        return
    finally:
        site.close()


LATE = ("ask p0", "ask q0", "wit q0", "told q0", "boss p0", "boss q0", "pass")


def main(res):
    jobs = [(a, pick(6, 10), ()) for a in ACTS if a in ("ask p0", "ask q0", "boss p0", "boss q0", "like p0", "like q0", "turn p", "wit q0", "told q5")]
    jobs += [(a, pick(4, 7), LATE) for a in ("sent p", "sent q", "pass", "undo", "turn p")]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("D01", "model_checking", main)
