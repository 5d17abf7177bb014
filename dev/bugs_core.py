"""planted bugs in the core, demonstrated on the shim"""
EV = "src/keri/core/eventing.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


bug("c01-recovery-of-rotation", "K01", EV,
    [("ilk == Ilks.rot and sner.num <= self.lastEst.s", "ilk == Ilks.rot and sner.num < self.lastEst.s"),
     ("                      (ilk == Ilks.rot and  # superseding recovery rot or\n                        kever.lastEst.s < sn <= sno) or",
      "                      (ilk == Ilks.rot and  # superseding recovery rot or\n                        kever.lastEst.s <= sn <= sno) or")],
    "a rotation at the number of the last establishment event, arriving after a later interaction was accepted",
    "a rotation supersedes an earlier rotation: the log is rewritten below its last establishment event",
    """
w = World()
i = icp([0], [1]); p = i.pre
r = rot(p, 1, i.said, [1], [2])
x = ixn(p, 2, r.said)
r2 = rot(p, 1, i.said, [2], [3])
for e, k in ((i, 0), (r, 1), (x, 1)):
    assert w.event(e, [sig(e, k)]) == "ok"
w.event(r2, [sig(r2, 2)])
assert w.state(p)["d"] == x.said, "last establishment event was superseded"
""")

bug("c02-restart-drops-trait", "K05", EV,
    [("        if self.doNotDelegate:\n            cnfg.append", "        if self.doNotDelegate and not self.estOnly:\n            cnfg.append")],
    "an identifier with both traits, a restart, and then a delegated inception approved by it",
    "the do-not-delegate trait is forgotten with the restart",
    """
w = World()
i = icp([0], [1], cnfg=("EO", "DND"))
assert w.event(i, [sig(i, 0)]) == "ok"
assert w.state(i.pre)["nd"] is True
w.reboot()
assert w.state(i.pre)["nd"] is True, "trait lost"
""")

bug("c03-escrow-loses-witness-sigs", "K02", EV,
    [("        if wigers:\n            self.db.wigs.put(keys=dgkey, vals=wigers)\n        if delsner and delsger:\n            self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent\n\n        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)\n        # update event source\n",
      "        if wigers and not delsner:\n            self.db.wigs.put(keys=dgkey, vals=wigers)\n        if delsner and delsger:\n            self.db.udes.put(keys=dgkey, val=(delsner, delsger))  # idempotent\n\n        self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)\n        # update event source\n")],
    "", "", "raise SystemExit(1)")
BUGS.pop()

bug("c04-witness-threshold-when-cut", "K01", EV,
    [("        if (witset & cutset) != cutset:  # some cuts not in wits\n            raise ValidationError(f", "        if cutset and not (witset & cutset):  # some cuts not in wits\n            raise ValidationError(f"),
     ("        if len(wits) != (len(priors) - len(cuts) + len(adds)):  # redundant?", "        if len(wits) < (len(priors) - len(cuts) + len(adds)):  # redundant?")],
    "a rotation that cuts one real witness and one that is none",
    "a rotation that cuts a witness that is none is accepted",
    """
w = World()
i = icp([0], [1], wits=(0, 1, 2), toad=1); p = i.pre
assert w.event(i, [sig(i, 0)], [wig(i, 0, 0), wig(i, 1, 1), wig(i, 2, 2)]) == "ok"
r = rot(p, 1, i.said, [1], [2], toad=1, cuts=(0, 5))
v = w.event(r, [sig(r, 1)], [wig(r, 1, 0), wig(r, 2, 1)])
assert w.state(p)["sn"] == 0 and v != "ok", v
""")

bug("c05-supersede-at-same-delegating-event", "K06", EV,
    [("                if nindex > oindex:  # superseding delegation seal is later", "                if nindex >= oindex or len(nseals) > 2:  # superseding delegation seal is later")],
    "a delegating event with three seals, the superseding one before the superseded one",
    "an earlier seal in the same delegating event supersedes a later one",
    "raise SystemExit(1)")
BUGS.pop()

bug("c06-delegation-seal-other-number", "K06", EV,
    [("                    if (dseal.i == serder.pre and\n                        dseal.s == serder.sner.numh and\n                        serder.compare(said=dseal.d)):",
      "                    if (dseal.i == serder.pre and\n                        dseal.s == serder.sner.numh):")],
    "a second delegated rotation at the number for which the delegator approved another one",
    "the delegator's approval of one event counts for any event at the same number",
    """
w = World()
b = icp([0], [1])
assert w.event(b, [sig(b, 0)]) == "ok"
d = icp([4], [5], di=b.pre)
a = ixn(b.pre, 1, b.said, data=[seal(d)])
assert w.event(a, [sig(a, 0)]) == "ok"
assert w.event(d, [sig(d, 4)], delsner=coring.Number(num=1), delsger=coring.Diger(qb64=a.said)) == "ok"
r = rot(d.pre, 1, d.said, [5], [6], ilk="drt")
q = rot(d.pre, 1, d.said, [5], [7], ilk="drt")
a2 = ixn(b.pre, 2, a.said, data=[seal(r)])
assert w.event(a2, [sig(a2, 0)]) == "ok"
w.event(q, [sig(q, 5)], delsner=coring.Number(num=2), delsger=coring.Diger(qb64=a2.said))
assert w.state(d.pre)["sn"] == 0, "unapproved rotation accepted"
assert w.event(r, [sig(r, 5)], delsner=coring.Number(num=2), delsger=coring.Diger(qb64=a2.said)) == "ok"
""")

bug("c07-receipt-by-last-keys", "K10", EV,
    [("                    siger.verfer = sverfers[siger.index]  # assign verfer\n                    if siger.verfer.verify(siger.raw, serder.raw):  # verify sig\n\n                        keys = (pre, serder.said,",
      "                    siger.verfer = sverfers[siger.index]  # assign verfer\n                    if siger.verfer.verify(siger.raw, serder.raw) or siger.index:  # verify sig\n\n                        keys = (pre, serder.said,")],
    "", "", "raise SystemExit(1)")
BUGS.pop()

bug("c08-cut-role-leaves-older-add", "K09", EV,
    [("        elif route.startswith(\"/end/role/cut\"):\n            allowed = False", "        elif route.startswith(\"/end/role/cut\"):\n            allowed = None")],
    "a role that was granted before and is then cut",
    "a cut of a role is recorded as accepted but the role stays granted",
    """
from keri.core import routing
w = World()
rtr = routing.Router(); rvy = routing.Revery(db=w.db, rtr=rtr)
w.kvy.rvy = rvy
w.kvy.registerReplyRoutes(rtr)
i = icp([0], [1]); p = i.pre
assert w.event(i, [sig(i, 0)]) == "ok"


def say(route, dt):
    r = make(v=VS, t="rpy", d="", dt=dt, r=route, a=dict(cid=p, role="watcher", eid=wit(3)))
    rvy.processReply(serder=r, tsgs=[(coring.Prefixer(qb64=p), coring.Number(num=0), coring.Diger(qb64=i.said), [sig(r, 0)])])


say("/end/role/add", "2021-06-27T21:26:21.000000+00:00")
assert w.db.ends.get(keys=(p, "watcher", wit(3))).allowed is True
say("/end/role/cut", "2021-06-27T21:26:22.000000+00:00")
assert not w.db.ends.get(keys=(p, "watcher", wit(3))).allowed, "role is still granted"
""")
