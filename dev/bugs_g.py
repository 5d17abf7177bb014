"""planted bugs over groups"""
GR = "src/keri/app/grouping.py"
HB = "src/keri/app/habbing.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


GROUP = """
from keri import core, kering
from keri.app import grouping, habbing, notifying
from keri.core import coring, eventing, parsing, serdering
from keri.peer import exchanging
V1, JSON = kering.Vrsn_1_0, kering.Kinds.json
Clock().install()


class Member:
    def __init__(self, n):
        self.hby = habbing.Habery(name=f"member{n}", temp=True, salt=core.Salter(raw=bytes([65 + n]) * 16).qb64)
        self.mhab = self.hby.makeHab(name=f"member{n}", version=V1, kind=JSON)
        self.mux = grouping.Multiplexor(self.hby, notifier=notifying.Notifier(hby=self.hby, noter=notifying.Noter(name=f"member{n}", temp=True, reopen=True)))
        self.exc = exchanging.Exchanger(hby=self.hby, handlers=[])
        grouping.loadHandlers(self.exc, self.mux)
        self.counselor = grouping.Counselor(hby=self.hby, version=V1, kind=JSON)
        self.kvy = eventing.Kevery(db=self.hby.db, lax=False, local=False)

    def hear(self, msg):
        parsing.Parser(framed=True, version=V1).parse(ims=bytearray(msg), kvy=self.kvy, exc=self.exc, local=False)
        self.settle()

    def settle(self):
        self.kvy.processEscrows()
        self.counselor.processEscrows()

    def sent(self, exn, atc):
        local = parsing.Parser(version=V1).parse(ims=bytearray(exn.raw + atc), framed=True, processive=False)[0]
        self.mux.exc.logEvent(serder=local.serder, pathed=local.ptds, tsgs=local.tsgs, cigars=local.cigars, essrs=local.essrs)
        self.mux.add(local.serder)
        e = serdering.SerderKERI(sad=[v for k, v in exn.ked["e"].items() if k != "d"][0])
        self.counselor.start(ghab=self.ghab, prefixer=coring.Prefixer(qb64=e.pre), number=coring.Number(num=e.sn), diger=coring.Diger(qb64=e.said))
        self.settle()
        return bytes(exn.raw) + bytes(atc)

    def found(self, mids, **kwa):
        self.ghab = self.hby.makeGroupHab(group="group", mhab=self.mhab, smids=mids, version=V1, kind=JSON, toad=0, wits=[], **kwa)
        evt = self.ghab.msgOwnInception(allowPartiallySigned=True, framed=True, gvrsn=V1)
        return self.sent(*grouping.multisigInceptExn(self.mhab, smids=mids, rmids=mids, icp=evt, version=V1, kind=JSON))

    def interact(self):
        evt = self.ghab.interact(framed=True, version=V1, kind=JSON, gvrsn=V1)
        return self.sent(*grouping.multisigInteractExn(ghab=self.ghab, aids=self.ghab.smids, ixn=evt, version=V1, kind=JSON))

    def rotate(self, mids, serder=None, **kwa):
        if serder is None:
            ks = [self.hby.kevers[a] for a in mids]
            evt = self.ghab.rotate(toad=0, verfers=[k.verfers[0] for k in ks], digers=[k.ndigers[0] for k in ks], framed=True, version=V1, gvrsn=V1, kind=JSON, **kwa)
        else:
            evt = self.ghab.rotate(serder=serder, smids=mids, rmids=mids, framed=True, gvrsn=V1)
        return serdering.SerderKERI(raw=bytes(evt)), self.sent(*grouping.multisigRotateExn(ghab=self.ghab, smids=mids, rmids=mids, rot=evt, version=V1, kind=JSON))

    @property
    def sn(self):
        return len(list(self.hby.db.kels.getAllIter(keys=self.ghab.pre))) - 1

    def done(self, n):
        return self.counselor.complete(coring.Prefixer(qb64=self.ghab.pre), coring.Number(num=n))


def all_hear(members, msgs):
    for n, m in enumerate(members):
        for x, msg in enumerate(msgs):
            if x != n:
                m.hear(msg)


ms = [Member(n) for n in range(3)]
all_hear(ms, [bytes(m.mhab.replay(gvrsn=V1)) for m in ms])
mids = [m.mhab.pre for m in ms]
"""

bug("g01-places-as-now", "G01", HB,
    [("                    pni = digs.index(mig)  # find mhab dig index in group hab digs",
      "                    pni = csi if mig in digs else None  # find mhab dig index in group hab digs")],
    "a group rotation in which the members have other places among the keys than before",
    "their signatures claim the wrong place among the keys promised before and the group cannot go on", GROUP + """
all_hear(ms, [m.found(mids, isith="2", nsith="2") for m in ms])
assert [m.sn for m in ms] == [0, 0, 0]
all_hear(ms, [bytes(m.mhab.rotate(framed=True, version=V1, kind=JSON, gvrsn=V1)) for m in ms])
new = [mids[2], mids[0], mids[1]]
rot, a = ms[0].rotate(new, isith="2", nsith="2")
_, b = ms[1].rotate(new, serder=rot)
ms[0].hear(b)
ms[1].hear(a)
assert (ms[0].sn, ms[1].sn) == (1, 1), [m.sn for m in ms]
""")

bug("g02-last-proposal-only", "G01", GR,
    [("""            for diger in digers:
                self._replayApproved(diger.qb64)
""", """            self._replayApproved(digers[-1].qb64)
""")],
    "the messages of two other members arrive before the own approval, and all three signatures are needed",
    "all but the last message heard before the approval are forgotten and the member waits forever", GROUP + """
a, b = (m.found(mids, isith="3", nsith="3") for m in ms[:2])
ms[2].hear(a)
ms[2].hear(b)
ms[2].found(mids, isith="3", nsith="3")
assert ms[2].sn == 0
assert ms[2].done(0)
""")

bug("g03-done-with-any-event", "G01", GR,
    [("            sdig = self.hby.db.kels.getLast(keys=pre, on=number.sn)\n            if sdig:",
      "            kever = self.hby.kevers.get(pre)\n            sdig = kever.serder.said if kever else None\n            if sdig:")],
    "the group process looked at while an event after the first still lacks signatures",
    "the process counts as complete though the group has not agreed", GROUP + """
all_hear(ms, [m.found(mids, isith="2", nsith="2") for m in ms])
assert all(m.done(0) for m in ms)
ms[0].interact()
assert ms[0].sn == 0 and not ms[0].done(1)
""")

bug("g04-key-of-last-turn", "G01", HB,
    [("        sn, csi, merfer = result  # unpack result\n",
      "        sn, csi, merfer = result  # unpack result\n        merfer = self.mhab.kever.verfers[0]\n")],
    "a member that has turned its own key since the group's keys were last set signs an event of the group",
    "the member signs with a key that is not the group's", GROUP + """
all_hear(ms, [m.found(mids, isith="2", nsith="2") for m in ms])
all_hear(ms, [bytes(m.mhab.rotate(framed=True, version=V1, kind=JSON, gvrsn=V1)) for m in ms])
all_hear(ms, [m.interact() for m in ms])
assert [m.sn for m in ms] == [1, 1, 1], [m.sn for m in ms]
""")
