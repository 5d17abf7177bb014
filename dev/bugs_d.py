"""planted bugs over the delegation protocol"""
DE = "src/keri/app/delegating.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


HEAD = """
from keri import core, kering
from keri.app import habbing, delegating
from keri.core import coring, signing
VKW = dict(version=kering.Vrsn_1_0, kind=kering.Kinds.json)
Clock().install()
hby = habbing.Habery(name="asks", temp=True, salt=core.Salter(raw=b"A" * 16).qb64, version=kering.Vrsn_1_0)
boss = icp([31], [32])


def hear(e, ks):
    hby.psr.parse(bytearray(wire(e, sigs(e, ks))))
    assert hby.db.kels.getLast(keys=e.pre, on=e.sn) == e.said


hear(boss, [31])
proxy = hby.makeHab(name="proxy", **VKW)
w = signing.Signer(raw=b"W" * 32, transferable=False)
p = hby.makeHab(name="p", delpre=boss.pre, **VKW)
q = hby.makeHab(name="q", delpre=boss.pre, wits=[w.verfer.qb64], toad=1, **VKW)
swain = delegating.Anchorer(hby=hby, proxy=proxy, version=kering.Vrsn_1_0)
swain.extend = swain.remove = lambda doers: None


def approve(hab, sn, prior):
    y = ixn(boss.pre, sn, prior.said, [dict(i=hab.pre, s="0", d=hab.kever.serder.said)])
    hear(y, [31])
    return y


def requested():
    return [v["serder"].pre for v in swain.postman.evts if v["serder"].ilk == "dip"]


"""
bug("d01-superseded-approval", "D01", DE,
    [("dserder := self.hby.db.fetchLastSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal)",
      "dserder := self.hby.db.fetchAllSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal)")],
    "the delegator's interaction with the seal is superseded by a recovery rotation before the delegate looks",
    "an approval the delegator took back counts", HEAD + """
swain.delegation(pre=p.pre, sn=0)
swain.processEscrows()
approve(p, 1, boss)
hear(rot(boss.pre, 1, boss.said, [32], [33]), [32])
swain.processEscrows()
assert not hby.db.aess.get(keys=(p.pre, p.kever.serder.said))
""")
bug("d02-approval-before-rotation", "D01", DE,
    [("dserder := self.hby.db.fetchLastSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal)",
      "dserder := self.hby.db.fetchLastSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal, sn=dkever.lastEst.s)")],
    "the delegator rotates between giving its approval and the delegate's looking for it",
    "the approval is never found", HEAD + """
swain.delegation(pre=p.pre, sn=0)
swain.processEscrows()
y = approve(p, 1, boss)
hear(rot(boss.pre, 2, y.said, [32], [33]), [32])
swain.processEscrows()
assert hby.db.aess.get(keys=(p.pre, p.kever.serder.said))
""")
bug("d03-told-of-another", "D01", DE,
    [('if cue["pre"] == serder.pre and cue["sn"] == seqner.sn:', 'if cue["pre"] == serder.pre and cue["sn"] >= seqner.sn:')],
    "a cue about receipts of a later event of the same identifier comes before the one about this event",
    "the request goes out before the witnesses have one another's receipts", HEAD + """
x = q.kever.serder
swain.delegation(pre=q.pre, sn=0)
hby.db.wigs.add(keys=(x.pre, x.said), val=w.sign(x.raw, index=0))
swain.witDoer.cues.append(dict(pre=q.pre, sn=5, auths=None))
swain.processEscrows()
assert not requested()
swain.witDoer.cues.append(dict(pre=q.pre, sn=0, auths=None))
swain.processEscrows()
assert requested() == [q.pre]
""")
bug("d04-one-not-ready-stops-all", "D01", DE,
    [("            if not publisher.idle:\n                continue", "            if not publisher.idle:\n                break")],
    "two delegates, the publication of the first of them not sent yet when that of the other is",
    "a delegate is held up by another's publication", HEAD + """
r = hby.makeHab(name="r", delpre=boss.pre, **VKW)
one, two = sorted([p, r], key=lambda h: h.pre)
for h in (p, r):
    swain.delegation(pre=h.pre, sn=0)
swain.processEscrows()
y = approve(p, 1, boss)
approve(r, 2, y)
swain.processEscrows()
b = swain.publishers[two.pre]
while b.msgs:
    b.cues.append(b.msgs.popleft())
    b.posted += 1
swain.processEscrows()
assert swain.complete(coring.Prefixer(qb64=two.pre), coring.Number(num=0))
assert not swain.complete(coring.Prefixer(qb64=one.pre), coring.Number(num=0))
""")
