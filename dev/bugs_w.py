"""planted bugs over watchers"""
WA = "src/keri/app/watching.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


HEAD = """
from keri import core
from keri.app import habbing, watching
from keri.core import coring
from keri.recording import KeyStateRecord, ObservedRecord
hby = habbing.Habery(name="asks", temp=True, salt=core.Salter(raw=b"A" * 16).qb64)
hab = hby.makeHab(name="asks")
mine = hab.kever.state()


def report(i, by=None, enabled=True, **kwa):
    aid = wit(i)
    hab.db.obvs.pin(keys=(by or hab.pre, aid, hab.pre), val=ObservedRecord(enabled=enabled))
    said = coring.Diger(ser=f"report {i}".encode())
    hab.db.knas.pin(keys=(hab.pre, aid), val=said)
    hab.db.ksns.pin(keys=(said.qb64,), val=KeyStateRecord._fromdict(dict(mine._asdict(), **kwa)))


def cues(toad=None):
    adj = watching.Adjudicator(hby=hby, hab=hab)
    adj.adjudicate(hab.pre, toad)
    return [c["kin"] for c in adj.cues]


"""
bug("w01-put-off-watcher-heard", "W01", WA,
    [("            if observed.enabled and oid == watched:", "            if oid == watched:")],
    "a watcher that was put off still has a report kept from before",
    "its report counts", HEAD + """
report(1)
assert cues() == ["keyStateConsistent"]
report(2, enabled=False, d=digs(7)[0] if isinstance(digs(7), (list, tuple)) else dig(7))
assert cues() == ["keyStateConsistent"]
""")
bug("w02-watchers-of-others", "W01", WA,
    [("getTopItemIter(keys=(self.hab.pre,))", "getTopItemIter()")],
    "a database of several identifiers with watchers of their own",
    "reports by those the identifier never asked to watch count, and so does their silence", HEAD + """
report(1, s="1", d=dig(7))
assert cues() == ["keyStateUpdate"]
report(2, by=wit(9))
assert cues() == ["keyStateUpdate"]
""")
bug("w03-agreement-of-ahead-only", "W01", WA,
    [("        toad = int(toad) if toad else len(watchers)\n", "        toad = int(toad) if toad else max(1, len(watchers) - 1)\n")],
    "no threshold given and all watchers but one ahead at the same event",
    "a new state is taken without the consent of all", HEAD + """
report(1, s="1", d=dig(7))
report(2, s="1", d=dig(7))
report(3)
assert cues() == []
assert cues(2) == ["keyStateUpdate"]
""")
