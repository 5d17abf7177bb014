"""planted bugs over what is answered at an OOBI"""
HA = "src/keri/app/habbing.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


HEAD = """
from keri import core, kering
from keri.app import habbing
V1 = kering.Vrsn_1_0
VKW = dict(version=V1, kind=kering.Kinds.json)
Clock().install()


def stamp(n):
    return f"2021-06-27T21:26:{n:02}.000000+00:00"


def agent(name):
    return habbing.Habery(name=name, temp=True, salt=core.Salter(raw=name[:1].encode() * 16).qb64, version=V1)


def hear(hby, msg, local=False):
    hby.psr.parse(bytearray(msg), local=local)


def loc(k, url):
    r = make(v="KERI10JSON000000_", t="rpy", d="", dt=stamp(1), r="/loc/scheme", a=dict(eid=wit(k), scheme="http", url=url))
    return wire(r, cigs=[cig(r, k)])


one, far = agent("one"), agent("far")
w = one.makeHab(name="w", transferable=False, **VKW)
c = one.makeHab(name="c", **VKW)
f = icp([1], [2], toad=1, raw=dict(b=[w.pre, wit(2)]))
hear(one, wire(f, sigs(f, [1]), [wig(f, 2, 1)]), local=True)
for k in (2, 4):
    hear(one, loc(k, f"http://h{k}/"))


def role(k, what, allow=True, n=1):
    hear(one, c.makeEndRole(eid=wit(k), role=what, allow=allow, stamp=stamp(n), gvrsn=V1, **VKW), local=True)


"""
bug("o05-cut-endpoint-told", "O02", HA,
    [("            if (end.enabled or end.allowed) and (not role or role == erole) and (not eids or eid in eids):\n                msgs.extend(self.loadLocScheme(eid=eid, scheme=scheme,\n                                               gvrsn=gvrsn))\n                msgs.extend(self.loadEndRole(cid=cid, eid=eid, role=erole,\n                                             gvrsn=gvrsn))\n\n        return msgs\n\n\n    def replyToOobi",
      "            if (not role or role == erole) and (not eids or eid in eids):\n                msgs.extend(self.loadLocScheme(eid=eid, scheme=scheme,\n                                               gvrsn=gvrsn))\n                msgs.extend(self.loadEndRole(cid=cid, eid=eid, role=erole,\n                                             gvrsn=gvrsn))\n\n        return msgs\n\n\n    def replyToOobi")],
    "an endpoint that was authorized and later cut", "the location of a cut endpoint is still given out", HEAD + """
role(4, "agent")
hear(far, c.replyToOobi(aid=c.pre, role="agent", gvrsn=V1))
assert far.db.locs.get(keys=(wit(4), "http"))
role(4, "agent", allow=False, n=2)
new = agent("new")
hear(new, c.replyToOobi(aid=c.pre, role="agent", gvrsn=V1))
assert c.pre in new.kevers and not new.db.locs.get(keys=(wit(4), "http"))
""")
bug("o06-speaks-for-other-witness", "O02", HA,
    [("                    if eid == self.pre:\n                        msgs.extend(self.replyLocScheme", "                    if witness:\n                        msgs.extend(self.replyLocScheme")],
    "an identifier with two witnesses, asked for at one of them that knows where the other is",
    "the other's location comes under this one's signature and is not believed", HEAD + """
hear(far, w.replyToOobi(aid=f.pre, role="witness", gvrsn=V1))
assert f.pre in far.kevers and far.db.locs.get(keys=(wit(2), "http"))
""")
bug("o07-one-witness-asked-all-told", "O02", HA,
    [("                for eid in kever.wits:\n                if not eids or eid in eids:\n                    if eid == self.pre:" if False else
      "            for eid in kever.wits:\n                if not eids or eid in eids:\n                    if eid == self.pre:",
      "            for eid in kever.wits:\n                if not eids or eid in eids or witness:\n                    if eid == self.pre:")],
    "a witness asked about another endpoint of an identifier it witnesses, in the role of witness",
    "endpoints that were not asked for are given out", HEAD + """
hear(one, w.makeLocScheme(url="http://me/", scheme="http", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
hear(far, w.replyToOobi(aid=f.pre, role="witness", eids=[w.pre], gvrsn=V1))
assert far.db.locs.get(keys=(w.pre, "http")) and not far.db.locs.get(keys=(wit(2), "http"))
""")
