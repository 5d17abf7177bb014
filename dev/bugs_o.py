"""planted bugs over introductions by link"""
OO = "src/keri/app/oobiing.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


NET = """
from collections import deque
from keri import core, kering
from keri.app import habbing, oobiing
from keri.core import scheming
from keri.recording import OobiRecord
clock = Clock().install()


class Net:
    def __init__(self):
        self.asked = {}
        self.count = 0

    def request(self, method, url, **kwa):
        self.count += 1
        self.asked[url] = type("C", (), dict(responses=deque(), url=url))()
        return self.asked[url]

    def remove(self, client):
        if self.asked.get(client.url) is client:
            del self.asked[client.url]


hby = habbing.Habery(name="asks", temp=True, salt=core.Salter(raw=b"A" * 16).qb64)
net = Net()
oo = oobiing.Oobiery(hby=hby, clienter=net, version=kering.Vrsn_1_0)
ev = icp([1], [2])
A, LOG = ev.pre, bytes(wire(ev, sigs(ev, [1])))
M, L1, L2 = (f"http://127.0.0.1:56{n}/oobi/{A}/witness" for n in ("01", "02", "03"))


def tell(url, alias=None):
    hby.db.oobis.pin(keys=(url,), val=OobiRecord(oobialias=alias, date=clock.now.isoformat()))
    go()


def answer(url, status=200, ctype="application/cesr", body=b""):
    net.asked[url].responses.append(dict(status=status, headers={"Content-Type": ctype}, body=bytearray(body)))
    go()


def go():
    for _ in range(4):
        oo.processFlows()


def state(url):
    rec = hby.db.roobi.get(keys=(url,))
    return rec.state if rec else None


LIST = make(v="KERI10JSON000000_", t="rpy", d="", dt="2021-06-27T21:26:21.233257+00:00", r="/oobi/witness", a=dict(aid=A, urls=[L1, L2])).raw
"""

bug("o01-last-of-list", "O01", OO,
    [("                if robr.state == Result.failed:\n                    result = Result.failed\n",
      "                result = robr.state\n")],
    "a link that leads to several, of which the first fails and the last does not",
    "the whole counts as resolved though a part of it failed", NET + """
tell(M)
answer(M, ctype="application/json", body=LIST)
answer(L1, status=500)
assert state(M) is None
answer(L2, body=LOG)
assert (state(L1), state(L2), state(M)) == ("failed", "resolved", "failed"), state(M)
""")

bug("o02-retry-at-once", "O01", OO,
    [("                obr.date = toIso8601(now)\n", "")],
    "a link that is not found twice, the second time within the delay",
    "from then on it is asked for again without any delay", NET + """
tell(M)
answer(M, status=404)
clock.ahead(31)
go()
assert net.count == 2
answer(M, status=404)
assert net.count == 2 and M not in net.asked
clock.ahead(31)
go()
assert net.count == 3
""")

bug("o03-alias-lost-in-list", "O01", OO,
    [("            obr.oobialias = mobr.oobialias\n", "")],
    "a link told with a name that leads to several",
    "the contact never gets the name it was told under", NET + """
tell(M, "Max")
answer(M, ctype="application/json", body=LIST)
answer(L1, body=LOG)
answer(L2, body=LOG)
assert state(M) == "resolved"
assert [c.get("alias") for c in oo.org.list()] == ["Max"]
""")

bug("o04-any-schema", "O01", OO,
    [("""                        if schemer.said == obr.said:
                            self.hby.db.schema.pin(keys=(schemer.said,), val=schemer)
                            result = Result.resolved
                        else:
                            result = Result.failed

                        obr.state = result
""", """                        self.hby.db.schema.pin(keys=(schemer.said,), val=schemer)
                        if schemer.said == obr.said:
                            result = Result.resolved
                        else:
                            result = Result.failed

                        obr.state = result
""")],
    "a schema sent as plain json in answer to a link that names another, or none",
    "a schema no one asked for is kept", NET + """
S = [scheming.Schemer(sed={"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": t, "type": "object"}) for t in ("one", "two")]
url = f"http://127.0.0.1:5604/oobi/{S[0].said}"
tell(url)
answer(url, ctype="application/json", body=S[1].raw)
assert state(url) == "failed"
assert hby.db.schema.get(keys=(S[1].said,)) is None
tell(url)
answer(url, ctype="application/json", body=S[0].raw)
assert state(url) == "resolved" and hby.db.schema.get(keys=(S[0].said,)) is not None
""")
