"""planted bugs over the witness's web endpoints"""
IN = "src/keri/app/indirecting.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


HEAD = """
import io
import falcon
from keri import core, kering
from keri.app import habbing, httping, indirecting


class Refusal(Exception):
    def __init__(self, *pa, **kwa):
        super().__init__(str(kwa or pa))


for n in ("HTTPError", "HTTPBadRequest", "HTTPNotFound"):
    setattr(falcon, n, type(n, (Refusal,), {}))
falcon.HTTP_200, falcon.HTTP_202, falcon.HTTP_400 = "200 OK", "202 Accepted", "400 Bad"


class Req:
    def __init__(self, msg=None, serder=None, **params):
        self.method = "POST" if serder else "GET"
        self.content_type = httping.CESR_CONTENT_TYPE
        self.headers = {}
        if serder:
            self.bounded_stream = io.BytesIO(bytes(serder.raw))
            self.headers[httping.CESR_ATTACHMENT_HEADER] = bytes(msg[len(serder.raw):]).decode()
        self.params = params

    def get_param(self, name, **kwa):
        return self.params.get(name)

    get_param_as_int = get_param


class Rep:
    status, data, text = None, b"", None

    def set_header(self, k, v):
        pass


hby = habbing.Habery(name="asks", temp=True, salt=core.Salter(raw=b"A" * 16).qb64, version=kering.Vrsn_1_0)
hab = hby.makeHab(name="asks", transferable=False, version=kering.Vrsn_1_0, kind=kering.Kinds.json)
end = indirecting.ReceiptEnd(hab=hab, version=kering.Vrsn_1_0)
asks = indirecting.QueryEnd(hab=hab, reger=None)
two = [hab.pre, wit(2)]


def call(fn, req):
    rep = Rep()
    try:
        fn(req, rep)
    except Refusal:
        return "refused", b""
    return rep.status[:3], rep.data


def post(e, ks):
    return call(end.on_post, Req(bytes(wire(e, sigs(e, ks))), e))


i = icp([1], [2], toad=1, raw=dict(b=two))
assert post(i, [1])[0] == "200"
"""
bug("e01-superseded-receipt", "E01", IN,
    [("            said = self.hab.db.kels.getLast(keys=preb, on=sn)\n        if said is None:",
      "            said = next(iter(self.hab.db.kels.get(keys=preb, on=sn)), None)\n        if said is None:")],
    "a receipt asked for by number, at a place where an interaction was superseded by a recovery rotation",
    "the receipt is of the event that no longer holds", HEAD + """
x, r = ixn(i.pre, 1, i.said), rot(i.pre, 1, i.said, [2], [3], toad=1)
assert post(x, [1])[0] == "200"
status, data = call(end.on_get, Req(pre=i.pre, sn=1))
assert status == "200" and x.said.encode() in data
assert post(r, [2])[0] == "200"
status, data = call(end.on_get, Req(pre=i.pre, sn=1))
assert status == "200" and r.said.encode() in data, data
""")
bug("e02-log-without-recovered", "E01", IN,
    [("                for dig in self.hab.db.kels.getAllIter(keys=pre, on=sn):", "                for dig in [self.hab.db.kels.getLast(keys=pre, on=n) for n in range(sn, self.hab.kevers[pre].sner.num + 1)]:")],
    "a log asked for from a number, that has a superseded event at or after it",
    "the superseded event is left out, so the log is not told as it is", HEAD + """
x, y, r = ixn(i.pre, 1, i.said), None, rot(i.pre, 1, i.said, [2], [3], toad=1)
assert post(x, [1])[0] == "200"
assert call(asks.on_get, Req(typ="kel", pre=i.pre, sn=0))[1].count(b'"t":"ixn"') == 1
assert post(r, [2])[0] == "200"
status, data = call(asks.on_get, Req(typ="kel", pre=i.pre, sn=0))
assert status == "200" and data.count(b'"t":') == 3, data
""")
bug("e03-receipt-by-current-witnesses", "E01", IN,
    [("            wits = [wit.qb64 for wit in self.hab.kvy.fetchWitnessState(pre, serder.sn)]", "            wits = self.hab.kevers[pre].wits")],
    "a receipt of an earlier event asked for after a later rotation changed the witnesses",
    "a witness that was cut no longer gives the receipts it gave", HEAD + """
x = ixn(i.pre, 1, i.said)
assert post(x, [1])[0] == "200"
c = rot(i.pre, 2, x.said, [2], [3], toad=1, raw=dict(br=[hab.pre]))
wired = wire(c, sigs(c, [2]), [wig(c, 2, 0)])
call(end.on_post, Req(bytes(wired), c))
status, data = call(end.on_get, Req(pre=i.pre, sn=1))
assert status == "200" and x.said.encode() in data, status
""")
