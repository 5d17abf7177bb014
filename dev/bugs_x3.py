"""planted bugs over web requests"""
HT = "src/keri/app/httping.py"
EN = "src/keri/end/ending.py"
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, kind="kel"):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))


bug("x05-attachments-pile-up", "X03", HT,
    [("    cnt = 0\n    while ims:", "    cnt = 0\n    attachment = bytearray()\n    while ims:"),
     ("        attachment = bytearray()\n        while ims and ims[0] != 0x7b:", "        if attachment[:1] == ims[:1]:\n            attachment = bytearray()\n        while ims and ims[0] != 0x7b:")],
    "a stream in which a message without attachments follows one with attachments",
    "the second message arrives with the attachments of the first", """
from keri.app import httping


class Client:
    class requester:
        path = "/"
    sent = []

    def request(self, method, path, headers, body):
        self.sent.append((bytes(body), bytes(headers["CESR-ATTACHMENT"])))


e = icp([1], [2])
x = ixn(e.pre, 1, e.said)
assert httping.streamCESRRequests(Client(), bytearray(wire(e, sigs(e, [1])) + wire(x, sigs(x, [1]))), dest=key(9)) == 2
assert [a for _, a in Client.sent] == [wire(m, sigs(m, [1]))[len(m.raw):] for m in (e, x)]
Client.sent.clear()
httping.streamCESRRequests(Client(), bytearray(wire(e, sigs(e, [1])) + bytes(x.raw)), dest=key(9))
assert Client.sent[1] == (bytes(x.raw), b"")
""")
bug("x06-some-keys-suffice", "X03", HT,
    [("            if key not in markers:\n                return False", "            if key not in markers:\n                continue")],
    "a controller with several keys and a request signed by some of them only", "the request is let through", """
import json
from keri.app import httping
from keri.end import ending
w = World()
e = icp([1, 2], [3, 4])
receive(w, wire(e, sigs(e, [1, 2])))


class Hby:
    kevers = w.db.kevers


comp = httping.SignatureValidationComponent(Hby, e.pre)
ser = json.dumps(dict(a=1)).encode()


def check(*ks):
    ms = [S(k).sign(ser, index=k - 1) for k in ks]
    return comp.validate(ending.signature([ending.Signage(ms, True, None, None, None, None)])["Signature"], ser)


assert check(1, 2) and not check(1) and not check(2)
""")
bug("x07-slot-by-place", "X03", EN,
    [("                    tag = str(marker.index)", "                    tag = str(i)")],
    "indexed signatures given as a list that is not in the order of their indices, or leaves one out",
    "the signatures are read as those of other keys", """
from keri.end import ending
a, b = S(1).sign(b"x", index=0), S(2).sign(b"x", index=1)


def back(*ms):
    head = ending.signature([ending.Signage(list(ms), True, None, None, None, None)])["Signature"]
    return {k: m.qb64 for k, m in ending.designature(head)[0].markers.items()}


assert back(a, b) == {"0": a.qb64, "1": b.qb64}
assert back(b, a) == {"0": a.qb64, "1": b.qb64}
assert back(b) == {"1": b.qb64}
""")
