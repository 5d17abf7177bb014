"""Signed web requests: every combination of what each key signed, in what order and form, of headers merged from several signers, and of
the controller's key state; the header written reads as what was written."""

import io
import itertools
import json

from ..kel import Clock, S, World, cig, icp, ixn, key, rct, receive, rot, sigs, wig, wire, wit
from ..lib import explore_jobs, pick, run
from keri import kering
import falcon
from keri.app import httping, indirecting
from keri.core import indexing, signing
from keri.end import ending
from keri.core.coring import Diger

BODY = dict(a="b", n=[1, dict(x=None)])
SER = json.dumps(BODY).encode()
OTHER = json.dumps(dict(BODY, a="c")).encode()


class Bad(Exception):
    pass


class Hby:
    def __init__(self, kevers):
        self.kevers = kevers


class Req:
    def __init__(self, head, media):
        self.headers = {} if head is None else {"SIGNATURE": head}
        self.media = media


class Rep:
    complete, status = False, None


HOW = ("good", "none", "other body", "other key", "old key", "slot")


def marker(how, i, keys, old, indexed):
    """the signature in slot i"""
    k = keys[i]
    ser = SER
    if how == "other body":
        ser = OTHER
    elif how == "other key":
        k = 77
    elif how == "old key":
        k = old[i % len(old)]
    elif how == "slot":                         # another of the keys signed in this slot
        k = keys[(i + 1) % len(keys)]
    return S(k).sign(ser, index=i) if indexed else S(k).sign(ser)


def stands(how, i, keys, old):
    return how == "good" or (how == "slot" and len(keys) == 1) or (how == "old key" and old[i % len(old)] == keys[i])


def world(n, turned):
    w = World()
    e = icp(list(range(1, n + 1)), list(range(11, 11 + n)))
    receive(w, wire(e, sigs(e, list(range(1, n + 1)))))
    keys, old = list(range(1, n + 1)), [51]
    if turned:
        r = rot(e.pre, 1, e.said, list(range(11, 11 + n)), list(range(21, 21 + n)))
        receive(w, wire(r, sigs(r, list(range(11, 11 + n)))))
        keys, old = list(range(11, 11 + n)), list(range(1, n + 1))
    if w.db.kevers[e.pre].sn != int(turned):
        raise Bad("harness")
    return w, e.pre, keys, old


def requests(res, n, turned):
    w, pre, keys, old = world(n, turned)
    try:
        for indexed in (True, False):
            for hows in itertools.product(HOW, repeat=n):
                own = {str(i): marker(h, i, keys, old, indexed) for i, h in enumerate(hows) if h != "none"}
                good = all(stands(h, i, keys, old) for i, h in enumerate(hows))
                for form in ("dict", "reversed", "list", "spaced", "another after"):
                    if not own:
                        continue
                    ms = dict(reversed(list(own.items()))) if form == "reversed" else list(own.values()) if form == "list" else own
                    if form == "list" and not indexed:
                        continue
                    signages = [ending.Signage(markers=ms, indexed=indexed, signer=None, ordinal=None, digest=None, kind=None)]
                    if form == "another after":
                        signages.append(ending.Signage(markers={"0": S(88).sign(SER, index=0)}, indexed=True, signer=None, ordinal=None, digest=None,
                                                       kind="CESR"))
                    head = ending.signature(signages)["Signature"]
                    if form == "spaced":
                        head = head.replace(";", " ; ").replace(",", " , ")
                    for media in (BODY, dict(BODY, a="c")):
                        ok = good if media is BODY else all(h == "other body" for h in hows)
                        for who in (pre, icp([5], [6]).pre):
                            comp = httping.SignatureValidationComponent(Hby(w.db.kevers), who)
                            rep = Rep()
                            comp.process_request(Req(head, media), rep)
                            passed = not rep.complete
                            res.add("transitions")
                            want = ok and who == pre
                            if passed != want:
                                here = f"{n} keys{', rotated' if turned else ''}, {','.join(hows)}, {form}, {'indexed' if indexed else 'plain'}, " \
                                       f"{'same' if media is BODY else 'changed'} body, {'own' if who == pre else 'unknown'} controller"
                                res.violation(here, f"{here}: {'let through' if passed else 'refused'}")
                res.add("states")
        # no usable signature at all
        for head in (None, "", "x", 'indexed="?1"', '0="AA"', f'indexed="?1";0="{"A" * 88}"'):
            rep = Rep()
            try:
                httping.SignatureValidationComponent(Hby(w.db.kevers), pre).process_request(Req(head, BODY), rep)
            except Exception:                    # the web framework answers 500, nothing is done
                continue
            res.add("transitions")
            if not rep.complete:
                res.violation(f"head {head}", f"{n} keys, header {head!r}: let through")
    finally:
        w.close()


def headers(res):
    """what is written is read"""
    s1, s2 = S(1).sign(SER, index=0), S(2).sign(SER, index=1)
    c1, c2 = S(1).sign(SER), S(2).sign(SER)
    d = Diger(ser=b"x").qb64
    sets = [("indexed", True, [s1]), ("indexed", True, [s1, s2]), ("indexed", True, [s2, s1]), ("plain", False, [c1]), ("plain", False, [c1, c2])]
    one = []
    for (_, indexed, ms), named, auto, signer, ordinal, digest, kind in itertools.product(
            sets, (False, True), (False, True), (None, icp([1], [2]).pre), (None, "0", "a"), (None, d), (None, "CESR")):
        markers = {f"tag{i}": m for i, m in enumerate(ms)} if named else ms
        one.append((ending.Signage(markers=markers, indexed=None if auto else indexed, signer=signer, ordinal=ordinal, digest=digest, kind=kind),
                    indexed, ms, named))
    few = one[::7]
    for group in [(g,) for g in one] + list(itertools.product(few, repeat=2)):
        head = ending.signature([g[0] for g in group])["Signature"]
        back = ending.designature(head)
        res.add("transitions")
        if len(back) != len(group):
            res.violation("groups", f"{len(group)} signers written, {len(back)} read: {head}")
            return
        for (sg, indexed, ms, named), b in zip(group, back):
            tags = [f"tag{i}" for i in range(len(ms))] if named else [str(m.index) if indexed else m.verfer.qb64 for m in ms]
            want = (dict(zip(tags, [m.qb64 for m in ms])), indexed, sg.signer, sg.ordinal, sg.digest, "CESR")
            got = ({k: m.qb64 for k, m in b.markers.items()}, b.indexed, b.signer, b.ordinal, b.digest, b.kind)
            if want != got or any(hasattr(m, "index") != indexed for m in b.markers.values()):
                res.violation(f"header {head[:60]}", f"written {want}, read {got}")
                return
    res.add("states", len(one))


class Client:
    """takes the requests"""
    class requester:
        path = "/"

    def __init__(self):
        self.sent = []

    def request(self, method, path, headers, body):
        self.sent.append((method, path, {k: v for k, v in headers.items()}, bytes(body)))


class Post:
    method = "POST"

    def __init__(self, headers, body):
        self.headers = {k.upper(): v if isinstance(v, str) else bytes(v).decode() if isinstance(v, (bytes, bytearray)) else str(v)
                        for k, v in headers.items()}
        self.content_type = self.headers.get("CONTENT-TYPE")
        self.bounded_stream = io.BytesIO(body)


class Answer:
    status, stream = None, None

    def set_header(self, k, v):
        pass


def messages():
    from keri.core import eventing
    from keri.peer import exchanging
    from .k09 import rpy, stamp
    i = icp([1], [2], wits=(1,), toad=1, data=())
    x = ixn(i.pre, 1, i.said, [dict(i=key(60)), dict(a='{"v":"KERI10JSON000000_"}', b="é\n\"")])
    r = rot(i.pre, 2, x.said, [2], [3], toad=1)
    c = rct(i.pre, 0, i.said)
    y = rpy("/end/role/add", dict(cid=i.pre, role="agent", eid=wit(4)), stamp(1))
    q = eventing.query(pre=i.pre, route="logs", query=dict(i=i.pre, s="0"), stamp=stamp(2), pvrsn=kering.Vrsn_1_0, kind="JSON")
    two = eventing.incept(keys=[key(1)], pvrsn=kering.Vrsn_2_0, gvrsn=kering.Vrsn_2_0, kind="JSON")
    return dict(icp=wire(i, sigs(i, [1]), [wig(i, 1, 0)]), ixn=wire(x, sigs(x, [1])), rot=wire(r, sigs(r, [2])), bare=bytes(i.raw),
                rct=wire(c, cigs=[cig(i, 1)]), rpy=wire(y, tsgs=[(i.pre, 0, i.said, sigs(y, [1]))]), qry=wire(q, cigs=[cig(q, 4)]),
                v2=bytes(two.raw))


def carried(res):
    """a stream goes over as requests and arrives as it was"""
    falcon.HTTP_200, falcon.HTTP_204 = "200 OK", "204 No Content"
    pool = messages()
    for n in range(1, pick(3, 4) + 1):
        for names in itertools.product(pool, repeat=n):
            msgs = [pool[k] for k in names]
            for whole in (True, False) if n == 1 else (True,):
                client, rxbs = Client(), bytearray()
                if whole:
                    cnt = httping.streamCESRRequests(client, bytearray(b"".join(msgs)), dest=key(9), path="/in")
                else:
                    cnt = 1
                    httping.createCESRRequest(bytearray(msgs[0]), client, dest=key(9), path="/in")
                res.add("transitions")
                here = f"{'>'.join(names)}{'' if whole else ' alone'}"
                if cnt != n or len(client.sent) != n:
                    res.violation(here, f"{here}: {n} messages, {cnt} counted, {len(client.sent)} requests")
                    continue
                end = indirecting.HttpEnd(rxbs=rxbs)
                for (method, path, heads, body), msg in zip(client.sent, msgs):
                    if (method, path, heads.get("CESR-DESTINATION"), int(heads["Content-Length"])) != ("POST", "/in", key(9), len(body)):
                        res.violation(here, f"{here}: request {method} {path} {heads}")
                    at = len(rxbs)
                    end.on_post(Post(heads, body), Answer())
                    if bytes(rxbs[at:]) != msg:
                        res.violation(here, f"{here}: sent {msg[:80]}.. ({len(msg)}), arrived {bytes(rxbs[at:])[:80]}.. ({len(rxbs) - at})")
                        break
            res.add("states")
            if res.full:
                return


def job(res, j):
    Clock().install()
    if isinstance(j, tuple):
        requests(res, *j)
    else:
        j(res)


def main(res):
    explore_jobs(res, job, [headers, carried] + [(n, t) for n in range(1, pick(3, 4) + 1) for t in (False, True)])
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("X03", "model_checking", main)
