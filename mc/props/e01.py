"""A witness's web endpoints: what they receipt and tell.  Every sequence of posted events, good and bad, on the real endpoints of a
real witness; after each, receipts and logs are asked for in every way and given to a validator."""

import io

from ..kel import Clock, World, cig, icp, ixn, key, receive, rot, sigs, wig, wire, wit
from ..lib import Violation, explore_jobs, pick, run
from .m02 import Home, SALT
import falcon
from keri import kering
from keri.app import habbing, httping, indirecting
from keri.kering import Kinds


class Refusal(Exception):
    def __init__(self, *pa, **kwa):
        super().__init__(str(kwa or pa))


for _n in ("HTTPError", "HTTPBadRequest", "HTTPNotFound", "HTTPUnauthorized", "HTTPForbidden", "HTTPConflict"):
    setattr(falcon, _n, type(_n, (Refusal,), {}))
falcon.HTTP_200, falcon.HTTP_202, falcon.HTTP_204, falcon.HTTP_400, falcon.HTTP_404 = "200 OK", "202 Accepted", "204 No Content", "400 Bad", "404 Not"
falcon.HTTP_NOT_ACCEPTABLE, falcon.HTTP_PRECONDITION_FAILED = "406 No", "412 No"


class Req:
    def __init__(self, msg=None, serder=None, **params):
        self.method = "POST" if serder else "GET"
        self.content_type = httping.CESR_CONTENT_TYPE
        self.headers = {}
        if serder:
            self.bounded_stream = io.BytesIO(bytes(serder.raw))
            self.headers[httping.CESR_ATTACHMENT_HEADER] = bytes(msg[len(serder.raw):]).decode()
        self.params = {k: v for k, v in params.items() if v is not None}

    def get_param(self, name, **kwa):
        return self.params.get(name)

    def get_param_as_int(self, name, **kwa):
        return None if name not in self.params else int(self.params[name])


class Rep:
    status, data, text = None, b"", None

    def __init__(self):
        self.headers = {}

    def set_header(self, k, v):
        self.headers[k] = v


class Bad(Exception):
    pass


class Site(Home):
    def __init__(self):
        super().__init__(None)
        self.boot()
        self.hab = self.hby.makeHab(name="witness", transferable=False, version=kering.Vrsn_1_0, kind=Kinds.json)
        self.me = self.hab.pre
        self.end = indirecting.ReceiptEnd(hab=self.hab, version=kering.Vrsn_1_0)
        self.asks = indirecting.QueryEnd(hab=self.hab, reger=None)

    def boot(self):
        """a new process on the same files, that speaks version 1"""
        dict.clear(self.db.kevers)
        self.db.prefixes.clear()
        self.db.groups.clear()
        self.db.reload()
        self.hby = habbing.Habery(name="mc", temp=True, ks=self.ks, db=self.db, cf=self.cf, salt=SALT, bran=self.bran, version=kering.Vrsn_1_0)

    def save(self):
        return dict(self.db.env._disk.dbs), dict(dict.items(self.db.kevers))

    def load(self, snap):
        import copy
        self.db.env._disk.dbs = dict(snap[0])
        dict.clear(self.db.kevers)
        for p, k in snap[1].items():
            dict.__setitem__(self.db.kevers, p, copy.copy(k))
        for d in (self.hab.kvy.cues, self.hab.rvy.cues):
            d.clear()

    def call(self, fn, req):
        rep = Rep()
        try:
            fn(req, rep)
        except Refusal as ex:
            return "refused", ex
        except kering.KeriError as ex:
            return "refused", ex
        return str(rep.status)[:3], bytes(rep.data or b"")

    def log(self, pre):
        return [d if isinstance(d, str) else bytes(d).decode() for d in self.db.kels.getAllIter(keys=pre)]


def pool(me):
    """{name: (event, message)}, and who witnesses each"""
    two = [me, wit(2)]
    i = icp([1], [2], toad=1, raw=dict(b=two))
    x1, y1 = ixn(i.pre, 1, i.said), ixn(i.pre, 1, i.said, [dict(i=key(60))])
    z1 = ixn(i.pre, 1, i.said, [dict(i=key(61))])
    r1 = rot(i.pre, 1, i.said, [2], [3], toad=1)
    r2 = rot(i.pre, 2, x1.said, [2], [3], toad=1)
    c2 = rot(i.pre, 2, x1.said, [2], [3], toad=1, raw=dict(br=[me]))
    x2 = ixn(i.pre, 2, x1.said)
    f2 = rot(i.pre, 2, x1.said, [4], [5], toad=1)
    n = icp([11], [12])
    m1 = rot(n.pre, 1, n.said, [12], [13], toad=1, raw=dict(ba=[me]))
    u = ixn(icp([21], [22], toad=1, raw=dict(b=two)).pre, 1, i.said)
    ev = dict(i=(i, [1]), x1=(x1, [1]), y1=(y1, [1]), z1_forged=(z1, [5]), r1=(r1, [2]), r2=(r2, [2]), c2=(c2, [2]), x2=(x2, [1]),
              f2_keys=(f2, [4]), x2_old=(ixn(i.pre, 2, r1.said), [1]), n=(n, [11]), m1=(m1, [12]), u=(u, [21]))
    out = {k: (e, bytes(wire(e, sigs(e, ks)))) for k, (e, ks) in ev.items()}
    out["x1_bare"] = (x1, bytes(x1.raw))
    out["y1_as_x1"] = (y1, bytes(wire(y1, sigs(x1, [1]))))
    wits = {}
    for k, (e, _) in out.items():
        wits[e.said] = [] if k in ("c2", "n") else [me] if k == "m1" else two
    return out, wits


def check_receipt(site, evs, wits, said, data, where):
    """the bytes are a receipt of the event by the witness, as a validator with the log up to it takes it"""
    e = next(x for x, _ in evs.values() if x.said == said)
    head = b'{"v":"KERI10JSON'
    if not data.startswith(head) or f'"d":"{said}","i":"{e.pre}","s":"{e.sn:x}"'.encode() not in data:
        raise Bad(f"{where}: the receipt is about something else: {data[:160]}")
    far = World()
    try:
        by = {x.said: x for x, _ in evs.values()}
        line = [said]
        while by[line[0]].sn:
            line.insert(0, by[line[0]].ked["p"])
        for d in line:
            x, msg = next((x, m) for k, (x, m) in evs.items() if x.said == d and k not in ("x1_bare", "y1_as_x1"))
            ws = wits[d]
            receive(far, wire(x, sigs_of(msg, x), [wig(x, 2, ws.index(wit(2)))] if wit(2) in ws else []))
        before = {w.index for w in far.db.wigs.get(keys=(e.pre, said))}
        receive(far, data)
        far.kvy.processEscrows()
        after = {w.index for w in far.db.wigs.get(keys=(e.pre, said))}
        if site.me in wits[said] and wits[said].index(site.me) not in after:
            raise Bad(f"{where}: what is given is no receipt by the witness (a validator had signatures {before}, now {after})")
    finally:
        far.close()


KEYS = {}


def sigs_of(msg, x):
    return KEYS[bytes(msg)]


def probe(site, evs, wits, where, res):
    """everything that can be asked about what is in the log, and a little more"""
    for pre in sorted({e.pre for e, _ in evs.values()}):
        log = site.log(pre)
        by = {e.said: e for e, _ in evs.values()}
        top = max((by[d].sn for d in log), default=-1)
        for sn in range(top + 2):
            here = [d for d in log if by[d].sn == sn]
            status, data = site.call(site.end.on_get, Req(pre=pre, sn=sn))
            res.add("transitions")
            good = bool(here) and site.me in wits[here[-1]]
            if (status == "200") != good:
                raise Bad(f"{where}: receipt of number {sn} asked for: {status} {data!s:.80}")
            if good:
                check_receipt(site, evs, wits, here[-1], data, f"{where}, number {sn} asked for")
        for d, e in by.items():
            if e.pre == pre:
                status, data = site.call(site.end.on_get, Req(pre=pre, said=d))
                if d in log and site.me in wits[d]:
                    if status != "200":
                        raise Bad(f"{where}: receipt of {d} asked for: {status} {data!s:.80}")
                    check_receipt(site, evs, wits, d, data, f"{where}, {e.ilk} {e.sn} asked for by said")
                elif status == "200" and b"-" in data[data.rindex(b"}"):]:
                    raise Bad(f"{where}: signed receipt of {e.ilk} {e.sn} which is not in the log")
        for sn in [None] + list(range(top + 2)):
            status, data = site.call(site.asks.on_get, Req(typ="kel", pre=pre, sn=sn))
            want = [d for d in log if sn is None or by[d].sn >= sn]
            got = []
            if status == "200":
                got = [m[:44].decode() for m in data.split(b'"d":"')[1:] if m[:44].decode() in by]
            if sn is None:
                want, got = sorted(want), sorted(got)
            if [d for d in got] != want or (status != "200") != (sn is not None and sn > top):
                raise Bad(f"{where}: log from {sn} asked for: {status}, {len(got)} events, it has {len(want)}")


def job(res, j):
    first, depth = j
    Clock().install()
    site = Site()
    try:
        evs, wits = pool(site.me)
        for k, (e, m) in evs.items():
            who = dict(i=1, x1=1, y1=1, z1_forged=5, r1=2, r2=2, c2=2, x2=1, f2_keys=4, x2_old=1, n=11, m1=12, u=21).get(k)
            if who:
                KEYS[m] = sigs(e, [who])
        acts = list(evs) + ["escrows"]
        seen, todo = set(), [(site.save(), ())]
        for snap, path in todo:
            if len(path) >= depth:
                continue
            for act in ([first] if not path else acts):
                site.load(snap)
                here = path + (act,)
                where = ", ".join(here)
                try:
                    if act == "escrows":
                        site.hab.kvy.processEscrows()
                        cues = type(site.hab.kvy.cues)(c for c in site.hab.kvy.cues if c["kin"] != "query")
                        for _ in site.hab.processCuesIter(cues):          # as the witness does in the background
                            pass
                    else:
                        e, msg = evs[act]
                        before = site.log(e.pre)
                        status, data = site.call(site.end.on_post, Req(msg, e))
                        log = site.log(e.pre)
                        res.add("transitions")
                        now = site.db.kevers[e.pre].wits if e.pre in site.db.kevers else []
                        if status == "200":
                            if e.said not in log:
                                raise Bad(f"{where}: receipted, but not in the witness's log")
                            if site.me not in wits[e.said] and site.me not in now:
                                raise Bad(f"{where}: receipted by one who is no witness of it")
                            check_receipt(site, evs, wits, e.said, data, where)
                        elif e.said in log and site.me in wits[e.said] and site.me in now:
                            raise Bad(f"{where}: in the log and not receipted: {status} {data!s:.80}")
                        if set(before) - set(log):
                            raise Bad(f"{where}: events are gone from the log")
                    k = (tuple(tuple(site.log(p)) for p in sorted({e.pre for e, _ in evs.values()})),
                         tuple(sorted((n, tuple(sorted(t.items()))) for n, t in site.db.env._disk.dbs.items()
                                      if n in (b"ooes.", b"pses.", b"pwes.", b"ldes."))).__repr__())
                    if k not in seen:
                        seen.add(k)
                        res.add("states")
                        probe(site, evs, wits, where, res)
                        todo.append((site.save(), here))
                except Bad as ex:
                    res.violation(f"{'>'.join(here)}", str(ex), dict(path=list(here)))
                    if res.full:
                        return
    finally:
        site.close()


def main(res):
    names = list(pool(wit(1))[0]) + ["escrows"]
    explore_jobs(res, job, [(n, pick(4, 6)) for n in names])
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("E01", "model_checking", main)
