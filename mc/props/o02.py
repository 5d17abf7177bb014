"""What an agent answers at its OOBI endpoint: every combination of what it may hold about its own identifiers, one it witnesses, one it
does not and their endpoints, every request; each answer is given to a controller that knows nothing and compared with what is held."""

import itertools

from ..kel import Clock, icp, ixn, sigs, cig, wig, wire, wit
from ..lib import explore_jobs, pick, run
from .k09 import rpy, stamp
from .m02 import Home, SALT
import falcon
from keri import kering
from keri.app import habbing
from keri.end import ending
from keri.kering import Kinds

V1 = kering.Vrsn_1_0
VKW = dict(version=V1, kind=Kinds.json)
falcon.HTTP_200, falcon.HTTP_NOT_FOUND, falcon.HTTP_NOT_ACCEPTABLE = "200 OK", "404 Not Found", "406 No"


class Rep:
    status, data, text, content_type = None, b"", None, None

    def __init__(self):
        self.headers = {}

    def set_header(self, k, v):
        self.headers[k] = v


class Bad(Exception):
    pass


class Agent(Home):
    def __init__(self):
        super().__init__(None)
        self.boot()

    def boot(self):
        dict.clear(self.db.kevers)
        self.db.prefixes.clear()
        self.db.groups.clear()
        self.db.reload()
        self.hby = habbing.Habery(name="mc", temp=True, ks=self.ks, db=self.db, cf=self.cf, salt=SALT, bran=self.bran, version=V1)

    def save(self):
        return dict(self.db.env._disk.dbs), dict(dict.items(self.db.kevers))

    def load(self, snap):
        import copy
        self.db.env._disk.dbs = dict(snap[0])
        dict.clear(self.db.kevers)
        for p, k in snap[1].items():
            dict.__setitem__(self.db.kevers, p, copy.copy(k))
        self.hby.kvy.cues.clear()

    def hear(self, msg, local=False):
        self.hby.psr.parse(bytearray(msg), local=local)
        self.hby.kvy.processEscrows()
        self.hby.rvy.processEscrowReply()

    def ends(self):
        return {k: bool(e.allowed) for k, e in self.db.ends.getTopItemIter()}

    def locs(self):
        return {k: e.url for k, e in self.db.locs.getTopItemIter()}


# name: how it may be (0 absent)
FACTS = dict(w=3, far=2, tcp=2, near=3, agent=3, box=2, fagent=2, more=3, spare=2)


class Server(Agent):
    def __init__(self):
        super().__init__()
        self.w = self.hby.makeHab(name="w", transferable=False, **VKW)
        self.c = self.hby.makeHab(name="c", wits=[wit(2)], toad=1, **VKW)
        e = self.c.kever.serder
        self.db.wigs.add(keys=(e.pre, e.said), val=wig(e, 2, 0))
        self.f = icp([1], [2], toad=1, raw=dict(b=[self.w.pre, wit(2)]))
        self.g = icp([21], [22])
        self.hear(wire(self.f, sigs(self.f, [1]), [wig(self.f, 2, 1)]), local=True)
        self.hear(wire(self.g, sigs(self.g, [21])))
        self.x = ixn(self.f.pre, 1, self.f.said)
        assert self.f.pre in self.hby.kevers and self.g.pre in self.hby.kevers
        self.end = ending.OOBIEnd(hby=self.hby, default=self.c.pre)
        self.start = self.save()

    def hold(self, fact, n):
        loc = lambda k, scheme, url, t: (lambda r: wire(r, cigs=[cig(r, k)]))(rpy("/loc/scheme", dict(eid=wit(k), scheme=scheme, url=url), stamp(t)))
        c, w = self.c, self.w
        if fact == "w":
            self.hear(w.makeLocScheme(url="http://me/", scheme="http", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
            self.hear(w.makeEndRole(eid=w.pre, role="controller", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
            if n == 2:
                self.hear(w.makeLocScheme(url="http://moved/", scheme="http", stamp=stamp(2), gvrsn=V1, **VKW), local=True)
        elif fact == "far":
            self.hear(loc(4, "http", "http://four/", 1))
        elif fact == "tcp":
            self.hear(loc(4, "tcp", "tcp://four/", 1))
        elif fact == "near":
            self.hear(loc(2, "http", "http://two/", 1))
            if n == 2:
                self.hear(loc(2, "http", "", 2))
        elif fact == "agent":
            self.hear(c.makeEndRole(eid=wit(4), role="agent", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
            if n == 2:
                self.hear(c.makeEndRole(eid=wit(4), role="agent", allow=False, stamp=stamp(2), gvrsn=V1, **VKW), local=True)
        elif fact == "spare":
            self.hear(c.makeEndRole(eid=wit(5), role="agent", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
        elif fact == "box":
            self.hear(c.makeEndRole(eid=wit(2), role="mailbox", stamp=stamp(1), gvrsn=V1, **VKW), local=True)
        elif fact == "fagent":
            r = rpy("/end/role/add", dict(cid=self.f.pre, role="agent", eid=wit(4)), stamp(1))
            self.hear(wire(r, tsgs=[(self.f.pre, 0, self.f.said, sigs(r, [1]))]))
        elif fact == "more":
            self.hear(wire(self.x, sigs(self.x, [1]), [wig(self.x, 2, 1)] if n == 2 else []), local=True)


def expected(s, facts, aid, role, eid):
    """None: no answer; else the ends and locations the asker is to know"""
    if aid == s.g.pre or aid not in s.hby.kevers or (aid == s.f.pre and facts["more"] == 1):
        return None
    have, ends, locs = s.ends(), {}, {}
    about = [k for k, on in have.items() if k[0] == aid and on and role in (None, k[1]) and eid in (None, k[2])]
    ends.update({k: True for k in about})
    eids = {k[2] for k in about}
    if role == "witness":
        wits = [p for p in s.hby.kevers[aid].wits if eid in (None, p)]
        eids |= set(wits)
        if aid == s.c.pre:
            ends.update({(aid, "witness", p): True for p in wits})
    locs = {k: u for k, u in s.locs().items() if k[0] in eids}
    return ends, locs


def job(res, j):
    fixed = dict(j)
    Clock().install()
    s, far = Server(), Agent()
    blank = far.save()
    try:
        names = list(FACTS)
        # what is there
        for combo in itertools.product(*([fixed[n]] if n in fixed else range(FACTS[n]) for n in names)):
            facts = dict(zip(names, combo))
            s.load(s.start)
            for n, v in facts.items():
                if v:
                    s.hold(n, v)
            want_ends = {(s.w.pre, "controller", s.w.pre): True} if facts["w"] else {}
            if facts["agent"]:
                want_ends[(s.c.pre, "agent", wit(4))] = facts["agent"] == 1
            for n, k in (("spare", (s.c.pre, "agent", wit(5))), ("box", (s.c.pre, "mailbox", wit(2))), ("fagent", (s.f.pre, "agent", wit(4)))):
                if facts[n]:
                    want_ends[k] = True
            if s.ends() != want_ends:
                raise Bad(f"harness: {s.ends()} {want_ends}")
            res.add("states")
            before = s.save()[0]
            for aid in (None, s.c.pre, s.w.pre, s.f.pre, s.g.pre, wit(9)):
                for role in (None, "witness", "agent", "mailbox", "controller"):
                    for eid in (None, wit(2), wit(4), s.w.pre, wit(9)) if role and aid else (None,):
                        rep = Rep()
                        s.end.on_get(None, rep, **{k: v for k, v in (("aid", aid), ("role", role), ("eid", eid)) if v})
                        res.add("transitions")
                        who = aid or s.c.pre
                        label = {None: "default", s.c.pre: "own", s.w.pre: "witness", s.f.pre: "witnessed", s.g.pre: "foreign"}.get(aid, "unknown")
                        at = {None: "any", s.w.pre: "me", wit(2): "w2", wit(4): "w4"}.get(eid, "other")
                        here = f"{','.join(f'{k}={v}' for k, v in facts.items())}: {label}/{role}/{at}"
                        want = expected(s, facts, who, role, eid)
                        if want is None:
                            if rep.status[:3] not in ("404", "406") or rep.data:
                                res.violation(here, f"{here}: answered {rep.status} with {len(rep.data or b'')} bytes")
                            continue
                        if rep.status[:3] != "200" or rep.headers.get("KERI-AID") != who:
                            res.violation(here, f"{here}: answered {rep.status} {rep.headers}")
                            continue
                        far.load(blank)
                        far.hear(rep.data)
                        got = far.ends(), far.locs()
                        if (far.hby.kevers[who].serder.said if who in far.hby.kevers else None) != s.hby.kevers[who].serder.said:
                            res.violation(here, f"{here}: the asker does not know the log afterwards")
                        elif got != want:
                            res.violation(here, f"{here}: the asker has ends {got[0]}, locations {got[1]}, held are {want}")
            if s.save()[0] != before:
                res.violation("changes", "being asked changed what is held")
            if res.full:
                return
    finally:
        s.close()
        far.close()


def main(res):
    quick = pick(dict(tcp=1, far=1, spare=1), {})
    jobs = []
    for a in range(FACTS["agent"]):
        for w in range(FACTS["w"]):
            for n in range(FACTS["near"]):
                jobs.append(tuple(dict(quick, agent=a, w=w, near=n).items()))
    if quick:
        jobs += [tuple(dict(tcp=t, far=f, spare=0, agent=1, w=1, near=1, box=1).items()) for t in (0, 1) for f in (0, 1)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("O02", "model_checking", main)
