"""Replies: the best available one wins, whatever the order, the duplicates and the waiting.  Lockstep of the real
reply processing with a reference that knows only the rule: a reply of its own authority, signed enough, replaces
what is there exactly when it is later (by number of the keys' event, then by date)."""

from ..kel import (Clock, World, S, W, cig, icp, make, receive, rot, sig, sigs, wire, wit, key, kering, coring)
from ..lib import TIER, Violation, explore_jobs, pick, run
from . import k03
from keri.core import routing

T0 = "2021-06-27T21:26:21.233257+00:00"


def stamp(n):
    return f"2021-06-27T21:26:{10 + n:02d}.000000+00:00"


class Hub(World):
    """a validator with reply processing"""

    def __init__(self, **kwa):
        lax, local = kwa.pop("rlax", True), kwa.pop("rlocal", False)
        super().__init__(**kwa)
        self.odd = []
        self.wire(lax, local)

    def wire(self, lax, local):
        self.rvy = routing.Revery(db=self.db, rtr=routing.Router(), lax=lax, local=local)
        self.kvy.rvy = self.rvy
        self.kvy.registerReplyRoutes(router=self.rvy.rtr)
        real, odd = self.rvy.processReply, self.odd

        def watched(*pa, **kwa):
            try:
                return real(*pa, **kwa)
            except kering.ValidationError:
                raise
            except Exception as ex:
                odd.append(f"{type(ex).__name__}: {ex}")
                raise
        self.rvy.processReply = watched

    def take(self, msg, local=False):
        receive(self, msg, local=local, rvy=self.rvy)

    def settle(self):
        """escrows of events and replies"""
        self.kvy.processEscrows()
        self.rvy.processEscrowReply()


def rpy(route, data, dt):
    return make(v="KERI10JSON000000_", t="rpy", d="", dt=dt, r=route, a=data)


# ------------------------------------------------------------ the four kinds of replies
class EndRole:
    def __init__(self, aid, eid=None):
        self.keys = (aid, "controller", eid or wit(9))

    def reply(self, val, dt):
        return rpy("/end/role/" + ("add" if val else "cut"), dict(cid=self.keys[0], role=self.keys[1], eid=self.keys[2]), dt)

    def said(self, db):
        return db.eans.get(keys=self.keys)

    def value(self, db):
        r = db.ends.get(keys=self.keys)
        return r and int(r.allowed)


class Loc:
    def __init__(self, aid):
        self.keys = (aid, "http")

    def reply(self, val, dt):
        return rpy("/loc/scheme", dict(eid=self.keys[0], scheme="http", url=f"http://h{val}/"), dt)

    def said(self, db):
        return db.lans.get(keys=self.keys)

    def value(self, db):
        r = db.locs.get(keys=self.keys)
        return r and int(r.url[8])


class Watched:
    def __init__(self, aid):
        self.keys = (aid, wit(8), key(33))

    def reply(self, val, dt):
        return rpy(f"/watcher/{self.keys[1]}/" + ("add" if val else "cut"), dict(cid=self.keys[0], oid=self.keys[2]), dt)

    def said(self, db):
        return db.wwas.get(keys=self.keys)

    def value(self, db):
        r = db.obvs.get(keys=self.keys)
        return r and int(r.enabled)


KINDS = dict(end=EndRole, loc=Loc, watched=Watched)


class Case:
    def __init__(self, kind, two=True):
        """aid's log: keys [1,2] both needed, then [3,4] of which one is enough"""
        self.evs = [icp([1, 2], [3, 4]), None]
        self.evs[1] = rot(self.evs[0].pre, 1, self.evs[0].said, [3, 4], [5], kt="1")
        self.ks = [[1, 2], [3, 4]]
        self.need = [2, 1]
        self.aid = self.evs[0].pre
        self.kind = KINDS[kind](self.aid)
        self.acts = []           # (name, wire, meaning)
        self.info = {}           # said -> (value, date, n)

    def events(self, *ns):
        for n in ns:
            self.acts.append((f"event{n}", wire(self.evs[n], sigs(self.evs[n], self.ks[n])), ("event", n)))

    def re(self, n, val, dt):
        r = self.kind.reply(val, stamp(dt))
        self.info[r.said] = (val, dt, n)
        return r

    def signed(self, r, *groups):
        """groups: (number of the keys' event, positions, forged)"""
        tsgs, mean = [], []
        for s, at, *bad in groups:
            ss = [sig(r, 30 if bad and bad[0] else self.ks[s][i], i) for i in at]
            tsgs.append((self.aid, s, self.evs[s].said, ss))
            mean.append((s, frozenset() if bad and bad[0] else frozenset(at)))
        v, dt, n = self.info[r.said]
        self.acts.append((f"R{n}={v}@{dt}" + "".join(f"/{s}:{''.join(map(str, at))}{'!' if b else ''}" for s, at, *b in groups),
                          b"".join(wire(r, tsgs=[t]) if i == 0 else b"" for i, t in enumerate(tsgs)) if len(tsgs) == 1
                          else multi(r, tsgs), ("reply", r.said, tuple(mean))))


def multi(r, tsgs):
    from ..kel import ctr, huge
    out = bytearray(r.raw)
    out += (ctr("F", len(tsgs)) + "".join(p + huge(s) + d + ctr("A", len(ss)) + "".join(x.qb64 for x in ss)
                                          for p, s, d, ss in tsgs)).encode()
    return bytes(out)


def basics(kind):
    """three replies, each by either keys"""
    c = Case(kind)
    c.events(0, 1)
    a, b, d = c.re(0, 1, 0), c.re(1, 0, 1), c.re(2, 1, 2)
    for r in (a, b, d):
        c.signed(r, (0, (0, 1)))
        c.signed(r, (1, (0,)))
    return c


def partials(kind):
    """signatures of replies arrive one by one"""
    c = Case(kind)
    c.events(0, 1)
    a, b = c.re(0, 1, 0), c.re(1, 0, 1)
    for r in (a, b):
        c.signed(r, (0, (0,)))
        c.signed(r, (0, (1,)))
    c.signed(a, (1, (1,)))
    return c


def mixed(kind):
    """several groups of signatures on one reply, some not good"""
    c = Case(kind)
    c.events(0, 1)
    a, b = c.re(0, 1, 0), c.re(1, 0, 1)
    c.signed(a, (0, (0,)), (1, (0,)))
    c.signed(a, (0, (0, 1)), (1, (0,)))
    c.signed(b, (1, (0,)), (0, (0, 1)))
    c.signed(b, (0, (0,)))
    c.signed(a, (0, (0, 1), True))
    c.signed(b, (1, (0,), True))
    c.signed(b, (0, (0, 1)))
    return c


def sametime(kind):
    """same date"""
    c = Case(kind)
    c.events(0, 1)
    a, b = c.re(0, 1, 1), c.re(1, 0, 1)
    if c.info[a.said][0] != c.info[b.said][0]:
        for r in (a, b):
            c.signed(r, (0, (0, 1)))
            c.signed(r, (1, (0,)))
    c.signed(a, (0, (1,)))
    return c


CASES = dict(basics=basics, partials=partials, mixed=mixed, sametime=sametime)


class Ref:
    """what the rule says.  held: (said, s) -> good positions waiting"""

    def __init__(self, c):
        self.c, self.cur, self.known, self.held = c, None, 0, {}

    def copy(self):
        r = Ref(self.c)
        r.cur, r.known, r.held = self.cur, self.known, dict(self.held)
        return r

    def ident(self):
        return (self.cur, self.known, tuple(sorted((k, tuple(sorted(v))) for k, v in self.held.items())))

    def later(self, said, s):
        if self.cur is None:
            return True
        csaid, cs = self.cur
        if said == csaid:
            return s > cs
        return (s, self.c.info[said][1]) > (cs, self.c.info[csaid][1])

    def group(self, said, s, good):
        """one group of signatures comes in (or out of escrow)"""
        good = good | self.held.get((said, s), frozenset())
        if not good or not self.later(said, s):
            return
        if s < self.known and len(good) >= self.c.need[s]:
            self.cur = (said, s)
            self.held.pop((said, s), None)
        else:
            self.held[(said, s)] = good

    def act(self, mean):
        if mean[0] == "event":
            if mean[1] == self.known:
                self.known += 1
            elif mean[1] > self.known:
                self.wait = True
        elif mean[0] == "reply":
            for s, good in mean[2]:
                self.group(mean[1], s, good)

    def passes(self, told):
        """all that waits gets another try; of several equally late ones any may win"""
        got = [(said, s) for (said, s), good in self.held.items()
               if s < self.known and len(good) >= self.c.need[s] and self.later(said, s)]
        if got:
            best = max((s, self.c.info[said][1]) for said, s in got)
            tied = [x for x in got if (x[1], self.c.info[x[0]][1]) == best]
            self.cur = next((x for x in tied if x[0] == told), tied[0])
            del self.held[self.cur]


def told(c, w):
    said = c.kind.said(w.db)
    return said and said.qb64


def compare(c, w, ref, name, here):
    db, show = w.db, f"{name}, history {list(here)}"

    def bad(what):
        raise Violation(f"{name}:{here}", f"{show}: {what}")
    if w.odd:
        bad(f"processing raised {w.odd}")
    said = c.kind.said(db)
    said = said and said.qb64
    want = ref.cur and ref.cur[0]
    if said != want:
        bad(f"the reply in force is {said and c.info[said]}, must be {want and c.info[want]} (value, date, number)")
    val = c.kind.value(db)
    if val != (want and c.info[want][0]):
        bad(f"the recorded value is {val}, the reply in force says {want and c.info[want][0]}")
    if said:
        r = db.rpys.get(keys=(said,))
        if r is None or r.said != said:
            bad("the reply in force is not stored")
        dt = db.sdts.get(keys=(said,))
        if dt is None or dt.dts != r.ked["dt"]:
            bad(f"the date of the reply in force is stored as {dt and dt.dts}")
        got = {}
        for (_, p, s, d, *_), sg in db.tsgs.getTopItemIter(keys=(said, "")):
            got.setdefault((p, int(s, 16), d), set()).add(sg.index)
            if int(s, 16) == ref.cur[1] and not S(c.ks[ref.cur[1]][sg.index]).verfer.verify(sg.raw, r.raw):
                bad("a signature stored with the reply in force does not verify")
        s = ref.cur[1]
        if len(got.get((c.aid, s, c.evs[s].said), ())) < c.need[s]:
            bad(f"the signatures stored with the reply in force are {got}, must suffice for keys of event {s}")


def job(res, spec):
    kind, cname, lead, limit = spec
    clock = Clock().install()
    pause = 4000 if len(cname) % 2 else 86405       # more than an hour, more than a day
    c = CASES[cname](kind)
    name = f"{kind}/{cname}"
    w = Hub()
    acts = [(n, m, k) for n, m, k in c.acts] + [("escrows", None, ("escrows",)), ("anhour", None, ("late",))]

    def go(a, ref):
        """one step of both"""
        w.odd.clear()
        if a[2][0] == "escrows":
            w.settle()
            ref.passes(told(c, w))
        elif a[2][0] == "late":
            clock.ahead(pause)
            w.rvy.processEscrowReply()
            ref.passes(told(c, w))
            ref.held.clear()
            clock.ahead(-pause)
        else:
            w.take(a[1])
            ref.act(a[2])
    try:
        ref = Ref(c)
        # an out of order event goes into escrow: deliver the log in order or not at all
        path = ()
        for i in lead:
            if acts[i][2] == ("event", 1) and ref.known == 0:
                return
            go(acts[i], ref)
            path += (acts[i][0],)
        compare(c, w, ref, name, path)
        seen = {(k03.ident(w), ref.ident())}
        todo = [(w.save(), ref, path)]
        while todo:
            snap, ref, path = todo.pop(0)
            res.add("states")
            if len(path) == limit:
                continue
            for a in acts:
                if a[2] == ("event", 1) and ref.known == 0:
                    continue
                w.restore(snap)
                nref = ref.copy()
                go(a, nref)
                res.add("transitions")
                here = path + (a[0],)
                compare(c, w, nref, name, here)
                k = (k03.ident(w), nref.ident())
                if k not in seen:
                    seen.add(k)
                    todo.append((w.save(), nref, here))
    finally:
        w.close()


# ------------------------------------------------------------ several places, and signatures by others
def places():
    """wires with their meaning: (place, value, date) of good ones, None of those that must do nothing"""
    evs = [icp([1], [2]), icp([4], [5])]
    a, b = (e.pre for e in evs)
    x, y = wit(5), wit(6)
    out = []

    def add(name, msg, place=None, val=None, dt=None):
        out.append((name, msg, place and (place, val, dt)))

    def tsg(n, r, k):
        return [(evs[n].pre, 0, evs[n].said, [sig(r, k, 0)])]

    def loc(eid, scheme, n, dt):
        return rpy("/loc/scheme", dict(eid=eid, scheme=scheme, url=f"{scheme}://h{n}/"), stamp(dt))

    def end(cid, role, eid, on, dt):
        return rpy("/end/role/" + ("add" if on else "cut"), dict(cid=cid, role=role, eid=eid), stamp(dt))

    for eid, w in ((x, 5), (y, 6)):
        for scheme in ("http", "tcp"):
            for n, dt in ((1, 0), (2, 1), (3, 1)) if (eid, scheme) == (x, "http") else ((4, 0),):
                r = loc(eid, scheme, n, dt)
                add(f"loc{w}{scheme}{n}@{dt}", wire(r, cigs=[cig(r, w)]), ("loc", eid, scheme), n, dt)
    r = loc(x, "http", 7, 3)
    add("forged cig", wire(r, cigs=[forge(r, 5)]))
    add("cig by other", wire(r, cigs=[cig(r, 6)]))
    add("sig by other", wire(r, tsgs=tsg(0, r, 1)))
    add("cigs by other and self", wire(loc(x, "tcp", 8, 2), cigs=[cig(loc(x, "tcp", 8, 2), 6), cig(loc(x, "tcp", 8, 2), 5)]),
        ("loc", x, "tcp"), 8, 2)
    r = loc(a, "http", 1, 0)
    add("locA", wire(r, tsgs=tsg(0, r, 1)), ("loc", a, "http"), 1, 0)
    r = loc(a, "http", 0, 2)
    add("locA removed", wire(rpy("/loc/scheme", dict(eid=a, scheme="http", url=""), stamp(2)), tsgs=tsg(
        0, rpy("/loc/scheme", dict(eid=a, scheme="http", url=""), stamp(2)), 1)), ("loc", a, "http"), 0, 2)
    r = end(a, "watcher", x, True, 0)
    add("endA", wire(r, tsgs=tsg(0, r, 1)), ("end", a, "watcher", x), 1, 0)
    r = end(a, "watcher", x, False, 1)
    add("endA by B", wire(r, tsgs=tsg(1, r, 4)))
    add("endA by B's key", wire(r, tsgs=tsg(0, r, 4)))
    add("endA by eid", wire(r, cigs=[cig(r, 5)]))
    add("endA with B's event", wire(r, tsgs=[(a, 0, evs[1].said, [sig(r, 1, 0)])]))
    add("endA cut", wire(r, tsgs=tsg(0, r, 1)), ("end", a, "watcher", x), 0, 1)
    r = end(a, "mailbox", x, True, 0)
    add("endA mailbox", wire(r, tsgs=tsg(0, r, 1)), ("end", a, "mailbox", x), 1, 0)
    r = end(a, "watcher", y, True, 0)
    add("endA y", wire(r, tsgs=tsg(0, r, 1)), ("end", a, "watcher", y), 1, 0)
    r = end(b, "watcher", x, True, 0)
    add("endB", wire(r, tsgs=tsg(1, r, 4)), ("end", b, "watcher", x), 1, 0)
    r = end(a, "chief", x, True, 4)
    add("no such role", wire(r, tsgs=tsg(0, r, 1)))
    r = rpy("/loc/scheme", dict(eid=a, scheme="http", url="tcp://h1/"), stamp(4))
    add("no such url", wire(r, tsgs=tsg(0, r, 1)))
    for scheme, url in (("http", "https://h1/"), ("https", "http://h1/"), ("tcp", "http://h1/")):
        r = rpy("/loc/scheme", dict(eid=a, scheme=scheme, url=url), stamp(4))
        add(f"{scheme} with {url}", wire(r, tsgs=tsg(0, r, 1)))
    r = rpy("/loc/schemata", dict(eid=a, url="tcp://h1/"), stamp(4))
    add("missing field", wire(r, tsgs=tsg(0, r, 1)))
    r = rpy("/end/roles", dict(cid=a, role="watcher", eid=x), stamp(4))
    add("no such route", wire(r, tsgs=tsg(0, r, 1)))
    r = end(a, "watcher", x, False, 4)
    add("changed", wire(r, tsgs=tsg(0, r, 1)).replace(b'"role":"watcher"', b'"role":"mailbox"'))
    add("no signature", wire(r))
    return evs, out


def forge(ev, w):
    c = cig(ev, w, raw=b"something else")
    return c


def placed(db):
    """everything recorded: place -> (value, said)"""
    out = {}
    for keys, r in db.locs.getTopItemIter():
        out[("loc",) + keys] = int(r.url.split("//h")[1][0]) if r.url else 0
    for keys, r in db.ends.getTopItemIter():
        out[("end",) + keys] = int(r.allowed)
    return out


def others(res, spec):
    first, depth, own = spec
    Clock().install()
    evs, acts = places()
    a = evs[0].pre
    lax, local, mine = own
    w = Hub(rlax=lax, rlocal=local)
    try:
        for e, k in zip(evs, (1, 4)):
            w.take(wire(e, sigs(e, [k])))
        owned = {a, wit(5)} if mine else set()
        w.db.prefixes.update(owned)

        def step(act, ref):
            w.odd.clear()
            w.take(act[1])
            if act[2]:
                place, val, dt = act[2]
                if place[1] in owned and not lax and not local:
                    return ref
                if place not in ref or ref[place][1] < dt:
                    ref = dict(ref)
                    ref[place] = (val, dt)
            return ref

        def judge(ref, path):
            got, want = placed(w.db), {p: v for p, (v, dt) in ref.items()}
            show = f"lax={lax}, local={local}, own={bool(mine)}, history {list(path)}"
            if w.odd:
                raise Violation(f"others:{path[-1]}", f"{show}: processing raised {w.odd}")
            if got != want:
                raise Violation(f"others:{path[-1]}", f"{show}: recorded {got}, must be {want}")
            n = len([1 for _ in w.db.rpys.getTopItemIter()])
            if n != len(want):
                raise Violation(f"others:{path[-1]}", f"{show}: {n} replies stored for {len(want)} places")
            if [1 for _ in w.db.rpes.getTopItemIter()]:
                raise Violation(f"others:{path[-1]}", f"{show}: a reply waits though all is known")

        path = (acts[first][0],)
        ref = step(acts[first], {})
        judge(ref, path)
        todo, seen = [(w.save(), ref, path)], {k03.ident(w)}
        while todo:
            snap, ref, path = todo.pop(0)
            res.add("states")
            if len(path) == depth:
                continue
            for act in acts:
                w.restore(snap)
                w.db.prefixes.update(owned)
                nref = step(act, ref)
                res.add("transitions")
                here = path + (act[0],)
                judge(nref, here)
                k = k03.ident(w)
                if k not in seen:
                    seen.add(k)
                    todo.append((w.save(), nref, here))
    finally:
        w.close()


def main(res):
    jobs = []
    for kind in KINDS:
        for cname in CASES:
            limit = pick(4 if kind != "end" or cname == "mixed" else 5, 6)
            n = len(CASES[cname](kind).acts)
            jobs += [("t", (kind, cname, (i, j), limit)) for i in range(n) for j in range(n + 2)]
    n = len(places()[1])
    owns = [(True, False, 0), (False, False, 0), (False, False, 1), (False, True, 1), (True, False, 1)]
    jobs += [("o", (i, pick(2, 3), own)) for own in owns for i in range(n)]
    explore_jobs(res, part, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def part(res, spec):
    dict(t=job, o=others)[spec[0]](res, spec[1])


def check():
    return run("K09", "model_checking", main)
