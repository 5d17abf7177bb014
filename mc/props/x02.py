"""Issuance and presentation exchanges (IPEX).  Every order of conversations between two parties, of rivals, of messages of the
wrong kind and of other protocols that name the same message, with waiting signatures, restarts and deaths, against a reference of
which message answers which."""

import datetime

from ..kel import Clock, Died, cig, ctr, sig, sigs, wire
from ..lib import Violation, explore_jobs, pick, run
from . import x01
from .x01 import Bad, Desk, Msg, Party, exn
from keri.vc import protocoling

AFTER = dict(apply=("",), offer=("", "apply"), agree=("offer",), grant=("", "agree"), admit=("grant",),
             spurn=("apply", "offer", "agree", "grant"))
BASE = x01.BASE


class Notes:
    """collects what the user is notified of"""

    def __init__(self):
        self.log = []

    def add(self, attrs):
        self.log.append((attrs["d"], attrs["r"], attrs["m"]))
        return True


class Office(Desk):
    """a receiver of issuance and presentation messages"""

    def rig(self):
        super().rig()
        self.notes = Notes()
        protocoling.loadHandlers(self.hby, self.exc, self.notes)
        for r in ("/h/offer", "/h/grant"):
            self.exc.addHandler(x01.Handler(r, self.log))


class Case:
    def __init__(self, *parties):
        self.parties, self.acts, self.msgs = parties, [], []

    def msg(self, verb, prior=None, party=0, n=0, name=None, route=None, split=False, forged=False, paid=False, a=None):
        """verb in answer to prior by party; split: its signatures also come one by one; paid: with a payload it knows nothing of"""
        p = self.parties[party]
        route = route or f"/ipex/{verb}"
        m = Msg(exn(p.pre, route=route, prior=prior.said if prior else "", a=dict(m=f"{verb} {n}", n=n) if a is None else a), p,
                name or f"{verb}{n or ''}{' by ' + str(party) if party else ''}{' to ' + prior.name if prior else ''}")
        m.verb = verb if route == f"/ipex/{verb}" else None
        m.prior, m.route, m.loose = prior, route, "m" not in m.serder.ked["a"]
        self.msgs.append(m)
        if p.none:
            self.acts.append((m.name, ("copy", m, wire(m.serder, cigs=[cig(m.serder, p.N)]), ())))
            return m
        ev = p.evs[0]
        every = [(k, i) for i, k in enumerate(p.keys[0])]

        def copy(label, ss, more=b""):
            self.acts.append((m.name + label, ("copy", m, wire(m.serder, tsgs=[(p.pre, ev.sn, ev.said, [sig(m.serder, k, i) for k, i in ss])])
                                               + more, tuple(ss))))
        copy("", every)
        if split:
            copy(" signed by key 0", every[:1])
            copy(" signed by key 1", every[1:2])
        if paid:
            pay = (ctr("Z", 1) + x01.coring.Texter(text="payload").qb64).encode()
            copy(" with a payload", every, pay)
            copy(" signed by key 0 with a payload", every[:1], pay)
        if forged:
            copy(" forged", [(97, 0), (98, 1)])
        return m

    def rest(self):
        self.acts += [("escrow pass", ("escrow",)), ("restart", ("restart",))]


class Run:
    """one receiver; the reference: which messages are accepted, which waits with which signatures"""

    def __init__(self, case, clock):
        self.c = case
        self.w = Office()
        for p in case.parties:
            for i, ev in enumerate(p.evs):
                self.w.take(wire(ev, sigs(ev, p.keys[i])))
        self.got = frozenset()         # accepted
        self.wait = {}                 # said: signatures that wait
        self.by = {m.said: m for m in case.msgs}

    def save(self):
        return self.w.save(), self.got, dict(self.wait)

    def load(self, snap):
        self.w.restore(snap[0])
        self.w.exc.cues.clear()
        self.got, self.wait = snap[1], dict(snap[2])

    def state(self):
        d = self.w.db.env._disk.dbs
        names = (b"epse", b"epsd", b"exns", b"erpy", b"esig", b"ecig", b"epat")
        return (self.got, tuple(sorted(self.wait.items())),
                hash(tuple((n, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in dict(s).items())))
                           for n, s in sorted(d.items(), key=lambda x: x[0] or b"") if n and n[:4] in names and s)))

    def fits(self, m):
        """may m be accepted in view of those accepted so far"""
        if m.verb not in AFTER:         # no message of this protocol: kept as any other
            return True
        if m.prior is None:
            return "" in AFTER[m.verb]
        if m.prior.said not in self.got or m.prior.verb not in AFTER[m.verb]:
            return False
        return not any(o.prior is m.prior and o is not m for o in self.answers())

    def answers(self):
        return [m for m in (self.by[s] for s in self.got) if m.verb in AFTER and m.prior is not None]

    def signed(self, m, ss):
        p = m.sender
        return p.none or len({i for k, i in ss if p.keys[0][i] == k}) >= p.need[0]

    def act(self, a):
        w = self.w
        del w.notes.log[:], w.odd[:], w.log[:]
        may, new = set(), set()
        if a[0] == "restart":
            w.reboot()
        elif a[0] == "escrow":
            order = sorted(self.wait)       # the waiting ones by their digests
            for s in order:
                m = self.by[s]
                if s in self.got:           # accepted meanwhile: once more
                    may.add(s)
                    del self.wait[s]
                elif self.signed(m, self.wait[s]):
                    del self.wait[s]
                    if self.fits(m):
                        new.add(s)
                        self.got |= {s}
            w.exc.processEscrow()
        else:
            _, m, msg, ss = a
            if self.signed(m, ss):
                if m.said in self.got:
                    may.add(m.said)
                elif self.fits(m):
                    new.add(m.said)
                    self.got |= {m.said}
            elif m.said not in self.got:
                self.wait[m.said] = tuple(sorted(set(self.wait.get(m.said, ())) | set(ss)))
            w.take(msg)
        if w.odd:
            raise Bad(f"failed with {w.odd[0]}")
        for s, m in self.by.items():
            if m.loose and s in new and not w.stored(s):        # without the text it may be refused
                self.got -= {s}
                new.discard(s)
        told = {}
        for d, r, text in w.notes.log:
            m = self.by[d]
            told[d] = told.get(d, 0) + 1
            if r != "/exn" + m.route or text != m.serder.ked["a"].get("m", text):
                raise Bad(f"user notified of {m.name} as {r}, {text}")
            if d not in new | may:
                raise Bad(f"user notified of {m.name}, which is {'no new message' if d in self.got else 'not acceptable'}")
        for s, m in self.by.items():
            have = w.stored(s)
            if have and s not in self.got:
                raise Bad(f"{m.name} accepted, but {self.why(m)}")
            if not have and s in self.got:
                raise Bad(f"{m.name} not accepted" if s in new else f"{m.name} forgotten")
            if s in new and m.verb in AFTER and told.get(s) != 1:
                raise Bad(f"{m.name} accepted but user notified {told.get(s, 0)} times")
            if told.get(s, 0) > 1:
                raise Bad(f"user notified {told[s]} times of {m.name}")
        handler = w.exc.routes["/ipex/grant"]
        for m in self.c.msgs:
            if m.said in self.got and m.verb in AFTER:
                want = [o.said for o in self.answers() if o.prior is m]
                have = handler.response(m.serder)
                if ([have.said] if have is not None else []) != want:
                    raise Bad(f"answer to {m.name} told as {self.by[have.said].name if have is not None else 'none'}, "
                              f"it is {self.by[want[0]].name if want else 'none'}")

    def why(self, m):
        if m.prior is not None and m.prior.said not in self.got:
            return "what it answers is not here"
        for o in self.answers():
            if o.prior is m.prior:
                return f"{o.name} answered before"
        return "it is not of a kind to follow here, or not signed"


def A():
    p = Party([1, 2], None, kt="2")
    return p


def B():
    return Party([11], None)


def N():
    p = Party(5, none=True)
    p.N = 5
    return p


def whole():
    """a conversation from beginning to end, by two parties"""
    c = Case(A(), B())
    ap = c.msg("apply", party=1)
    of = c.msg("offer", ap)
    ag = c.msg("agree", of, party=1)
    gr = c.msg("grant", ag, split=True)
    c.msg("admit", gr, party=1)
    c.msg("spurn", gr, party=1)
    c.rest()
    return c


def rivals():
    """several answers to one message; none other than the first counts, and messages of other protocols do not answer"""
    c = Case(A(), B(), N())
    gr = c.msg("grant")
    c.msg("admit", gr, party=1)
    c.msg("admit", gr, party=1, n=1)
    c.msg("spurn", gr, party=2)
    c.msg("other", gr, party=1, route="/h")
    c.msg("bare", gr, party=2, route="/bare")
    c.rest()
    return c


def kinds():
    """answers of the wrong kind"""
    c = Case(B())
    gr = c.msg("grant")
    sp = c.msg("spurn", gr)
    c.msg("agree", gr)
    c.msg("admit")
    c.msg("apply", gr)
    c.msg("spurn", sp)
    c.msg("grant", gr, n=1)
    c.msg("deny", gr)
    c.rest()
    return c


def lookalikes():
    """messages of other protocols that end in a verb are no part of the conversation"""
    c = Case(B(), A())
    of = c.msg("offer", route="/h/offer", name="/h/offer")
    c.msg("agree", of)
    gr = c.msg("grant", route="/h/grant", name="/h/grant")
    c.msg("admit", gr)
    real = c.msg("offer", n=1)
    c.msg("agree", real, n=1)
    c.msg("spurn", of, party=1, split=True)
    c.rest()
    return c


def waiting():
    """answers whose signatures come one by one compete"""
    c = Case(A(), B())
    of = c.msg("offer", party=1)
    c.msg("agree", of, split=True, forged=True)
    c.msg("spurn", of, split=True)
    c.rest()
    return c


def odd():
    """messages without the text, and with what does not belong to them"""
    c = Case(A())
    gr = c.msg("grant", paid=True)
    c.msg("admit", gr, a=dict(n=1))
    c.msg("spurn", gr, paid=True)
    c.rest()
    return c


POOLS = dict(odd=odd, whole=whole, rivals=rivals, kinds=kinds, lookalikes=lookalikes, waiting=waiting)


def pairs(res):
    """every verb after every verb, after the shortest conversation that leads there"""
    clock = Clock().install()
    to = dict(apply=[], offer=[], agree=["offer"], grant=[], admit=["grant"], spurn=["offer"])
    for one in AFTER:
        for two in tuple(AFTER) + ("deny", "offer/x", "x/offer"):
            c = Case(B())
            m = None
            for v in to[one] + [one, two]:
                m = c.msg(v, m)
            r = Run(c, clock)
            try:
                for name, a in c.acts:
                    res.add("transitions")
                    try:
                        r.act(a)
                    except Bad as b:
                        raise Violation(f"pairs:{one}:{two}", f"{', '.join(x for x, _ in c.acts)}: {b}")
                res.add("states")
            finally:
                r.w.close()
    for two in tuple(AFTER) + ("deny",):
        c = Case(B())
        c.msg(two)
        lost = Msg(exn(c.parties[0].pre, route="/ipex/grant", a=dict(m="lost")), c.parties[0], "lost")
        lost.verb, lost.prior, lost.route, lost.loose = "grant", None, "/ipex/grant", False
        c.msg(two, lost, n=1)
        r = Run(c, clock)
        try:
            for name, a in c.acts:
                res.add("transitions")
                try:
                    r.act(a)
                except Bad as b:
                    raise Violation(f"openers:{two}", f"{name}: {b}")
            res.add("states")
        finally:
            r.w.close()


def explore(res, pool, lead, depth):
    clock = Clock().install()
    clock.now = BASE
    case = POOLS[pool]()
    r = Run(case, clock)

    def do(i, path):
        here = path + (case.acts[i][0],)
        res.add("transitions")
        try:
            r.act(case.acts[i][1])
        except Bad as b:
            raise Violation(f"{pool}: {', '.join(here)}", f"{pool}: {', '.join(here)}: {b}")
        return here
    try:
        path = ()
        for i in lead:
            path = do(i, path)
        seen, todo = {r.state()}, [(r.save(), path)]
        res.add("states")
        for snap, path in todo:
            if len(path) >= depth:
                continue
            for i in range(len(case.acts)):
                r.load(snap)
                here = do(i, path)
                k = r.state()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((r.save(), here))
    finally:
        r.w.close()


def deaths(res, pool, lead):
    """the process dies at every commit of every action after a history; the messages come again, and the answers stay one"""
    clock = Clock().install()
    clock.now = BASE
    case = POOLS[pool]()
    r = Run(case, clock)
    try:
        for i in lead:
            try:
                r.act(case.acts[i][1])
            except Bad as b:
                raise Violation(f"{pool}: {lead}", f"{pool}: {[case.acts[x][0] for x in lead]}: {b}")
        snap = r.save()
        for name, a in case.acts:
            if a[0] == "restart":
                continue
            at = 0
            while True:
                r.load(snap)
                how = f"{pool}: {[case.acts[x][0] for x in lead]}, death at commit {at} of {name}"
                go = (lambda: r.w.take(a[2])) if a[0] == "copy" else r.w.exc.processEscrow
                if not r.w.dies(at, go):
                    break
                res.add("deaths")
                res.add("states")
                r.w.reboot()
                got = {m.said for m in case.msgs if r.w.stored(m.said)}
                if not r.got <= got:
                    raise Violation(how, f"{how}: {[r.by[s].name for s in r.got - got]} forgotten")
                for s in got - r.got:
                    if not r.fits(r.by[s]):
                        raise Violation(how, f"{how}: {r.by[s].name} accepted, but {r.why(r.by[s])}")
                r.got = frozenset(got)
                left = r.save()
                for first in case.acts:                 # then every message once more, another first
                    if first[1][0] != "copy":
                        continue
                    r.load(left)
                    for b in [first[1], a]:
                        if b[0] == "copy":
                            r.w.take(b[2])
                        else:
                            r.w.exc.processEscrow()
                    res.add("transitions", 2)
                    end = {m.said for m in case.msgs if r.w.stored(m.said)}
                    for m in case.msgs:
                        rivals_ = [o.name for o in case.msgs if o.said in end and o.verb in AFTER and o.prior is m]
                        if len(rivals_) > 1:
                            raise Violation(how, f"{how}, then {first[0]}, {name}: {' and '.join(rivals_)} are both accepted")
                    if a[0] == "copy" and r.signed(a[1], a[3]):
                        for m, ss in ((first[1][1], first[1][3]), (a[1], a[3])):
                            if r.signed(m, ss) and r.fits(m):
                                r.got |= {m.said}
                        if frozenset(end) != r.got:
                            raise Violation(how, f"{how}, then {first[0]}, {name}: {sorted(r.by[s].name for s in end ^ r.got)} "
                                            f"{'accepted' if end - r.got else 'not accepted'}")
                at += 1
    finally:
        r.w.close()


def job(res, spec):
    if spec[0] == "pairs":
        return pairs(res)
    if spec[0] == "deaths":
        return deaths(res, *spec[1:])
    return explore(res, *spec)


def main(res):
    jobs = [("pairs",)]
    for name in POOLS:
        n = len(POOLS[name]().acts)
        jobs += [(name, (i,), pick(5, 8)) for i in range(n)]
        jobs += [("deaths", name, ())] + [("deaths", name, (i,)) for i in range(n)]
        jobs += [("deaths", name, tuple(range(i))) for i in range(2, n - 2)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("X02", "model_checking", main)
