"""Exchange messages: every history of whole, partial, forged and stripped copies, of the sender's log arriving late, of
time, restarts and deaths, in lockstep with a reference that knows who signed what."""

import datetime
import types

from ..kel import (Clock, World, Died, S, W, cig, ctr, icp, ixn, make, receive, rot, sig, sigs, wire, wit, key, kering,
                   coring, serdering, signing)
from ..lib import TIER, Violation, explore_jobs, pick, run
from keri.peer import exchanging

BASE = datetime.datetime(2021, 6, 27, 21, 26, 0, tzinfo=datetime.timezone.utc)


class Handler:
    def __init__(self, resource, log, verdict=True):
        self.resource, self.log, self.verdict = resource, log, verdict

    def verify(self, serder, attachments=None, **kwa):
        return self.verdict

    def handle(self, serder, attachments=None, **kwa):
        self.log.append((serder.said, serder.raw, [bytes(b) for p, b in attachments or []], kwa.get("essr")))


class Desk(World):
    """a receiver of exchange messages"""

    def __init__(self, **kwa):
        super().__init__(**kwa)
        self.rig()

    def rig(self):
        self.log, self.odd = [], []
        self.hby = types.SimpleNamespace(db=self.db, kevers=self.db.kevers, habs={}, prefixes=self.db.prefixes)
        self.exc = exchanging.Exchanger(hby=self.hby, handlers=[Handler("/h", self.log), Handler("/no", self.log, False)])
        real, odd = self.exc.processEvent, self.odd

        def watched(*pa, **kwa):
            try:
                return real(*pa, **kwa)
            except kering.KeriError:
                raise
            except Exception as ex:
                odd.append(f"{type(ex).__name__}: {ex}")
                raise
        self.exc.processEvent = watched

    def reboot(self):
        super().reboot()
        self.rig()

    def take(self, msg):
        receive(self, msg, exc=self.exc)

    def stored(self, said):
        return self.exc.complete(said)

    def served(self, said):
        """the message as it is given to others"""
        try:
            return bytes(exchanging.serializeMessage(self.hby, said))
        except Exception as ex:
            return f"{type(ex).__name__}: {ex}"[:100]


def exn(pre, n=0, route="/h", prior="", a=None, e=None):
    return make(v="KERI10JSON000000_", t="exn", d="", i=pre, rp="", p=prior, dt="2021-06-27T21:26:00.000000+00:00",
                r=route, q={}, a=dict(n=n) if a is None else a, e=e or {})


def pathed(label, *mats):
    """attachments of the embedded part named"""
    body = coring.Pather(parts=["e", label]).qb64 + "".join(mats)
    return (ctr("L", len(body) // 4) + body).encode(), "".join(mats).encode()


class Msg:
    """a message and what is known of it"""

    def __init__(self, serder, sender, name):
        self.serder, self.sender, self.name = serder, sender, name
        self.said = serder.said


class Party:
    """a sender: its log and keys"""

    def __init__(self, first, second=None, kt=None, kt2=None, basic=False, none=False):
        self.none = none
        if none:
            self.pre = wit(first)
            self.evs, self.keys, self.need = [], [], []
            return
        self.keys = [first]
        self.evs = [icp(first, second or [], kt=kt, nt=kt2 if second else None, basic=basic)]
        self.pre = self.evs[0].pre
        self.need = [int(self.evs[0].ked["kt"])]
        if second:
            self.evs.append(rot(self.pre, 1, self.evs[0].said, second, [], kt=kt2))
            self.keys.append(second)
            self.need.append(int(self.evs[1].ked["kt"]))


class Case:
    def __init__(self, party, late=True, routes=("/h",), att=False):
        self.p = party
        self.acts, self.bad = [], []
        self.late = late
        self.msgs = []

    def events(self):
        for i, ev in enumerate(self.p.evs):
            if i or self.late:
                self.acts.append((f"event {i} of the sender", ("event", i)))

    def msg(self, name, **kwa):
        m = Msg(exn(self.p.pre, **kwa), self.p, name)
        self.msgs.append(m)
        return m

    def copy(self, m, label, n=0, signers=(), cigs=None, sn=None, dig=None, pre=None, atts=(), more=(), body=None):
        """a copy of m: one group in the name of event n (or as given), by signers [(key, index)]"""
        ev = self.p.evs[n] if self.p.evs else None
        groups = []
        if signers:
            groups.append((pre or self.p.pre, ev.sn if sn is None else sn, ev.said if dig is None else dig, list(signers)))
        groups += list(more)
        ser = body or m.serder
        msg = wire(ser, cigs=cigs or [], tsgs=[(a, b, c, [sig(m.serder, k, i) for k, i in s]) for a, b, c, s in groups])
        msg += b"".join(a for a, _ in atts)
        self.acts.append((f"{m.name} {label}", ("copy", m, msg, groups, cigs or [], tuple(b for _, b in atts))))

    def rest(self, ticks=(6,)):
        self.acts.append(("escrow pass", ("escrow",)))
        for t in ticks:
            self.acts.append((f"{t} s pass", ("tick", t)))
        self.acts.append(("restart", ("restart",)))


class Ref:
    """one message as the reference sees it"""

    def __init__(self, src=None):
        self.stored = src.stored if src else False
        self.since = src.since if src else None      # waiting since
        self.groups = {k: set(v) for k, v in src.groups.items()} if src else {}   # signatures waiting
        self.ever = {k: set(v) for k, v in src.ever.items()} if src else {}       # signatures ever seen, waiting or not
        self.atts = set(src.atts) if src else set()
        self.seen = set(src.seen) if src else set()  # attachments ever sent along
        self.murky = src.murky if src else False
        self.kept = src.kept if src else frozenset()

    def key(self):
        f = lambda g: tuple(sorted((k, tuple(sorted(v))) for k, v in g.items()))
        return self.stored, self.since, f(self.groups), f(self.ever), tuple(sorted(self.atts)), tuple(sorted(self.seen)), self.murky, tuple(sorted(self.kept))


class Bad(Exception):
    pass


class Run:
    def __init__(self, case, clock):
        self.c, self.clock = case, clock
        self.w = Desk()
        self.t, self.have = 0, 0
        self.refs = {m.said: Ref() for m in case.msgs}
        if not case.late:
            self.act(("event", 0))
        self.start()

    def start(self):
        del self.w.log[:]

    def save(self):
        return self.w.save(), self.t, self.have, {k: Ref(v) for k, v in self.refs.items()}

    def load(self, snap):
        s, self.t, self.have, refs = snap
        self.w.restore(s)
        self.w.exc.cues.clear()
        self.refs = {k: Ref(v) for k, v in refs.items()}

    def state(self):
        d = self.w.db.env._disk.dbs
        names = (b"epse", b"epsd", b"exns", b"erpy", b"esig", b"ecig", b"epat", b"essr", b"enst")
        return (self.t, self.have, tuple(r.key() for r in self.refs.values()),
                hash(tuple((n, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in dict(s).items())))
                           for n, s in sorted(d.items(), key=lambda x: x[0] or b"") if n and n[:4] in names and s)))

    # -- what the reference concludes
    def full(self, g, ss):
        """do signatures ss (key, index) of group g suffice?  None: unknown yet"""
        pre, sn, dig = g
        p = self.c.p
        if pre != p.pre or not p.evs:
            return False
        if self.have == 0 or sn > self.have - 1:
            return None
        if sn < len(p.evs) and p.evs[sn].said == dig:
            good = {i for k, i in ss if i < len(p.keys[sn]) and p.keys[sn][i] == k}
            return len(good) >= p.need[sn]
        return False

    def ok(self, cigs, m):
        return bool(cigs) and all(c.verfer.qb64 == self.c.p.pre and not c.verfer.transferable and c.qb64 == cig(m.serder, self.c.N).qb64
                                  for c in cigs)

    def act(self, a):
        self.clock.now = BASE + datetime.timedelta(seconds=self.t)
        w = self.w
        del w.log[:], w.odd[:]
        if a[0] == "event":
            if a[1] == self.have:
                p = self.c.p
                ev = p.evs[a[1]]
                w.take(wire(ev, sigs(ev, p.keys[a[1]])))
                assert w.kel(p.pre)[-1] == ev.said
                self.have += 1
        elif a[0] == "tick":
            self.t += a[1]
        elif a[0] == "restart":
            w.reboot()
        elif a[0] == "escrow":
            w.exc.processEscrow()
            for m in self.c.msgs:
                r = self.refs[m.said]
                if r.since is None:
                    self.expect(m, r, False, r.murky and any(self.full(g, ss) for g, ss in r.ever.items()), "by an escrow pass")
                    continue
                done = any(self.full(g, ss) for g, ss in r.groups.items())
                maybe = done or any(self.full(g, ss) for g, ss in r.ever.items())
                if self.t - r.since > 10:
                    self.expect(m, r, False, False, "by an escrow pass after its time")
                    r.since, r.groups, r.atts = None, {}, set()
                else:
                    self.expect(m, r, done and not r.murky, maybe, "by an escrow pass")
                    if r.stored:
                        r.since, r.groups = None, {}
        else:
            _, m, msg, groups, cigs, atts = a
            unfit = any(x[1] is a for i, x in enumerate(self.c.acts) if i in self.c.bad)
            r = self.refs[m.said]
            w.take(msg)
            r.seen |= set(atts)
            strange = any(g[0] != self.c.p.pre for g in groups)
            if groups and not strange:
                verdicts = []
                for pre, sn, dig, ss in groups:
                    g = (pre, sn, dig)
                    verdicts.append(self.full(g, ss))
                    r.ever.setdefault(g, set()).update(ss)
                done = all(v for v in verdicts)
                may = any(v for v in verdicts)
                if unfit:
                    done = may = False
                    r.murky = r.murky or not r.stored
                elif not done and not r.stored:
                    # does it wait?  a group known to name the wrong event does not
                    lost = any(v is False and not (g[1] < len(self.c.p.evs) and self.c.p.evs[g[1]].said == g[2])
                               for v, g in zip(verdicts, groups))
                    if not lost:
                        if r.since is None:
                            r.since = self.t
                        for pre, sn, dig, ss in groups:
                            r.groups.setdefault((pre, sn, dig), set()).update(ss)
                        r.atts |= set(atts)
                    elif len(groups) > 1:
                        r.murky = True
                self.expect(m, r, done, may, "on arrival", atts if done else None)
            elif groups:
                self.expect(m, r, False, False, "with another's signature")
            else:
                good = self.ok(cigs, m)
                self.expect(m, r, good, good, "on arrival", atts)
        for m in self.c.msgs:
            r = self.refs[m.said]
            have = w.stored(m.said)
            if have != r.stored:
                raise Bad(f"{m.name} is {'stored' if have else 'no longer stored'}")
        if w.odd:
            raise Bad(f"failed with {w.odd[0]}")

    def expect(self, m, r, must, may, how, atts=None):
        """after the action: was m accepted as it had to be?"""
        w = self.w
        calls = [x for x in w.log if x[0] == m.said]
        refused = m.serder.ked["r"] == "/no"
        handled = m.serder.ked["r"] == "/h"
        if refused:
            must = may = False
        new = w.stored(m.said) and not r.stored
        if new and not may:
            raise Bad(f"{m.name} accepted {how} without its sender's authority")
        if must and not w.stored(m.said):
            raise Bad(f"{m.name} not accepted {how} though signed by its sender")
        if calls and not may:
            raise Bad(f"{m.name} handed to its handler {how} without its sender's authority")
        if len(calls) > 1:
            raise Bad(f"{m.name} handed to its handler {len(calls)} times {how}")
        if new and handled and not calls:
            raise Bad(f"{m.name} accepted {how} but not handed to its handler")
        for c in calls:
            if isinstance(m.serder.ked["a"], str) and c[3] != self.c.payload:
                raise Bad(f"{m.name} handed to its handler {how} with payload {c[3]}")
            if c[1] != m.serder.raw:
                raise Bad(f"{m.name} handed to its handler {how} with other content")
            want = set(atts if atts is not None else r.atts)
            got = set(c[2])
            want.discard(b"")
            if new and not want <= got:
                raise Bad(f"{m.name} handed on {how} with {len(got & want)} of {len(want)} attachments")
            if not got <= r.seen:
                raise Bad(f"{m.name} handed on {how} with attachments nobody sent")
            if new:
                r.kept = frozenset(want)
        if w.stored(m.said):
            r.stored = True

    def judge(self):
        """what is stored can be given to others who know the sender, and convinces them"""
        for m in self.c.msgs:
            r = self.refs[m.said]
            if r.stored:
                out = self.w.served(m.said)
                if isinstance(out, str):
                    raise Bad(f"{m.name} is stored but cannot be given to others ({out})")
                if not out.startswith(m.serder.raw):
                    raise Bad(f"{m.name} is given to others with other content")
                k = (m.said, out, self.have)
                if k in SERVED:
                    continue
                if len(SERVED) > 20000:
                    SERVED.clear()
                o = FRESH.get("w")
                if o is None:
                    o = FRESH["w"] = Desk()
                    FRESH["s"] = o.save()
                o.restore(FRESH["s"])
                for i in range(self.have):
                    ev = self.c.p.evs[i]
                    o.take(wire(ev, sigs(ev, self.c.p.keys[i])))
                del o.log[:]
                o.take(out)
                if not o.stored(m.said):
                    raise Bad(f"{m.name} as given to others does not convince one who knows the sender's log")
                if m.serder.ked["r"] == "/h" and not r.kept <= set(o.log[0][2]):
                    raise Bad(f"{m.name} as given to others lost its attachments")
                SERVED.add(k)



SERVED, FRESH = set(), {}


def many():
    c = Case(Party([1, 2, 3], [4, 5], kt="2", kt2="2"))
    c.events()
    m = c.msg("m")
    ks = [(1, 0), (2, 1), (3, 2)]
    c.copy(m, "signed by key 0", 0, ks[:1])
    c.copy(m, "signed by key 2", 0, ks[2:])
    c.copy(m, "signed by all", 0, ks)
    c.copy(m, "badly signed", 0, [(98, 0), (99, 1)])
    c.copy(m, "one of two good", 0, [(1, 0), (99, 1)])
    c.copy(m, "new key 0", 1, [(4, 0)])
    c.copy(m, "new keys", 1, [(4, 0), (5, 1)])
    c.copy(m, "old keys in the new one's name", 1, ks)
    c.rest()
    return c


def poison():
    """copies that name events that are not, or other signers, before and after the good one"""
    c = Case(Party([1, 2], [4], kt="2"), late=False)
    c.events()
    m = c.msg("m")
    ks = [(1, 0), (2, 1)]
    other = icp([41], [42])
    c.copy(m, "signed by key 0", 0, ks[:1])
    c.copy(m, "signed by key 1", 0, ks[1:])
    c.copy(m, "whole", 0, ks)
    c.copy(m, "in the name of an event to come", 0, [(97, 0)], sn=7)
    c.copy(m, "in the name of another event", 0, ks, dig=other.said)
    c.copy(m, "in the name of another event to come", 0, ks, sn=1, dig=other.said)
    c.copy(m, "by another", 0, [(41, 0)], pre=other.pre, dig=other.said)
    c.copy(m, "whole and by another", 0, ks, more=[(other.pre, 0, other.said, [(41, 0)])])
    c.copy(m, "whole and badly", 0, ks, more=[(c.p.pre, 7, other.said, [(97, 0)])])
    c.copy(m, "one key twice", 0, [(1, 0), (1, 1)])
    c.rest()
    return c


def stripped():
    """attachments of embedded parts, and copies without them"""
    c = Case(Party([1, 2], None, kt="2"))
    c.events()
    m = c.msg("m", e=dict(x=dict(d="", y=1)))
    a = pathed("x", ctr("A", 1) + sig(m.serder, 60, 0).qb64)
    b = pathed("z", ctr("A", 1) + sig(m.serder, 61, 0).qb64)
    ks = [(1, 0), (2, 1)]
    c.copy(m, "whole with its attachment", 0, ks, atts=(a,))
    c.copy(m, "by key 0 with its attachment", 0, ks[:1], atts=(a,))
    c.copy(m, "by key 1 with its attachment", 0, ks[1:], atts=(a,))
    c.copy(m, "badly signed without", 0, [(98, 0)])
    c.copy(m, "badly signed with another", 0, [(98, 0)], atts=(b,))
    c.rest()
    return c


def basic():
    """an identifier that is its first key, and that key after it was given up"""
    c = Case(Party([1], [4], basic=True))
    c.events()
    m, n = c.msg("m"), c.msg("n", n=1, route="/bare")
    old = signing.Cigar(qb64=S(1).sign(m.serder.raw).qb64) if hasattr(signing, "Cigar") else coring.Cigar(qb64=S(1).sign(m.serder.raw).qb64)
    old.verfer = S(1).verfer
    c.copy(m, "signed", 0, [(1, 0)])
    c.copy(m, "signed by the new key", 1, [(4, 0)])
    c.copy(m, "with a bare signature of the first key", cigs=[old])
    c.copy(n, "signed", 0, [(1, 0)])
    r = c.msg("refused", n=2, route="/no")
    c.copy(r, "signed", 0, [(1, 0)])
    c.rest(ticks=(86405,))         # more than a day
    return c


def bare():
    """a sender without a log"""
    c = Case(Party(5, none=True))
    c.N = 5
    m = c.msg("m")
    n = c.msg("n", n=1, prior=m.said)
    other = c.msg("o", n=2)
    c.copy(m, "signed", cigs=[cig(m.serder, 5)])
    c.copy(m, "signed by another", cigs=[cig(m.serder, 6)])
    c.copy(m, "signed twice, once by another", cigs=[cig(m.serder, 5), cig(m.serder, 6)])
    bad = cig(n.serder, 5)
    c.copy(m, "with the signature of another message", cigs=[bad])
    c.copy(n, "signed", cigs=[cig(n.serder, 5)])
    c.copy(other, "signed", cigs=[cig(other.serder, 5)])
    c.rest()
    return c


def sealed():
    """a payload attached, of which the message holds the digest"""
    c = Case(Party([1, 2], None, kt="2"))
    c.events()
    t, u = coring.Texter(text="payload"), coring.Texter(text="another")
    a = coring.Diger(ser=t.raw).qb64
    m = c.msg("m", a=a)
    ks = [(1, 0), (2, 1)]
    pay = [((ctr("Z", 1) + x.qb64).encode(), b"") for x in (t, u)]
    c.copy(m, "whole", 0, ks, atts=pay[:1])
    c.copy(m, "by key 0", 0, ks[:1], atts=pay[:1])
    c.copy(m, "by key 1", 0, ks[1:], atts=pay[:1])
    c.copy(m, "whole with another payload", 0, ks, atts=pay[1:])
    c.copy(m, "whole without payload", 0, ks)
    c.bad = [4, 5]
    c.payload = t.raw
    c.rest()
    return c


POOLS = dict(sealed=sealed, many=many, poison=poison, stripped=stripped, basic=basic, bare=bare)


def explore(res, pool, lead, depth):
    clock = Clock().install()
    FRESH.clear()
    SERVED.clear()
    case = POOLS[pool]()
    case.N = getattr(case, "N", 0)
    r = Run(case, clock)

    def do(i, path):
        here = path + (case.acts[i][0],)
        res.add("transitions")
        try:
            r.act(case.acts[i][1])
            r.judge()
        except Bad as b:
            raise Violation(f"{pool}: {', '.join(here)}", f"{pool}: {', '.join(here)}: {b}")
        return here
    try:
        path = ()
        for i in lead:
            path = do(i, path)
        seen, todo = {r.state()}, [(r.save(), path)]
        res.add("states")
        for snap, path in todo:
            if len(path) >= depth:
                continue
            for i in range(len(case.acts)):
                r.load(snap)
                if r.t > 30:
                    continue
                here = do(i, path)
                k = r.state()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((r.save(), here))
    finally:
        r.w.close()


def deaths(res, pool, lead):
    """the process dies at every commit of every action after a history; the message comes again whole"""
    clock = Clock().install()
    FRESH.clear()
    SERVED.clear()
    case = POOLS[pool]()
    case.N = getattr(case, "N", 0)
    r = Run(case, clock)
    try:
        for i in lead:
            r.act(case.acts[i][1])
        r.start()
        snap = r.save()
        for i, (name, a) in enumerate(case.acts):
            if a[0] not in ("copy", "escrow"):
                continue
            at = 0
            while True:
                r.load(snap)
                before = {m.said: r.w.stored(m.said) for m in case.msgs}
                how = f"{pool}: {[case.acts[x][0] for x in lead]}, death at commit {at} of {name}"
                go = (lambda: r.w.take(a[2])) if a[0] == "copy" else r.w.exc.processEscrow
                if not r.w.dies(at, go):
                    break
                res.add("deaths")
                res.add("states")
                r.w.reboot()
                for m in case.msgs:
                    if r.w.stored(m.said):
                        if isinstance(r.w.served(m.said), str):
                            raise Violation(how, f"{how}: {m.name} is stored but cannot be given to others ({r.w.served(m.said)})")
                if a[0] == "copy":
                    r.load(snap)
                    r.act(a)
                    end = r.w.stored(a[1].said)
                    r.load(snap)
                    r.w.dies(at, go)
                    r.w.reboot()
                    r.w.take(a[2])
                    if end and not r.w.stored(a[1].said):
                        raise Violation(how, f"{how}: the message coming again is not accepted")
                at += 1
    finally:
        r.w.close()


def job(res, spec):
    if spec[0] == "deaths":
        return deaths(res, *spec[1:])
    return explore(res, *spec)


def main(res):
    jobs = []
    for name in POOLS:
        n = len(POOLS[name]().acts)
        jobs += [(name, (i,), pick(5, 7)) for i in range(n)]
        jobs += [("deaths", name, ())] + [("deaths", name, (i,)) for i in range(n)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("X01", "model_checking", main)
