"""Replay protection: every history of deliveries (whole and split signatures, bad ones, seals), passing time, pruning,
key changes and restarts, in lockstep with a reference of what may, must and must not be passed on."""

import datetime
import itertools

from ..kel import Clock, World, S, W, cig, icp, ixn, rot, sig, sigs, kering, coring, serdering, key
from ..lib import TIER, Violation, explore_jobs, pick, run
from keri.core import kraming, eventing
from keri.kering import Vrsn_2_0

BASE = datetime.datetime(2021, 6, 27, 21, 26, 0, tzinfo=datetime.timezone.utc)


def stamp(s):
    return (BASE + datetime.timedelta(seconds=s)).isoformat(timespec="microseconds")


class Cf:
    def __init__(self, caches, denials=()):
        self.d = dict(kram=dict(enabled=True, denials=[list(d) for d in denials], caches=caches))

    def get(self):
        return self.d


TIGHT = dict(d=2, sl=4, ll=7, xl=9, psl=4, pll=7, pxl=9)
WIDE = dict(d=2, sl=4, ll=7, xl=9, psl=12, pll=14, pxl=16)
FLAT = dict(d=2, sl=5, ll=5, xl=5, psl=5, pll=5, pxl=5)


def rec(c):
    return [1000 * c[n] for n in ("d", "sl", "ll", "xl", "psl", "pll", "pxl")]


# ------------------------------------------------------------ messages
V2 = "KERICAACAAJSONAAAA."


def msg(ilk, pre, dt, r="ksn", n=0, x="", **kwa):
    """one version 2 message, dated dt seconds after the start"""
    two = dict(v=V2, t=ilk, d="")
    if ilk in ("qry", "pro"):
        sad = dict(two, i=pre, dt=stamp(dt), r=r, rr="", q=dict(i=pre, n=n))
    elif ilk in ("rpy", "bar"):
        sad = dict(two, i=pre, dt=stamp(dt), r=r, a=dict(i=pre, n=n))
    elif ilk == "xip":
        sad = dict(two, u="", i=pre, ri=pre, dt=stamp(dt), r=r, q={}, a=dict(n=n))
    else:
        sad = dict(two, i=pre, ri=pre, x=x, p="", dt=stamp(dt), r=r, q={}, a=dict(n=n))
    return serdering.SerderKERI(sad=sad, makify=True)


class Guard(World):
    """a processor with replay protection, and what it passes on"""

    def __init__(self, caches, denials=(), **kwa):
        super().__init__()
        self.caches, self.denials, self.lists = caches, denials, kwa
        self.rig()

    def rig(self):
        cf = Cf(self.caches, self.denials)
        self.kvy.kramer = kraming.Kramer(db=self.db, cf=cf, cues=self.kvy.cues)
        self.kramer = self.kvy.kramer
        real = self.kramer.intake

        def intake(serder, kwa=None):
            out = real(serder, kwa)
            if out is not None:
                self.let.append((out.said, out.raw, kwa))
            return out
        self.kramer.intake = intake
        for name, val in self.lists.items():
            setattr(self.kvy, name, val)
        got = self.got = []

        class Sink:
            def processReply(self, serder, **kwa):
                got.append((serder.said, serder.raw, kwa))

            def processEvent(self, serder, **kwa):
                got.append((serder.said, serder.raw, kwa))

            def processQuery(self, serder, **kwa):
                got.append((serder.said, serder.raw, kwa))
        self.sink = Sink()
        self.kvy.processQuery = self.sink.processQuery
        for n in ("processXip", "processPro", "processBar"):
            setattr(self.kvy, n, lambda serder, kwa: got.append((serder.said, serder.raw, kwa)))

    def reboot(self):
        super().reboot()
        self.rig()

    def pass_on(self, serder, **kwa):
        """what of this delivery comes out behind the guard"""
        full = {n: [] for n in ("sigers", "wigers", "cigars", "trqs", "tsgs", "lsgs", "sscs", "ssts", "frcs", "tdcs", "ptds",
                                "essrs", "bsqs", "bsss", "tmqs")}
        full.update(kwa)
        full["serder"] = serdering.SerderKERI(raw=serder.raw)
        full["exc"] = full["rvy"] = full["tvy"] = self.sink
        del self.got[:]
        self.let = []
        try:
            self.kvy.processMsg(full)
            res = "ok"
        except kering.KeriError as ex:
            res = type(ex).__name__
            if self.let and not self.got and isinstance(ex, kering.ValidationError):
                self.got += self.let      # let through here, refused by what is behind
        return res, list(self.got)


# ------------------------------------------------------------ senders
class Sender:
    """a log: keys of each establishment event, and seals anchored"""

    def __init__(self, *stages, kts=None, seals=()):
        kts = kts or ["%x" % (len(s) if len(s) == 1 else 2) for s in stages]
        self.stages, self.kts = stages, kts
        nxt = [list(s) for s in stages[1:]] + [[]]
        self.icp = icp(stages[0], nxt[0], kt=kts[0], nt=kts[1] if len(kts) > 1 else None)
        self.pre = self.icp.pre
        self.prior = self.icp
        self.est = [self.icp]

    def anchor(self, saids):
        self.seal = ixn(self.pre, 1, self.icp.said, data=[dict(d=s) for s in saids])
        self.prior = self.seal
        return self.seal

    def rotated(self):
        n = len(self.est)
        ev = rot(self.pre, self.prior.sn + 1, self.prior.said, self.stages[n], [], kt=self.kts[n], nt="0")
        self.est.append(ev)
        return ev


def quiet(indices, kt):
    return len(indices) >= int(kt, 16)


class Case:
    """messages of one or two senders, and the actions upon them"""

    def __init__(self, caches, cache, senders, denials=(), **lists):
        self.caches, self.cache, self.denials, self.lists = caches, cache, denials, lists
        self.senders = senders
        self.acts = []          # (name, function of the run)

    def setup(self):
        w = Guard(self.caches, self.denials, **self.lists)
        for s in self.senders:
            assert w.event(s.icp, sigs(s.icp, s.stages[0])) == "ok"
            if hasattr(s, "seal"):
                assert w.event(s.seal, sigs(s.seal, s.stages[0])) == "ok", s.seal.pretty()
        return w


class Ref:
    """what is known of one message so far"""
    __slots__ = ("passed", "first", "have", "state", "late", "gone", "touched")

    def __init__(self, src=None):
        for n, v in (("passed", False), ("first", None), ("have", frozenset()), ("state", None), ("late", False), ("gone", False),
                     ("touched", False)):
            setattr(self, n, getattr(src, n) if src else v)

    def key(self):
        return tuple(getattr(self, n) for n in self.__slots__)


class Run:
    """the machinery and the reference, side by side"""

    def __init__(self, case, clock):
        self.case, self.clock = case, clock
        self.w = case.setup()
        self.t = 0
        self.refs = {}          # said -> Ref
        self.stage = {s.pre: 0 for s in case.senders}

    def save(self):
        return self.w.save(), self.t, {k: Ref(v) for k, v in self.refs.items()}, dict(self.stage)

    def load(self, snap):
        s, self.t, refs, stage = snap
        self.w.restore(s)
        self.refs = {k: Ref(v) for k, v in refs.items()}
        self.stage = dict(stage)

    def state(self):
        d = self.w.db.env._disk.dbs
        return (self.t, tuple(self.w.db.kevers[s.pre].sn for s in self.case.senders), tuple(sorted((k, v.key()) for k, v in self.refs.items())), tuple(self.stage.items()),
                hash(tuple((n, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in dict(s).items())))
                           for n, s in sorted(d.items(), key=lambda x: x[0] or b"") if n and n.startswith(b"kram") and s)))

    def at(self):
        self.clock.now = BASE + datetime.timedelta(seconds=self.t)

    # -- actions
    def tick(self, n):
        self.t += n

    def prune(self):
        self.at()
        now = self.clock.now.timestamp() * 1000
        self.w.kramer._pruneMessages(now)
        self.w.kramer._pruneExchanges(now)
        for r in self.refs.values():
            r.gone = True

    def restart(self):
        self.at()
        self.w.reboot()
        for s in self.case.senders:
            assert s.pre in self.w.db.kevers       # looked up, as by any key event of theirs

    def rotate(self, s):
        ev = s.est[self.stage[s.pre] + 1]
        self.at()
        if self.w.db.kevers[s.pre].sn > s.prior.sn:
            return self.tick(0)
        assert self.w.event(ev, sigs(ev, s.stages[self.stage[s.pre] + 1])) == "ok"
        self.stage[s.pre] += 1

    def anchors(self, s):
        """an event that changes no keys"""
        if self.w.db.kevers[s.pre].sn == s.prior.sn:
            self.at()
            ev = ixn(s.pre, s.prior.sn + 1, s.prior.said)
            assert self.w.event(ev, sigs(ev, s.stages[0])) == "ok"
            s.last = ev

    def deliver(self, s, m, form, who, name):
        """form: how the authentication is attached; who: (keys, indices) or None for bad material"""
        self.at()
        c, st = self.case, self.stage.get(s.pre, 0)
        cfg = c.cache(m)
        pre = coring.Prefixer(qb64=s.pre)
        est = s.est[st]
        kwa, good, sealed = {}, set(), False
        if who is not None and form not in ("seal", "triple", "noseal", "fakeseal", "cig", "none"):
            ss = [sig(m, k, i) for k, i in who]
            good = {i for k, i in who if i < len(s.stages[st]) and s.stages[st][i] == k}
        if form == "lsg":
            kwa["lsgs"] = [(pre, ss)]
        elif form == "sig":
            kwa["sigers"] = ss
        elif form == "tsg":
            kwa["tsgs"] = [(pre, coring.Number(num=est.sn), coring.Diger(qb64=est.said), ss)]
        elif form == "old":       # names the first keys
            if st == 0:
                return
            kwa["tsgs"] = [(pre, coring.Number(num=0), coring.Diger(qb64=s.icp.said), ss)]
            good = set()
        elif form == "other":     # somebody else's group and receipt couple
            kwa["tsgs"] = [(coring.Prefixer(qb64=OTHER.pre), coring.Number(num=0), coring.Diger(qb64=OTHER.icp.said), ss)]
            kwa["cigars"] = [cig(m, 7)]
            good = set()
        elif form == "wrong":     # right keys, other content
            kwa["lsgs"] = [(pre, [sig(s.icp, k, i) for k, i in who])]
            good = set()
        elif form == "seal":
            kwa["sscs"] = [(coring.Number(num=s.seal.sn), coring.Diger(qb64=s.seal.said))]
            sealed = m.said in [a["d"] for a in s.seal.ked["a"]]
        elif form == "triple":
            kwa["ssts"] = [(pre, coring.Number(num=s.seal.sn), coring.Diger(qb64=s.seal.said))]
            sealed = m.said in [a["d"] for a in s.seal.ked["a"]]
        elif form == "noseal":    # an event of the log that seals nothing, or one that is not in the log
            kwa["sscs"] = [(coring.Number(num=0), coring.Diger(qb64=s.icp.said))]
        elif form == "fakeseal":
            kwa["sscs"] = [(coring.Number(num=s.seal.sn), coring.Diger(qb64=s.icp.said))]
        elif form == "sealsig":   # seal of another message beside signatures
            kwa["sscs"] = [(coring.Number(num=0), coring.Diger(qb64=s.icp.said))]
            kwa["lsgs"] = [(pre, ss)]
        elif form == "cig":
            kwa["cigars"] = [cig(m, 7)]
        multi = len(s.stages[st]) > 1
        if form == "none":
            good = set()

        res, got = self.w.pass_on(m, **kwa)

        # ---- judgement
        r = self.refs.setdefault(m.said, Ref())
        known = s in c.senders
        d, lag = cfg["d"], cfg["ll"] if multi and not sealed else cfg["sl"]
        mdt = m.at
        inside = self.t - d - lag < mdt < self.t + d
        outside = not (self.t - d - lag <= mdt <= self.t + d)
        if m.x is not None:          # in an exchange
            xr = self.refs.get(m.x.said)
            if m is not m.x:
                open_ = xr is not None and xr.touched and not xr.gone and not xr.late and known
                never = xr is None or not xr.touched
            else:
                open_, never = True, False
            inside = inside and open_ and m.x.at <= mdt <= m.x.at + cfg["xl"]
            outside = outside or never or not (m.x.at <= mdt <= m.x.at + cfg["xl"])
        where = f"{name}: {m.ked['t']} dated {mdt:+d} s at {self.t:+d} s, earlier {r.key()}"
        out = [g for g in got if g[0] == m.said]
        if len(got) > 1 or len(out) != len(got):
            raise Bad(f"{where}: passed on {len(got)} messages for one")
        if out and out[0][1] != m.raw:
            raise Bad(f"{where}: passed on with other content")
        free = c.lists.get("denyList") or c.lists.get("allowList") or c.denials
        if free:
            dens = {tuple(x[1:]) for x in c.denials}
            barred = s.pre in c.lists.get("denyList", ()) or (c.lists.get("allowList") and s.pre not in c.lists["allowList"])
            if barred:
                if out:
                    raise Bad(f"{where}: passed on though its sender is not admitted")
                return
            if (m.ked["t"], m.ked["r"]) in dens or (m.ked["t"], "") in dens:
                if not out and form != "none" and kwa.get("lsgs"):
                    raise Bad(f"{where}: held back though its kind is exempt ({res})")
                return
        fits = quiet(good, s.kts[st])
        union = r.have | frozenset(good) if r.state in (None, st) else frozenset(good)
        if out:
            if r.passed:
                raise Bad(f"{where}: passed on again")
            if not known:
                raise Bad(f"{where}: passed on though nothing is known of the sender's keys")
            if not sealed and not quiet(union, s.kts[st]):
                raise Bad(f"{where}: passed on without the sender's authority (signatures so far {sorted(union)})")
            if r.first is None and outside:
                raise Bad(f"{where}: passed on outside its window")
            kw = out[0][2]
            if not sealed:
                handed = list(kw.get("sigers") or []) + [x for p, q in kw.get("lsgs") or [] if p.qb64 == s.pre for x in q]
                handed += [x for p, n, g, q in kw.get("tsgs") or [] if p.qb64 == s.pre for x in q]
                for x in handed:
                    if not any(x.qb64 == sig(m, k, i).qb64 for i, k in enumerate(s.stages[st])):
                        raise Bad(f"{where}: a signature that does not verify is handed on")
                if multi and fits is False and not {x.index for x in handed} >= set(union):
                    raise Bad(f"{where}: completed by earlier signatures, which are not handed on")
            r.passed = True
        else:
            must = False
            if known and not r.passed and (sealed or good):
                if r.first is None:
                    must = inside and (sealed or fits)
                elif not r.late and not r.gone and multi and not sealed and r.state == st and (good - r.have):
                    must = inside and quiet(union, s.kts[st])
            if must:
                raise Bad(f"{where}: held back though new, in time and signed by {sorted(union)} ({res})")
        if (sealed or good) and known:
            # it may have been recorded: from now on only its completion counts
            if r.first is None:
                if not outside:
                    r.first, r.state, r.have = self.t, st, frozenset(good)
                    r.touched = True
                    r.late = not inside
                    if not sealed and not multi and not fits:
                        r.late = True
            elif not r.passed or out:
                if r.state == st:
                    r.have = union
                else:
                    r.late = True
                if not inside:
                    r.late = True


OTHER = Sender([61], [62])
SETS = {}


def texts(s, n):
    """the ways a message of n keys can be signed: whole, each alone"""
    ks = s.stages[0]
    out = [("whole", list(zip(ks, range(len(ks)))))]
    if len(ks) > 1:
        out += [(f"key{i}", [(ks[i], i)]) for i in range(len(ks))]
    return out


def dated(m, at, x=None):
    m.at, m.x = at, x
    return m


def forms(case, s, m, label, which):
    """actions delivering m in the ways named"""
    ks = s.stages[0]
    n = len(ks)
    every = list(zip(ks, range(n)))
    for f in which:
        if f in ("lsg", "sig", "tsg"):
            who = every
        elif f.startswith("part"):
            i = int(f[4:])
            case.acts.append((f"{label} {f}", lambda r, i=i, nm=f"{label} {f}": r.deliver(s, m, "lsg", [every[i]], nm)))
            continue
        elif f.startswith("tart"):
            i = int(f[4:])
            case.acts.append((f"{label} {f}", lambda r, i=i, nm=f"{label} {f}": r.deliver(s, m, "tsg", [every[i]], nm)))
            continue
        elif f == "mixed":        # one good, one made by a strange key
            who = every[:1] + [(99, 1)]
        elif f == "twice":        # one key twice under two indices
            who = [(ks[0], 0), (ks[0], 1)]
        elif f == "new":          # the keys after a change
            who = list(zip(s.stages[1], range(len(s.stages[1]))))
        elif f == "badmix":       # strange key only
            who = [(99, 0), (98, 1)]
        else:
            who = every
        form = "lsg" if f in ("mixed", "twice", "new", "badmix") else f
        case.acts.append((f"{label} {f}", lambda r, form=form, who=who, nm=f"{label} {f}": r.deliver(s, m, form, who, nm)))


def common(case, ticks=(1, 3), rotates=()):
    for n in ticks:
        case.acts.append((f"{n} s pass", lambda r, n=n: r.tick(n)))
    case.acts.append(("pruned", lambda r: r.prune()))
    case.acts.append(("restart", lambda r: r.restart()))
    for s in rotates:
        s.rotated()
        case.acts.append(("keys change", lambda r, s=s: r.rotate(s) if r.stage[s.pre] == 0 else None))


def single(cfg, ats):
    s = Sender([11], [12])
    ms = [dated(msg("qry", s.pre, at, n=i), at) for i, at in enumerate(ats)]
    sealed = dated(msg("pro", s.pre, ats[0], n=5), ats[0])
    s.anchor([sealed.said])
    c = Case({"~": rec(cfg)}, lambda m: cfg, [s])
    forms(c, s, ms[0], "first", ["lsg", "tsg", "badmix"])
    if len(ms) > 1:
        forms(c, s, ms[1], "second", ["sig"])
    forms(c, s, sealed, "sealed", ["seal", "noseal"])
    common(c)
    return c


def forged(cfg):
    """everything that must not count"""
    s = Sender([11], [12])
    m = dated(msg("bar", s.pre, 0), 0)
    sealed = dated(msg("pro", s.pre, 0, n=5), 0)
    s.anchor([sealed.said])
    c = Case({"~": rec(cfg)}, lambda m: cfg, [s])
    forms(c, s, m, "plain", ["lsg", "old", "other", "wrong", "fakeseal", "sealsig", "seal", "none", "new", "cig"])
    forms(c, s, sealed, "sealed", ["triple", "fakeseal", "badmix"])
    u = Sender([71], [72])
    um = dated(msg("qry", u.pre, 0), 0)
    forms(c, u, um, "unknown sender", ["lsg"])
    common(c, ticks=(3,), rotates=[s])
    return c


def multi(cfg, at=0):
    s = Sender([21, 22, 23], [24, 25])
    m = dated(msg("qry", s.pre, at), at)
    sealed = dated(msg("bar", s.pre, at, n=5), at)
    s.anchor([sealed.said])
    c = Case({"~": rec(cfg)}, lambda m: cfg, [s])
    forms(c, s, m, "it", ["part0", "part1", "tart2", "lsg", "mixed", "twice", "new"])
    forms(c, s, sealed, "sealed", ["seal", "part0", "sealsig"])
    common(c, ticks=(3,), rotates=[s])
    c.acts.append(("an anchor", lambda r: r.anchors(s)))
    return c


def exchange(cfg, ats=(0, 1, 3), at=0):
    s = Sender([11], [12])
    x = dated(msg("xip", s.pre, at, r="/t"), at)
    x.x = x
    es = [dated(msg("exn", s.pre, at + a, r="/t", n=i, x=x.said), at + a, x) for i, a in enumerate(ats)]
    s.anchor([x.said, es[0].said])
    c = Case({"~": rec(cfg)}, lambda m: cfg, [s])
    forms(c, s, x, "opening", ["lsg", "seal", "badmix"])
    forms(c, s, es[0], "first", ["tsg", "seal"])
    for i, e in enumerate(es[1:]):
        forms(c, s, e, f"next{i}", ["lsg"])
    common(c)
    return c


def mexchange(cfg, at=0):
    s = Sender([21, 22, 23], [24, 25])
    x = dated(msg("xip", s.pre, at, r="/t"), at)
    x.x = x
    e = dated(msg("exn", s.pre, at + 1, r="/t", x=x.said), at + 1, x)
    s.anchor([])
    c = Case({"~": rec(cfg)}, lambda m: cfg, [s])
    c.acts.append(("an anchor", lambda r: r.anchors(s)))
    forms(c, s, x, "opening", ["part0", "tart1", "lsg"])
    forms(c, s, e, "exn", ["part0", "part1", "tsg", "twice"])
    common(c, ticks=(3,), rotates=[s])
    return c


def admitted(**kwa):
    a, b = Sender([11], [12]), Sender([13], [14])
    lists = {k: [dict(a=a, b=b)[x].pre for x in v] for k, v in kwa.items() if k != "denials"}
    c = Case({"~": rec(TIGHT)}, lambda m: TIGHT, [a, b], denials=kwa.get("denials", ()), **lists)
    for nm, s in (("a", a), ("b", b)):
        s.anchor([])
        m = dated(msg("qry", s.pre, 0), 0)
        forms(c, s, m, nm, ["lsg", "badmix"])
        forms(c, s, dated(msg("qry", s.pre, 0, r="logs"), 0), nm + " logs", ["lsg"])
        forms(c, s, dated(msg("bar", s.pre, 0), 0), nm + " bar", ["lsg"])
    common(c, ticks=(3,))
    return c


POOLS = {
    "single key, tight": lambda: single(TIGHT, (0, 1)),
    "single key, pruned late": lambda: single(WIDE, (0,)),
    "single key, dated ahead": lambda: single(TIGHT, (2, 1)),
    "forged": lambda: forged(TIGHT),
    "several keys, tight": lambda: multi(TIGHT),
    "several keys, pruned late": lambda: multi(WIDE, 1),
    "exchange, tight": lambda: exchange(TIGHT),
    "exchange, flat": lambda: exchange(FLAT),
    "exchange, dated ahead": lambda: exchange(FLAT, at=1),
    "exchange of several keys": lambda: mexchange(TIGHT),
    "exchange of several keys, flat": lambda: mexchange(FLAT, 1),
    "senders refused": lambda: admitted(denyList="a"),
    "senders named": lambda: admitted(allowList="a"),
    "refused and named": lambda: admitted(allowList="ab", denyList="b"),
    "exempt": lambda: admitted(denials=[([2, 0], "qry", "logs"), ([2, 0], "bar", "")]),
}
LIMIT = 40


class Bad(Exception):
    """a judgement"""


def explore(res, pool, lead, depth):
    """every history of the pool beginning with lead up to depth, one representative per state"""
    clock = Clock().install()
    case = POOLS[pool]()
    names = [n for n, _ in case.acts]
    r = Run(case, clock)

    def do(i, path):
        name, act = case.acts[i]
        here = path + (name,)
        res.add("transitions")
        try:
            act(r)
        except Bad as v:
            raise Violation(f"{pool}: {', '.join(here)}", f"{pool}: {', '.join(here)}: {v}")
        res.add("passed_on", len(r.w.got))
        del r.w.got[:]
        return here
    try:
        path = ()
        for i in lead:
            path = do(i, path)
        seen, todo = {r.state()}, [(r.save(), path)]
        res.add("states")
        for snap, path in todo:
            if len(path) >= depth:
                continue
            for i in range(len(names)):
                r.load(snap)
                if r.t > LIMIT:
                    continue
                here = do(i, path)
                k = r.state()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((r.save(), here))
    finally:
        r.w.close()


# ------------------------------------------------------------ which settings apply
def settings(res, part):
    """of several settings the most specific one applies: every kind and route at every age"""
    clock = Clock().install()
    types = {"~": 2, "qry": 4, "qry.R.ksn": 6, "rpy.R./x/add": 8, "bar": 10, "pro.R.ks": 12, "qr": 14, "pro.R.a": 9}
    for j, sub in enumerate(itertools.product((0, 1), repeat=len(types))):
        if j % 8 != part:
            continue
        have = {t: v for (t, v), on in zip(types.items(), sub) if on}
        if TIER == "quick" and sum(sub) not in (1, 2, len(types)):
            continue
        s = Sender([11], [12])
        s.anchor([])
        caches = {t: rec(dict(d=1, sl=v, ll=v, xl=v, psl=v, pll=v, pxl=v)) for t, v in have.items()}
        w = Guard(caches)
        w.event(s.icp, sigs(s.icp, [11]))
        i = 0
        for ilk, r in (("qry", "ksn"), ("qry", "logs"), ("pro", "ksn"), ("pro", "ks"), ("rpy", "/x/add"), ("rpy", "/x/cut"), ("bar", "ksn"),
                       ("pro", "a"), ("pro", "ab")):
            lag = have.get(f"{ilk}.R.{r}", have.get(ilk, have.get("~")))
            for age in sorted({0, 20} | {v + x for v in have.values() for x in (0, 2)}):
                clock.now = BASE + datetime.timedelta(seconds=age)
                i += 1
                m = msg(ilk, s.pre, 0, r=r, n=i)
                verdict, got = w.pass_on(m, lsgs=[(coring.Prefixer(qb64=s.pre), [sig(m, 11, 0)])],
                                     **(dict(cigars=[cig(m, 7)]) if ilk == "rpy" else {}))
                res.add("states")
                res.add("transitions")
                want = lag is not None and age < lag + 1
                if bool(got) != want and not (lag is not None and age == lag + 1):
                    raise Violation(f"settings {have}: {ilk} {r} {age}",
                                    f"settings {have}: {ilk} {r} of age {age} s {'passed on' if got else 'held back'} ({verdict})")
        w.close()


def unheard(res):
    """after a restart the first thing heard of a sender whose log is on disk is a message"""
    clock = Clock().install()
    for ks, x in itertools.product(([11], [21, 22]), (False, True)):
        s = Sender(ks, [12])
        w = Guard({"~": rec(TIGHT)})
        assert w.event(s.icp, sigs(s.icp, ks)) == "ok"
        clock.now = BASE
        w.reboot()
        m = msg("xip" if x else "qry", s.pre, 0)
        verdict, got = w.pass_on(m, lsgs=[(coring.Prefixer(qb64=s.pre), sigs(m, ks))])
        res.add("states")
        if not got:
            res.violation("restart: sender known only on disk",
                          f"after a restart the {m.ked['t']} of a sender whose log is stored is held back ({verdict})")
        w.close()


def job(res, spec):
    if spec[0] == "unheard":
        return unheard(res)
    if spec[0] == "settings":
        return settings(res, spec[1])
    return explore(res, *spec)


def main(res):
    jobs = [("settings", i) for i in range(8)] + [("unheard",)]
    for name in POOLS:
        jobs += [(name, (i,), DEPTH) for i in range(len(POOLS[name]().acts))]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


DEPTH = pick(5, 7)


def check():
    return run("K12", "model_checking", main)
