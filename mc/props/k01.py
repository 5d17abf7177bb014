"""A key event is accepted exactly when it validly extends the log.  From every base log, every
candidate that differs from a valid extension in at most two (thorough: three) respects is
delivered to the real processor and to the reference judge; verdict, key state, logs, stored
signatures and escrow must agree."""

import itertools

from .. import kelmodel as km
from ..kel import World, Clock, dig, digs, icp, ixn, key, kstate, rot, seal, sig, wig, wit
from ..lib import Violation, explore_jobs, in_repo, pick, run
from keri.core import eventing

VERDICT = {"OutOfOrderError": "ooo", "MissingSignatureError": "psig", "MissingWitnessSignatureError": "pwit",
           "LikelyDuplicitousError": "dup"}
COMMIT = {key(i): digs(i) for i in range(40)}


def commits(k):
    return COMMIT.get(k, ())


class Log:
    basic = False            # prefix is the key itself, so rival inceptions share it
    """a base log: how it was made, and what may come next"""

    def __init__(self):
        self.steps = []          # (serder, sgs, wgs) ready to deliver
        self.st = None
        self.keys = []           # key ids of current list
        self.nxt = []            # key ids committed next
        self.wits = []
        self.fresh = 20          # next unused key id

    def add(self, ev, ksig, wsig):
        sgs, wgs = ksig, wsig
        v, self.st = km.judge(self.st, ev, [d[1] for d in sgs], [d[1] for d in wgs], commits)
        assert v == "accept", v
        self.steps.append((ev, sgs, wgs))
        return self

    def pre(self):
        return self.st.pre


def sg(ev, k, i, mode="same", on=None):
    """(real signature, what it is worth)"""
    if mode == "same":
        return sig(ev, k, i), km.Sg(key(k), i, i)
    if mode == "only":
        return sig(ev, k, i, only=True), km.Sg(key(k), i, None)
    if mode == "diff":
        return sig(ev, k, i, ondex=on), km.Sg(key(k), i, on)
    if mode == "bad":
        return sig(ev, k, i, raw=b"something else"), km.Sg("", i, i)


def wg(ev, w, i, mode="same"):
    if mode == "bad":
        return wig(ev, w, i, raw=b"something else"), km.Sg("", i)
    return wig(ev, w, i), km.Sg(wit(w), i)


def wdup(ev, w, i):
    from keri.core import indexing
    a = wig(ev, w, i)
    return (indexing.Siger(raw=a.raw, code=indexing.IdrDex.Ed25519_Crt_Sig, index=i), km.Sg(wit(w), i))


def allsg(ev, keys):
    return [sg(ev, k, i) for i, k in enumerate(keys)]


def allwg(ev, wits):
    return [wg(ev, w, i) for i, w in enumerate(wits)]


def start(keys, nxt, kt=None, nt=None, wits=(), toad=None, cnfg=(), basic=False, by=0):
    lg = Log()
    lg.basic = basic
    ev = icp(keys, nxt, kt=kt, nt=nt, wits=wits, toad=toad, cnfg=cnfg, basic=basic,
             raw=dict(n=[digs(k)[(by + i) % len(digs(k))] for i, k in enumerate(nxt)]))
    lg.keys, lg.nxt, lg.wits = list(keys), list(nxt), list(wits)
    return lg.add(ev, allsg(ev, keys), allwg(ev, wits))


def inter(lg, data=()):
    ev = ixn(lg.pre(), lg.st.sn + 1, lg.st.said, data)
    return lg.add(ev, allsg(ev, lg.keys), allwg(ev, lg.wits))


def turn(lg, nxt, sn=None, cuts=(), adds=(), toad=0, **kwa):
    sn = lg.st.sn + 1 if sn is None else sn
    ev = rot(lg.pre(), sn, lg.st.at[sn - 1], lg.nxt, nxt, cuts=cuts, adds=adds, toad=toad, **kwa)
    wits = [w for w in lg.wits if w not in cuts] + list(adds)
    lg.keys, lg.nxt, lg.wits = list(lg.nxt), list(nxt), wits
    return lg.add(ev, allsg(ev, lg.keys), allwg(ev, wits))


def bases():
    one = lambda **k: start([1], [2], **k)                        # noqa: E731
    three = lambda **k: start([1, 2, 3], [4, 5, 6], **k)          # noqa: E731
    half = ["1/2", "1/2", "1/2"]
    return {
        "none": lambda: Log(),
        "basic": lambda: one(basic=True),
        "basic-ixn-ixn": lambda: inter(inter(one(basic=True))),
        "icp": one,
        "icp-ixn": lambda: inter(one()),
        "icp-ixn-ixn": lambda: inter(inter(one()), [dict(d="EHT4NPwuaoiugPFX0m7KIDd6VhfCQ0GgspqsBLkP7ZO6")]),
        "icp-rot-ixn": lambda: inter(turn(one(), [3])),
        "icp-rot-rot": lambda: turn(turn(one(), [3]), [4]),
        "icp-ixn-rec": lambda: turn(inter(one()), [3], sn=1),
        "icp-ixn-ixn-rec1": lambda: turn(inter(inter(one())), [3], sn=1),
        "icp-ixn-ixn-rec1-ixn": lambda: inter(turn(inter(inter(one())), [3], sn=1)),
        "three2": lambda: three(kt="2", nt="2"),
        "three2w": lambda: three(kt="2", nt="2", wits=(1, 2, 3), toad=2),
        "three2w-ixn": lambda: inter(three(kt="2", nt="2", wits=(1, 2, 3), toad=2)),
        "kinds": lambda: three(kt="2", nt="2", by=1),
        "kinds2": lambda: three(kt="2", nt="2", by=4),
        "kinds3": lambda: start([1, 2, 3], [4, 5], kt="2", nt="2", by=7),
        "weighted": lambda: three(kt=half, nt=half),
        "weighted2": lambda: start([1, 2, 3], [4, 5, 6], kt=[["1/2", "1/2"], ["1"]], nt=[["1"], ["1/2", "1/2"]]),
        "onew-ixn-rec": lambda: turn(inter(one(wits=(1, 2), toad=1)), [3], sn=1, cuts=(1,), adds=(3,), toad=1),
        "onew-rot": lambda: turn(one(wits=(1, 2), toad=1), [3], cuts=(1,), adds=(3,), toad=2),
        "estonly": lambda: one(cnfg=["EO"]),
        "abandoned": lambda: turn(one(), []),
        "fixed": lambda: start([1], []),
    }


# ------------------------------------------------------------ candidates
def deviations(lg, kind):
    """axis -> list of alternative values; absent axis = the valid value"""
    n = len(lg.nxt)
    ax = dict(sigs=["none", "first", "last", "allbut0", "badfirst", "wrongkey", "far", "only", "dupcode", "swapdex",
                    "shift", "dupindex"])
    if lg.st is not None:
        sn = lg.st.sn
        ax["sn"] = sorted({s for s in range(0, sn + 3)})
        ax["prior"] = ["at0", "cur", "bogus", "self1"]
        if lg.wits:
            ax["wigs"] = ["none", "one", "most", "dup", "bad", "far", "shuffled"]
    else:
        ax["wigs"] = ["none", "one", "most", "dup", "bad", "far", "shuffled"]
    ax["data"] = ["seal"]
    if kind in ("rot", "rec", "icp"):
        ax["kt"] = ["0", "1", "2", "4", ["1/2"] * max(n, 2), ["1"], [["1/2", "1/2"], ["1"]]]
        ax["nxt"] = ["empty", "two", "same"]
        ax["nt"] = ["0", "2", ["1/2", "1/2"]]
        ax["toad"] = [0, 1, 2, 3, 4]
        ax["wits"] = ["cut0", "add", "swap", "addtwo", "dupadd", "cutall", "cutnon", "addmem", "dupcut", "cutadd", "cutmix", "cutnonadd", "addmix", "swapmem"]
    if kind in ("rot", "rec"):
        ax["keys"] = ["rev", "first", "extra", "wrong", "old", "twice", "lasttwo"]
    if kind == "icp":
        ax["keys"] = ["rev", "first", "extra", "twice"]
        ax["cnfg"] = [["EO"], ["DND"], ["EO", "DND"]]
        ax["wits"] = ["cut0", "add", "addtwo", "dupadd"]
    return ax


def build(lg, kind, at, dev):
    """the candidate for one combination of deviations -> (serder, sgs, wgs)"""
    st = lg.st
    data = [dict(i="EHT4NPwuaoiugPFX0m7KIDd6VhfCQ0GgspqsBLkP7ZO6", s="0",
                 d="EHT4NPwuaoiugPFX0m7KIDd6VhfCQ0GgspqsBLkP7ZO6")] if dev.get("data") else []
    if kind == "icp":
        keys, wits0 = [1] if lg.basic else [1, 2, 3], [1, 2]
    else:
        keys, wits0 = list(lg.nxt), list(lg.wits)
    if kind == "ixn":
        keys = list(lg.keys)
    alt = dev.get("keys")
    if alt == "rev":
        keys = keys[::-1]
    elif alt == "first":
        keys = keys[:1]
    elif alt == "extra":
        keys = keys + [30]
    elif alt == "wrong":
        keys = [31] + keys[1:]
    elif alt == "old":
        keys = list(lg.keys)
    elif alt == "twice":
        keys = keys[:1] + keys
    elif alt == "lasttwo":
        keys = keys[-2:]
    fresh = {"empty": [], "two": [20, 21], "same": list(lg.nxt)}.get(dev.get("nxt"), [20])
    if kind == "icp" and not dev.get("nxt"):
        fresh = [20, 21, 22]
    nt = dev.get("nt")
    cuts, adds = [], []
    w = dev.get("wits")
    if w == "cut0":
        cuts = wits0[:1]
    elif w == "add":
        adds = [8]
    elif w == "swap":
        cuts, adds = wits0[:1], [8]
    elif w == "addtwo":
        adds = [8, 9]
    elif w == "dupadd":
        adds = [8, 8]
    elif w == "cutall":
        cuts = list(wits0)
    elif w == "cutnon":
        cuts = [7]
    elif w == "addmem":
        adds = wits0[:1]
    elif w == "dupcut":
        cuts = wits0[:1] * 2
    elif w == "cutmix":
        cuts = wits0[-1:] + [7]
    elif w == "cutnonadd":
        cuts, adds = [7], [8]
    elif w == "addmix":
        adds = [8] + wits0[-1:]
    elif w == "swapmem":
        cuts, adds = wits0[:1], wits0[-1:]
    elif w == "cutadd":
        cuts, adds = wits0[:1], wits0[:1]
    wits = [x for x in wits0 if x not in cuts] + adds if kind != "ixn" else wits0
    toad = dev.get("toad", (min(2, len(wits)) if kind == "icp" else len(wits)))
    if kind == "icp":
        ev = icp(keys, fresh, kt=dev.get("kt", "1" if lg.basic else "2"), nt=nt, wits=wits, toad=toad,
                 cnfg=dev.get("cnfg", ()), data=data, basic=lg.basic)
    else:
        sn = dev.get("sn", at)
        prior = {"at0": st.at[0], "cur": st.said, "bogus": "EHT4NPwuaoiugPFX0m7KIDd6VhfCQ0GgspqsBLkP7ZO6",
                 "self1": st.at.get(max(0, sn - 2), st.said)}.get(dev.get("prior")) or st.at.get(sn - 1, st.said)
        if kind == "ixn":
            ev = ixn(st.pre, sn, prior, data)
        else:
            ev = rot(st.pre, sn, prior, keys, fresh, kt=dev.get("kt"), nt=nt, toad=toad, cuts=cuts, adds=adds,
                     data=data)
    # signatures: each key of the list the event is to be signed with signs at its own position,
    # and at the position of its commitment when that differs
    sgs = []
    for i, k in enumerate(keys):
        j = lg.nxt.index(k) if k in lg.nxt else None
        if kind in ("rot", "rec") and j is not None and j != i:
            sgs.append(sg(ev, k, i, "diff", j))
        else:
            sgs.append(sg(ev, k, i))
    s = dev.get("sigs")
    if s == "none":
        sgs = []
    elif s == "first":
        sgs = sgs[:1]
    elif s == "last":
        sgs = sgs[-1:]
    elif s == "allbut0":
        sgs = sgs[1:]
    elif s == "badfirst":
        sgs = [sg(ev, keys[0], 0, "bad")] + sgs[1:]
    elif s == "wrongkey":
        sgs = [sg(ev, 33, 0)] + sgs[1:]
    elif s == "far":
        sgs = sgs[:-1] + [sg(ev, keys[-1], len(keys))]
    elif s == "only":
        sgs = [sg(ev, k, i, "only") for i, k in enumerate(keys)]
    elif s == "dupcode":
        sgs = sgs[:1] + [sg(ev, keys[0], 0, "only"), sg(ev, keys[0], 0, "diff", 1)]
    elif s == "dupindex":
        sgs = [sg(ev, keys[0], 0, "diff", j) for j in range(1, 4)]
    elif s == "swapdex":
        sgs = [sg(ev, k, i, "diff", (i + 1) % max(2, len(keys))) for i, k in enumerate(keys)]
    elif s == "shift":
        sgs = [sg(ev, k, i + 1) for i, k in enumerate(keys)]
    wgs = allwg(ev, wits)
    v = dev.get("wigs")
    if v == "none":
        wgs = []
    elif v == "one":
        wgs = wgs[:1]
    elif v == "most":
        wgs = wgs[:-1]
    elif v == "dup":
        wgs = wgs[:1] + ([wdup(ev, wits[0], 0)] if wits else [])
    elif v == "bad":
        wgs = [wg(ev, x, i, "bad") for i, x in enumerate(wits)]
    elif v == "far":
        wgs = [wg(ev, x, i + len(wits)) for i, x in enumerate(wits)]
    elif v == "shuffled":
        wgs = [wg(ev, x, (i + 1) % max(1, len(wits))) for i, x in enumerate(wits)]
    return ev, sgs, wgs


def combos(ax, k):
    names = sorted(ax)
    yield {}
    for r in range(1, k + 1):
        for ns in itertools.combinations(names, r):
            for vs in itertools.product(*(ax[n] for n in ns)):
                yield dict(zip(ns, vs))


# ------------------------------------------------------------ judging
def deliver(w, ev, sgs, wgs):
    return w.event(ev, [s for s, _ in sgs], [x for x, _ in wgs])


QUIET = (b"kels.", b"fels.", b"stts.", b"fons.")


def compare(w, before, st, ev, sgs, wgs, res, key, show):
    worth, wworth = [d for _, d in sgs], [d for _, d in wgs]
    want, nst = km.judge(st, ev, worth, wworth, commits)
    db = w.db
    disk0 = dict(db.env._disk.dbs)
    nfel = len(list(db.fels.getAllIter(keys=ev.pre)))
    got = deliver(w, ev, sgs, wgs)
    res.add("transitions")
    if got == "ok":
        got = "accept" if len(list(db.fels.getAllIter(keys=ev.pre))) > nfel else "redeliver"
    else:
        got = VERDICT.get(got, "reject")
    bad = None
    if got != want:
        bad = f"verdict {got}, a validator must answer {want}"
    elif want == "accept":
        bad = agrees(w, nst, ev, worth, wworth)
    else:
        same = [n for n in (QUIET if want != "reject" else db.env._disk.dbs)
                if db.env._disk.dbs.get(n) != disk0.get(n)]
        if same:
            bad = f"verdict {want} but tables {same} changed"
        elif st is not None and w.state(st.pre) != st.seen():
            bad = f"verdict {want} but the key state is now {w.state(st.pre)}"
        elif st is None and ev.pre in db.kevers:
            bad = f"verdict {want} but a key state exists"
        elif want in ESC and not held(db, want, ev):
            bad = f"verdict {want} but the event is not held for later"
    if bad:
        res.violation(key, f"{show}: {bad}", dict(event=ev.sad, sigs=worth, wigs=wworth))
        return None
    return want, nst


ESC = dict(psig="pses", pwit="pwes", ooo="ooes", dup="ldes")


def held(db, verdict, ev):
    return ev.said in list(getattr(db, ESC[verdict]).getAllIter(keys=ev.pre)) and \
        db.evts.get(keys=(ev.pre, ev.said)) is not None


def agrees(w, nst, ev, worth, wworth):
    """the accepted event is logged and every view of the key state shows it"""
    db, pre = w.db, nst.pre
    seen = w.state(pre)
    want = nst.seen()
    if seen != want:
        return f"accepted, key state differs: {[(f, seen[f], want[f]) for f in want if seen[f] != want[f]]}"
    again = kstate(eventing.Kever(state=db.states.get(keys=pre), db=db))
    if again != want:
        return f"accepted, stored key state differs: {[(f, again[f], want[f]) for f in want if again[f] != want[f]]}"
    fel = tuple(db.fels.getAllIter(keys=pre))
    if fel != nst.first:
        return f"first seen order is {fel}, must be {nst.first}"
    for n, d in enumerate(nst.first):
        if db.fons.get(keys=(pre, d)).sn != n:
            return f"first seen number of {d} is not {n}"
    for sn, d in nst.at.items():
        if db.kels.getLast(keys=pre, on=sn) != d:
            return f"event at {sn} is {db.kels.getLast(keys=pre, on=sn)}, must be {d}"
    e = db.evts.get(keys=(pre, ev.said))
    if e is None or e.raw != ev.raw:
        return "the accepted event is not stored as received"
    keys = nst.k
    if {(s.index, s.ondex) for s in db.sigs.get(keys=(pre, ev.said))} != \
            {(s.index, s.ondex) for s in km.good(keys, worth)}:
        return "stored controller signatures are not the verified ones"
    if {s.index for s in db.wigs.get(keys=(pre, ev.said))} != {s.index for s in km.good(nst.b, wworth)}:
        return "stored witness signatures are not the verified ones"
    return None


def load(w, lg, res, name):
    st = None
    for ev, sgs, wgs in lg.steps:
        r = compare(w, None, st, ev, sgs, wgs, res, f"{name}@base{ev.sn}", f"making base log {name}")
        if r is None or r[0] != "accept":
            return None
        st = r[1]
    return st


def kinds(lg):
    if lg.st is None:
        return [("icp", 0)]
    out = [("icp", 0)] if lg.basic else []
    out += [("ixn", lg.st.sn + 1), ("rot", lg.st.sn + 1)]
    out += [("rec", sn) for sn in range(lg.st.est[0] + 1, lg.st.sn + 1)]
    return out


def job(res, spec):
    name, kind, at, part, of, depth = spec
    Clock().install()
    lg = bases()[name]()
    w = World()
    try:
        st = load(w, lg, res, name)
        if lg.steps and st is None:
            return
        snap = w.save()
        seen = set()
        for n, dev in enumerate(combos(deviations(lg, kind), depth)):
            if n % of != part:
                continue
            try:
                ev, sgs, wgs = build(lg, kind, at, dev)
            except Exception as ex:          # not even expressible as an event message
                if in_repo(ex.__traceback__) and dev.get("kt") != "0" and \
                        not (lg.basic and kind == "icp" and ("kt" in dev or "keys" in dev)):
                    raise Violation(f"{name}:{kind}{at}:{sorted(dev.items())}:make",
                                    f"log {name}, {kind} at {at} with {dev}: cannot be made into a message: {ex!r}")
                res.add("inexpressible")
                continue
            ident = (ev.said, tuple(s.qb64 for s, _ in sgs), tuple(x.qb64 for x, _ in wgs))
            if ident in seen:
                continue
            seen.add(ident)
            res.add("states")
            w.restore(snap)
            show = f"log {name}, {kind} at {at} with {dev}"
            r = compare(w, snap, st, ev, sgs, wgs, res, f"{name}:{kind}{at}:{sorted(dev.items())}", show)
            if r and r[0] == "accept":         # the same event again adds nothing
                res.add("accepted")
                compare(w, None, r[1], ev, sgs[:1], wgs[:1], res, f"{name}:{kind}{at}:{sorted(dev.items())}:again",
                      show + ", delivered again")
                if n % 7 == 0 and st is not None:
                    old, osg, owg = lg.steps[-1]
                    compare(w, None, r[1], old, osg[:1], owg[:1], res, f"{name}:{kind}{at}:{sorted(dev.items())}:old",
                          show + ", then the event before it again")
            if res.full:
                return
    finally:
        w.close()


def main(res):
    depth = pick(2, 3)
    of = pick(4, 24)
    jobs = []
    for name, mk in bases().items():
        for kind, at in kinds(mk()):
            d = depth
            jobs += [(name, kind, at, i, of, d) for i in range(of)]
    res.add("base_logs", len(bases()))
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K01", "model_checking", main)
