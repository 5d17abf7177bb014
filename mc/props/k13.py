"""Local identifiers.  What an agent controls, witnesses or approves is never decided by messages from afar: every order of local
and remote copies, whole, partial and rival, of events of an agent's own, of those it witnesses, delegates or is a member of, with
escrow passes, restarts and deaths, against a reference of who may decide what."""

from ..kel import Clock, Died, World, icp, ixn, key, receive, rot, seal, sig, sigs, wig, wire, wit, make, VS
from ..lib import Violation, explore_jobs, pick, run
from keri import recording


class Bad(Exception):
    pass


class Case:
    """events (line: those that truly happen, in order) of one identifier and copies of them"""

    def __init__(self, kind, pre, line, rivals=(), member=None):
        self.kind, self.pre, self.line, self.rivals, self.member = kind, pre, list(line), list(rivals), member
        self.setup, self.own, self.acts, self.full = [], [], [], {}
        self.need = {}              # said: [(keys, number)] that must have signed
        self.rounds = True

    def needs(self, ev, *sets):
        self.need[ev.said] = sets

    def copies(self, label, ev, ss, both=True, local=False, **kwa):
        """a copy signed by ss [(key, index)], from afar and (both) from here"""
        msg = wire(ev, [sig(ev, k, i) for k, i in ss], **kwa)
        for here in ((False, True) if both else (local,)):
            self.acts.append((f"{label} {'from here' if here else 'from afar'}", ("copy", ev, msg, tuple(ss), here, kwa.get("source"),
                                                                                len(kwa.get("wigs", ())))))

    def whole(self, ev, ss, **kwa):
        """how ev comes in the end, from here"""
        self.full[ev.said] = wire(ev, [sig(ev, k, i) for k, i in ss], **kwa)


class Run:
    def __init__(self, case):
        self.c = case
        self.w = World(lax=False, local=False)
        self.heard = {}                     # (said, here): signatures (key, index)
        self.came = set()                   # events that came from here with all they need
        self.sealed = set()                 # events whose delegator's approval came along
        self.seen = {}                      # said: witness signatures
        for o in case.own:
            rec = recording.HabitatRecord(hid=o["pre"], name=o["pre"][-6:], mid=o.get("mid"), smids=o.get("smids"), rmids=o.get("smids"))
            self.w.db.habs.pin(keys=(o["pre"],), val=rec)
            self.w.db.prefixes.add(o["pre"])
            if o.get("mid"):
                self.w.db.groups.add(o["pre"])
        for msg in case.setup:
            receive(self.w, msg, local=True)
            for ev in case.line:
                if msg.startswith(ev.raw):
                    self.heard[(ev.said, True)] = {(k, i) for keys, _ in case.need[ev.said] for i, k in enumerate(keys)}
        self.kels = {o["pre"]: self.w.kel(o["pre"]) for o in case.own if o["pre"] != case.pre}

    def save(self):
        return self.w.save(), {k: set(v) for k, v in self.heard.items()}, set(self.sealed), dict(self.seen), set(self.came)

    def load(self, snap):
        self.w.restore(snap[0])
        self.heard, self.sealed, self.seen, self.came = {k: set(v) for k, v in snap[1].items()}, set(snap[2]), dict(snap[3]), set(snap[4])

    def state(self):
        d = self.w.db.env._disk.dbs
        skip = (b"dtss.",)
        return (frozenset((k, frozenset(v)) for k, v in self.heard.items()), frozenset(self.sealed), frozenset(self.came),
                hash(tuple((n, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in dict(s).items())))
                           for n, s in sorted(d.items(), key=lambda x: x[0] or b"") if n and s and n not in skip)))

    def act(self, a):
        w = self.w
        if a[0] == "escrow":
            w.escrows()
        elif a[0] == "restart":
            w.reboot()
        else:
            ready = w.kel(self.c.pre) == [e.said for e in self.c.line[:a[1].sn]]
            self.note(a)
            receive(w, a[2], local=a[4])
            if a[2] == self.c.full.get(a[1].said) and a[4] and self.c.kind != "delegate":     # approval does not wait
                self.came.add(a[1].said)
            must = getattr(self.c, "must", {}).get(a[1].said)
            if ready and must and set(must) <= set(a[3]) and w.kel(self.c.pre)[-1] != a[1].said:
                raise Bad(f"event {a[1].snh} ({a[1].ked['t']}) is not accepted though enough others signed it")
        self.judge()

    def note(self, a):
        _, ev, msg, ss, here, source, wigs = a
        self.heard.setdefault((ev.said, here), set()).update(ss)
        self.seen[ev.said] = max(self.seen.get(ev.said, 0), wigs)
        if source and ev in self.c.line:
            self.sealed.add(ev.said)

    def enough(self, ev):
        here = self.heard.get((ev.said, True), set())
        far = self.heard.get((ev.said, False), set())
        if self.c.kind != "stranger" and not here and self.c.kind != "group":
            return "it never came from here"
        if self.c.member is not None:
            far = {(k, i) for k, i in far if k not in self.c.member}
        ss = here | far
        for keys, number in self.c.need[ev.said]:
            good = {i for k, i in ss if i < len(keys) and keys[i] == k}
            if len(good) < number:
                return f"signatures at {sorted(good)} that count are fewer than {number}"
        if self.c.kind == "delegate" and ev.ked["t"] in ("dip", "drt") and ev.said not in self.sealed:
            return "its delegator did not approve it"
        return None

    def judge(self):
        w, c = self.w, self.c
        kel = w.kel(c.pre)
        by = {e.said: e for e in c.line + c.rivals}
        for n, d in enumerate(kel):
            why = self.enough(by[d])
            if why:
                raise Bad(f"event {by[d].snh} ({by[d].ked['t']}) is accepted, but {why}")
        for p, k in self.kels.items():
            if w.kel(p) != k:
                raise Bad(f"the log of {p} changed")

    def finish(self):
        """then all comes from here, in order"""
        w, c = self.w, self.c
        for ev in c.line:
            self.heard.setdefault((ev.said, True), set()).update(x for s in c.need[ev.said] for x in [(k, i) for i, k in enumerate(s[0])])
            self.sealed.add(ev.said)
            if ev.said not in self.came:        # those that did are not told again
                receive(w, c.full[ev.said], local=c.kind != "stranger")
            w.escrows()
            self.judge()
        want = [e.said for e in c.line]
        if w.kel(c.pre) != want:
            raise Bad(f"then all from here in order: {len(w.kel(c.pre))} of {len(want)} events accepted")


# ---------------------------------------------------------------- cases
def own(kind="own"):
    """an identifier of its own, with two keys, and a rival rotation by one who has the keys too"""
    i = icp([0, 1], [2, 3], kt="2", nt="2")
    p = i.pre
    x = ixn(p, 1, i.said)
    r = rot(p, 2, x.said, [2, 3], [4], kt="2")
    rival = rot(p, 1, i.said, [2, 3], [5], kt="2")
    xx = ixn(p, 1, i.said, data=[dict(d=i.said)])
    c = Case(kind, p, [i, x, r], [rival, xx])
    c.own = [] if kind == "stranger" else [dict(pre=p)]
    old, new = [([0, 1], 2)], [([2, 3], 2)]
    for e, n in ((i, old), (x, old), (r, new), (rival, new), (xx, old)):
        c.needs(e, *n)
    c.setup = [wire(i, sigs(i, [0, 1]))]
    s, t = [(0, 0), (1, 1)], [(2, 0), (3, 1)]
    c.whole(i, s)
    c.whole(x, s)
    c.whole(r, t)
    c.copies("ixn 1", x, s)
    c.copies("ixn 1 by key 0", x, s[:1])
    c.copies("ixn 1 by key 1", x, s[1:])
    c.copies("rot 2", r, t)
    c.copies("rot 2 by key 0", r, t[:1])
    c.copies("rival rot 1", rival, t, both=False)
    c.copies("rival ixn 1", xx, s, both=False)
    return c


def watched():
    """an identifier of its own with witnesses elsewhere"""
    i = icp([0], [1], wits=(0, 1), toad=2)
    p = i.pre
    x = ixn(p, 1, i.said)
    r = rot(p, 2, x.said, [1], [2], toad=1, cuts=(0, 1), adds=(2,))
    rival = ixn(p, 1, i.said, data=[dict(d=i.said)])
    c = Case("own", p, [i, x, r], [rival])
    c.own = [dict(pre=p)]
    for e, k in ((i, 0), (x, 0), (r, 1), (rival, 0)):
        c.needs(e, ([k], 1))
    full = [wig(i, 0, 0), wig(i, 1, 1)]
    c.setup = [wire(i, sigs(i, [0]), full)]
    for e, k in ((i, 0), (x, 0), (r, 1)):
        c.whole(e, [(k, 0)])
    c.copies("ixn 1", x, [(0, 0)])
    c.copies("ixn 1 witnessed", x, [(0, 0)], wigs=[wig(x, 0, 0), wig(x, 1, 1)])
    c.copies("rot 2", r, [(1, 0)])
    c.copies("rot 2 witnessed", r, [(1, 0)], both=False, wigs=[wig(r, 2, 0)])
    c.copies("rival ixn 1 witnessed", rival, [(0, 0)], both=False, wigs=[wig(rival, 0, 0), wig(rival, 1, 1)])
    return c


def ward(witnessed=False):
    """a delegated identifier of its own (or that it witnesses), the delegator elsewhere"""
    b = icp([20], [21])
    wits = (0, 1) if witnessed else ()
    d = icp([0], [1], di=b.pre, wits=wits)
    p = d.pre
    a = ixn(b.pre, 1, b.said, data=[seal(d)])
    x = ixn(p, 1, d.said)
    r = rot(p, 2, x.said, [1], [2], ilk="drt", toad=len(wits))
    rival = rot(p, 1, d.said, [1], [3], ilk="drt", toad=len(wits))
    a2 = ixn(b.pre, 2, a.said, data=[seal(r), seal(rival)])
    c = Case("witness" if witnessed else "own", p, [d, x, r], [rival])
    c.own = [dict(pre=wit(0) if witnessed else p)]
    w0 = make(v=VS, t="icp", d="", i=wit(0), s="0", kt="1", k=[wit(0)], nt="0", n=[], bt="0", b=[], c=[], a=[])

    def w(e):
        return [wig(e, n, n) for n in wits]
    c.setup = [wire(e, sigs(e, [20])) for e in (b, a, a2)] + ([wire(w0, [wig(w0, 0, 0)])] if witnessed else
                                                              [wire(d, sigs(d, [0]), source=(1, a.said))])
    c.kin = [b.pre]
    for e, k in ((d, 0), (x, 0), (r, 1), (rival, 1)):
        c.needs(e, ([k], 1))
    c.whole(d, [(0, 0)], source=(1, a.said))
    c.whole(x, [(0, 0)])
    c.whole(r, [(1, 0)], source=(2, a2.said))
    if witnessed:
        c.copies("dip approved and witnessed", d, [(0, 0)], source=(1, a.said), wigs=w(d))
    c.copies("ixn 1", x, [(0, 0)], wigs=w(x))
    c.copies("drt 2", r, [(1, 0)], wigs=w(r))
    c.copies("drt 2 approved", r, [(1, 0)], source=(2, a2.said), wigs=w(r))
    c.copies("rival drt 1 approved", rival, [(1, 0)], both=False, source=(2, a2.said), wigs=w(rival))
    return c


def stranger():
    """a control: of an identifier that is none of its own all comes from afar"""
    c = own("stranger")
    c.rivals, c.acts = [], [a for a in c.acts if "afar" in a[0] and "rival" not in a[0]]
    return c


def newborn(two=True):
    """an inception of its own"""
    i = icp([0, 1], [2], kt="2")
    c = Case("own", i.pre, [i])
    c.own = [dict(pre=i.pre)]
    c.needs(i, ([0, 1], 2))
    c.whole(i, [(0, 0), (1, 1)])
    c.copies("icp", i, [(0, 0), (1, 1)])
    c.copies("icp by key 0", i, [(0, 0)])
    c.copies("icp by key 1", i, [(1, 1)])
    c.rounds = False        # an identifier without events does not outlive a restart
    return c


def witness():
    """an identifier it witnesses; afterwards others do, then it does again"""
    W = 0
    i = icp([0], [1], wits=(0, 1), toad=2)
    p = i.pre
    x = ixn(p, 1, i.said)
    r = rot(p, 2, x.said, [1], [2], toad=2, cuts=(1,), adds=(2,))
    rival = ixn(p, 1, i.said, data=[dict(d=i.said)])
    c = Case("witness", p, [i, x, r], [rival])
    c.own = [dict(pre=wit(W))]
    for e, k in ((i, 0), (x, 0), (r, 1), (rival, 0)):
        c.needs(e, ([k], 1))
    w0 = make(v=VS, t="icp", d="", i=wit(W), s="0", kt="1", k=[wit(W)], nt="0", n=[], bt="0", b=[], c=[], a=[])
    c.setup = [wire(w0, [wig(w0, W, 0)])]
    c.whole(i, [(0, 0)])
    c.whole(x, [(0, 0)])
    c.whole(r, [(1, 0)])
    for e, k, n in ((i, 0, "icp"), (x, 0, "ixn 1"), (r, 1, "rot 2")):
        c.copies(n, e, [(k, 0)])
        c.copies(n + " witnessed", e, [(k, 0)], both=False, wigs=[wig(e, w, j) for j, w in enumerate((0, 1) if e is not r else (0, 2))])
    c.copies("rival ixn 1", rival, [(0, 0)], both=False, wigs=[wig(rival, 0, 0), wig(rival, 1, 1)])
    return c


def taken():
    """an identifier that takes it as its witness later"""
    i = icp([0], [1])
    p = i.pre
    r = rot(p, 1, i.said, [1], [2], toad=1, adds=(0,))
    x = ixn(p, 2, r.said)
    rival = rot(p, 1, i.said, [1], [3], toad=1, adds=(0,))
    c = Case("witness", p, [i, r, x], [rival])
    c.own = [dict(pre=wit(0))]
    w0 = make(v=VS, t="icp", d="", i=wit(0), s="0", kt="1", k=[wit(0)], nt="0", n=[], bt="0", b=[], c=[], a=[])
    c.setup = [wire(w0, [wig(w0, 0, 0)]), wire(i, sigs(i, [0]))]
    for e, k in ((i, 0), (r, 1), (x, 1), (rival, 1)):
        c.needs(e, ([k], 1))
    c.whole(i, [(0, 0)])
    c.whole(r, [(1, 0)])
    c.whole(x, [(1, 0)])
    c.copies("rot 1", r, [(1, 0)])
    c.copies("rot 1 witnessed", r, [(1, 0)], both=False, wigs=[wig(r, 0, 0)])
    c.copies("ixn 2", x, [(1, 0)])
    c.copies("ixn 2 witnessed", x, [(1, 0)], both=False, wigs=[wig(x, 0, 0)])
    c.copies("rival rot 1 witnessed", rival, [(1, 0)], both=False, wigs=[wig(rival, 0, 0)])
    return c


def delegate():
    """another's identifier of which it is the delegator"""
    b = icp([20], [21])
    d = icp([0, 1], [2], kt="2", di=b.pre)
    p = d.pre
    r = rot(p, 1, d.said, [2], [3], ilk="drt")
    rival = rot(p, 1, d.said, [2], [4], ilk="drt")
    a = ixn(b.pre, 1, b.said, data=[seal(d)])
    a2 = ixn(b.pre, 2, a.said, data=[seal(r)])
    c = Case("delegate", p, [d, r], [rival])
    c.own = [dict(pre=b.pre)]
    c.setup = [wire(e, sigs(e, [20])) for e in (b, a, a2)]
    c.needs(d, ([0, 1], 2))
    c.needs(r, ([2], 1))
    c.needs(rival, ([2], 1))
    s = [(0, 0), (1, 1)]
    c.whole(d, s, source=(1, a.said))
    c.whole(r, [(2, 0)], source=(2, a2.said))
    c.copies("dip", d, s)
    c.copies("dip by key 0", d, s[:1])
    c.copies("dip approved", d, s, source=(1, a.said))
    c.copies("drt", r, [(2, 0)])
    c.copies("drt approved", r, [(2, 0)], source=(2, a2.said))
    c.copies("rival drt", rival, [(2, 0)], source=(2, a2.said))
    return c


def group():
    """a group of which one member is its own: that member signs here only"""
    m = icp([0], [1])
    g = icp([0, 10, 11], [1, 12, 13], kt="2", nt="2")
    p = g.pre
    x = ixn(p, 1, g.said)
    rival = ixn(p, 1, g.said, data=[dict(d=g.said)])
    c = Case("group", p, [g, x], [rival], member=[0])
    c.own = [dict(pre=m.pre), dict(pre=p, mid=m.pre, smids=[m.pre])]
    c.setup = [wire(m, sigs(m, [0])), wire(g, sigs(g, [0, 10, 11]))]
    for e in (g, x, rival):
        c.needs(e, ([0, 10, 11], 2))
    s = [(0, 0), (10, 1), (11, 2)]
    c.whole(g, s)
    c.whole(x, s)
    c.copies("ixn 1 by own", x, s[:1])
    c.copies("ixn 1 by own and one", x, s[:2])
    c.copies("ixn 1 by one", x, s[1:2], both=False)
    c.copies("ixn 1 by the other", x, s[2:], both=False)
    c.copies("ixn 1 by own and the other", x, [s[0], s[2]], both=False)
    c.copies("rival by own", rival, s[:1], both=False)
    c.copies("rival by own and one", rival, s[:2], both=False)
    return c


def regroup(late=False):
    """the own member of the group has new keys before the group uses them (or after), and the group rotates"""
    m = icp([0], [1])
    m1 = rot(m.pre, 1, m.said, [1], [2])
    g = icp([0, 10, 11], [1, 12, 13], kt="2", nt="2")
    p = g.pre
    x = ixn(p, 1, g.said)
    r = rot(p, 2, x.said, [1, 12, 13], [2, 14, 15], kt="2", nt="2")
    rival = ixn(p, 1, g.said, data=[dict(d=g.said)])
    c = Case("group", p, [g, x, r], [rival], member=[0, 1])
    c.own = [dict(pre=m.pre), dict(pre=p, mid=m.pre, smids=[m.pre])]
    c.setup = [wire(m, sigs(m, [0])), wire(g, sigs(g, [0, 10, 11]))] + ([] if late else [wire(m1, sigs(m1, [1]))])
    for e in (g, x, rival):
        c.needs(e, ([0, 10, 11], 2))
    c.needs(r, ([1, 12, 13], 2))
    s, t = [(0, 0), (10, 1), (11, 2)], [(1, 0), (12, 1), (13, 2)]
    c.whole(g, s)
    c.whole(x, s)
    c.whole(r, t)
    c.copies("ixn 1 by own", x, s[:1])
    c.copies("ixn 1 by the others", x, s[1:], both=False)
    c.copies("ixn 1 by own and one", x, s[:2], both=False)
    c.copies("rival by own and one", rival, s[:2], both=False)
    c.copies("rot 2 by the others", r, t[1:], both=False)
    c.copies("rot 2 by own", r, t[:1])
    c.copies("rot 2 by own and one", r, t[:2], both=False)
    c.copies("rot 2 by one", r, t[1:2])
    c.must = {x.said: s[1:], r.said: t[1:]}
    return c


CASES = dict(ward=ward, charge=lambda: ward(True), own=own, watched=watched, stranger=stranger, newborn=newborn, witness=witness, taken=taken, delegate=delegate, group=group, regroup=regroup, early=lambda: regroup(True))


def actions(c):
    return c.acts + [("escrow passes", ("escrow",))] + ([("restart", ("restart",))] if c.rounds else [])


def finished(r, res, how):
    snap = r.save()
    try:
        r.finish()
    except Bad as b:
        raise Violation(how, f"{how}: {b}")
    res.add("transitions", len(r.c.line))
    r.load(snap)


def job(res, spec):
    mode, nm, lead, depth = spec
    Clock().install()
    case = CASES[nm]()
    acts = actions(case)
    r = Run(case)

    def do(i, path):
        here = path + (acts[i][0],)
        res.add("transitions")
        try:
            r.act(acts[i][1])
        except Bad as b:
            raise Violation(f"{nm}: {', '.join(here)}", f"{nm}: {', '.join(here)}: {b}")
        return here
    try:
        path = ()
        for i in lead:
            path = do(i, path)
        if mode == "deaths":
            snap = r.save()
            for name, a in acts:
                if a[0] == "restart":
                    continue
                at = 0
                while True:
                    r.load(snap)
                    how = f"{nm}: {', '.join(path)}, death at commit {at} of {name}"
                    if a[0] == "copy":
                        r.note(a)
                    if not r.w.dies(at, (lambda: receive(r.w, a[2], local=a[4])) if a[0] == "copy" else r.w.kvy.processEscrows):
                        break
                    r.w.reboot()
                    res.add("deaths")
                    res.add("states")
                    for then in ("", "escrow passes", name):
                        left = r.save()
                        try:
                            r.judge()
                            if then == name and a[0] == "copy":
                                r.act(a)
                            if then:
                                r.w.escrows()
                                r.judge()
                        except Bad as b:
                            raise Violation(f"{how}, then {then}", f"{how}, then {then}: {b}")
                        finished(r, res, f"{how}, then {then}")
                        r.load(left)
                    at += 1
            return
        seen, todo = {r.state()}, [(r.save(), path)]
        res.add("states")
        finished(r, res, f"{nm}: {', '.join(path)}")
        for snap, path in todo:
            if len(path) >= depth:
                continue
            for i in range(len(acts)):
                r.load(snap)
                here = do(i, path)
                k = r.state()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((r.save(), here))
                    finished(r, res, f"{nm}: {', '.join(here)}")
    finally:
        r.w.close()


def main(res):
    jobs = []
    for nm in CASES:
        c = CASES[nm]()
        n = len(actions(c))
        jobs += [("bfs", nm, (i,), pick(4, 6)) for i in range(n)]
        if c.rounds:
            jobs += [("deaths", nm, (), 0)] + [("deaths", nm, (i,), 0) for i in range(n)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K13", "model_checking", main)
