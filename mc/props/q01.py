"""Queries: each is answered once, with what it asks for, as soon as that is there, and not after its time.
Lockstep of the real query processing with a reference, over all sequences of questions, events, passes and waits."""

import datetime

from ..kel import Clock, World, cig, icp, ixn, make, receive, rot, seal, sig, sigs, wig, wire, wit, key
from ..lib import TIER, Violation, explore_jobs, run
from . import k03

TIMES = (299, 2, 86399 + 2)


def qry(route, q, n=0):
    return make(v="KERI10JSON000000_", t="qry", d="", dt=f"2021-06-27T21:26:{n:02d}.000000+00:00", r=route, rr="", q=q)


class Case:
    def __init__(self, own=()):
        self.own = own
        self.evs, self.msgs, self.toads = [], [], []     # the log asked for, its messages, full by then?
        self.qs = []
        self.base = []
        self.fat = {}        # number of event -> receipts needed, and had when it arrives
        self.late = []       # receipts that come later: (number of event, message, how many then)

    def ev(self, e, keys, wits=(), need=0, more=()):
        self.evs.append(e)
        self.msgs.append(wire(e, sigs(e, keys), [wig(e, w, i) for i, w in enumerate(wits)]))
        self.fat[len(self.evs) - 1] = [need, len(wits)]

    def ask(self, label, route, by, **q):
        s = qry(route, dict(i=self.evs[0].pre, src=wit(9), **q), len(self.qs))
        if isinstance(by, str):
            pre, msg = by, None
        if by == "n":
            msg, pre = wire(s, cigs=[cig(s, 7)]), wit(7)
        else:
            msg, pre = wire(s, lsgs=[(key(40), [sig(s, 40, 0)])]), key(40)
        self.qs.append((f"{label} by {by}", s, msg, pre, route, q))


def plain(own=False):
    """a log with witnesses; with own the receiver is one of them and knows events before they are witnessed"""
    c = Case([wit(1)] if own else [])
    n = 1 if own else 2
    i = icp([1], [2], wits=(1, 2), toad=2)
    other = icp([31], [32])
    x = ixn(i.pre, 1, i.said, [seal(other)])
    r = rot(i.pre, 2, x.said, [2], [3], toad=1, cuts=(2,))
    c.ev(i, [1], (1, 2), 2)
    c.ev(x, [1], (1, 2)[:n], 2)
    c.ev(r, [2], (1,), 1)
    if own:
        from ..kel import rct
        c.late.append((1, wire(rct(i.pre, 1, x.said), wigs=[wig(x, 2, 1)]), 2))
    return c, other


def sequence(name):
    kind, own, by = name.split("/")
    c, other = plain(own == "own")
    if kind == "numbers":
        c.ask("log", "logs", by)
        c.ask("log to 1", "logs", by, s="1")
        c.ask("log to 2", "logs", by, s="2")
    elif kind == "anchors":
        c.ask("log with anchor", "logs", by, a=seal(other))
        c.ask("log with no such anchor", "logs", by, a=dict(seal(other), s="1"))
        c.ask("log with anchor from 1", "logs", by, a=seal(other), fn="1")
    elif kind == "states":
        c.ask("state", "ksn", by)
        c.ask("log from 1", "logs", by, fn="1")
        c.ask("mail", "mbx", by, topics={"/x": 0})
    return c


NAMES = [f"{k}/{o}/{b}" for k in ("numbers", "anchors", "states") for o in ("far", "own") for b in ("n", "t")]


class Run:
    def __init__(self, c, clock):
        self.c, self.clock, self.base = c, clock, clock.now
        self.w = World(own=c.own)
        self.t, self.have, self.recd = 0, 0, {}
        self.since, self.first = {}, {}
        self.left = {}
        self.w.kvy.cues.clear()

    def save(self):
        return self.w.save(), self.t, self.have, dict(self.recd), dict(self.since), dict(self.first)

    def load(self, s):
        self.w.restore(s[0])
        self.t, self.have, self.recd, self.since = s[1], s[2], dict(s[3]), dict(s[4])
        self.first = dict(s[5])

    def ident(self):
        ages = tuple(sorted((i, self.t - s) for i, s in self.since.items()))
        firsts = tuple(sorted((i, self.t - s) for i, s in self.first.items()))
        return k03.ident(self.w), self.have, tuple(sorted(self.recd.items())), ages, firsts

    def full(self, n):
        need, had = self.c.fat[n]
        return max(had, self.recd.get(n, 0)) >= need

    def met(self, i):
        _, _, _, _, route, q = self.c.qs[i]
        if not self.have:
            return False
        last = self.have - 1
        if route == "logs" and "a" in q:
            return any(self.full(n) and q["a"] in e.sad.get("a", ()) for n, e in enumerate(self.c.evs[:self.have]))
        if route == "logs" and "s" in q:
            return last >= int(q["s"], 16) and self.full(last)
        if route == "ksn":
            return self.full(last)
        return True

    def tell(self, i):
        """a log without events from the number on is no answer"""
        _, _, _, _, route, q = self.c.qs[i]
        return {i} if route != "logs" or int(q.get("fn", "0"), 16) < self.have else set()

    def act(self, a):
        """what answers must come: set of questions"""
        self.clock.now = self.base + datetime.timedelta(seconds=self.t)
        w = self.w
        w.kvy.cues.clear()
        due = set()
        if a[0] == "event":
            receive(w, self.c.msgs[self.have], local=bool(self.c.own))
            self.have += 1
            self.check_known()
        elif a[0] == "receipt":
            n, msg, got = self.c.late[a[1]]
            receive(w, msg, local=bool(self.c.own))
            self.recd[n] = got
        elif a[0] == "ask":
            receive(w, self.c.qs[a[1]][2])
            if self.met(a[1]):
                due |= self.tell(a[1])
            else:
                self.since.setdefault(a[1], self.first.setdefault(a[1], self.t))
        elif a[0] == "pass":
            w.kvy.processEscrows()
            for i, s in list(self.since.items()):
                if self.t - s > w.kvy.TimeoutQNF:
                    del self.since[i]
                elif self.met(i):
                    due |= self.tell(i)
                    del self.since[i]
        elif a[0] == "wait":
            self.t += a[1]
        elif a[0] == "restart":
            w.reboot()
            for p in self.c.own:
                w.db.prefixes.add(p)
        return due

    def check_known(self):
        if self.w.kel(self.c.evs[0].pre)[-1:] != [self.c.evs[self.have - 1].said]:
            raise AssertionError(f"scenario is wrong {self.have} {self.w.kel(self.c.evs[0].pre)} {self.path}")

    def answers(self):
        out = []
        for cue in self.w.kvy.cues:
            kin = cue["kin"]
            if kin == "replay":
                out.append(("logs", cue["dest"], cue["src"], cue["pre"], tuple(bytes(m) for m in cue["msgs"])))
            elif kin == "reply" and cue["route"] == "/ksn":
                out.append(("ksn", cue["dest"], cue["src"], cue["serder"].ked["a"]["i"], cue["serder"]))
            elif kin == "stream":
                out.append(("mbx", None, cue["src"], cue["pre"], cue["serder"].said))
        return out

    def judge(self, due):
        """problem or None"""
        got = self.answers()
        pre = self.c.evs[0].pre
        if len(got) != len(due):
            return f"{len(got)} answers to the questions {[self.c.qs[i][0] for i in sorted(due)]}"
        left = list(got)
        for i in sorted(due):
            name, s, _, by, route, q = self.c.qs[i]
            hit = None
            for x in left:
                if x[0] == route and x[2] == wit(9) and x[3] == pre and (x[1] == by or route == "mbx"):
                    if route == "logs":
                        want = [e.said for e in self.c.evs[int(q.get("fn", "0"), 16):self.have]]
                        here = [m[m.index(b'"d":"') + 5:][:44].decode() for m in x[4]]
                        if here != want or not all(m.startswith(e.raw) for m, e in zip(
                                x[4], self.c.evs[int(q.get("fn", "0"), 16):])):
                            continue
                    elif route == "ksn":
                        a, e = x[4].ked["a"], self.c.evs[self.have - 1]
                        if int(a["s"], 16) != e.sn or a["d"] != e.said or not x[4].ked["r"].endswith(wit(9)):
                            continue
                    elif x[4] != s.said:
                        continue
                    hit = x
                    break
            if hit is None:
                return f"the question {name} is not answered, or wrongly"
            left.remove(hit)
        return None


def actions(r):
    if r.have < len(r.c.evs):
        yield "next event", ("event",)
    for n, (at, _, _) in enumerate(r.c.late):
        if r.have > at and at not in r.recd:
            yield f"late receipt of {at}", ("receipt", n)
    for i, q in enumerate(r.c.qs):
        # what comes again after its time need not wait again
        if r.t - r.first.get(i, r.t) <= r.w.kvy.TimeoutQNF:
            yield q[0], ("ask", i)
    yield "pass", ("pass",)
    if r.since and r.t < 10 ** 6:
        for t in TIMES:
            yield f"{t} s", ("wait", t)
        yield "restart", ("restart",)


def job(res, spec):
    name, first, depth = spec
    clock = Clock().install()
    if name == "table":
        return table(res, first, depth)
    r = Run(sequence(name), clock)
    try:
        todo = [(r.save(), ())]
        seen = {r.ident()}
        for level in range(depth):
            nxt = []
            for snap, path in todo:
                r.load(snap)
                acts = list(actions(r))
                for label, a in acts:
                    if level == 0 and label != first:
                        continue
                    if path and path[-1] == label and a[0] in ("pass", "restart"):
                        continue
                    r.load(snap)
                    r.path = path, label
                    due = r.act(a)
                    bad = r.judge(due)
                    res.add("transitions")
                    show = path + (label,)
                    if not bad:
                        waiting = len(r.w.db.env._disk.dbs.get(b"qnfs.", {}))
                        if waiting != len(r.since):
                            bad = f"{waiting} questions wait in place of {len(r.since)}"
                    if bad:
                        res.violation(f"{name}:{show}", f"{name}, {show}: {bad}", dict(path=show))
                        if res.full:
                            return
                        continue
                    r.w.kvy.cues.clear()
                    k = r.ident()
                    if k not in seen:
                        seen.add(k)
                        res.add("states")
                        nxt.append((r.save(), show))
            todo = nxt
    finally:
        r.w.close()


def table(res, kind, by):
    """every number in a question, at logs long enough for numbers of more than a digit; logs with delegator; own unwitnessed logs"""
    own = [wit(1)] if kind == "own" else []
    c = Case(own)
    boss, front = [], []
    wits = (1, 2) if own else ()
    if kind == "delegated":
        b = icp([21], [22])
        i = icp([1], [2], di=b.pre)
        x = ixn(b.pre, 1, b.said, [seal(i)])
        boss = [b, x, ixn(b.pre, 2, x.said)]
        front = [wire(e, sigs(e, [21])) for e in boss]
    else:
        i = icp([1], [2], wits=wits, toad=len(wits))
    c.ev(i, [1], wits[:1])
    if boss:
        c.msgs[0] = wire(i, sigs(i, [1]), source=(boss[1].sn, boss[1].said))
    n = {"long": 19, "delegated": 4, "own": 3}[kind]
    for k in range(1, n):
        e = ixn(i.pre, k, c.evs[-1].said)
        c.ev(e, [1], wits[:1] if k == n - 1 else wits)
    numbers = [None] + ["%x" % k for k in range(n + 2)]
    for fn in numbers:
        for s in numbers:
            c.ask("log", "logs", by, **{k: v for k, v in dict(fn=fn, s=s).items() if v is not None})
    w = World(own=own)
    try:
        for m in front:
            receive(w, m)
        have = 0
        while have < n:
            step = 1 if have < 2 or n < 10 else n - have
            for m in c.msgs[have:have + step]:
                receive(w, m, local=bool(own))
            have += step
            if w.kel(i.pre) != [e.said for e in c.evs[:have]]:
                raise AssertionError("scenario is wrong")
            snap = w.save()
            for label, q, msg, pre, route, kwa in c.qs:
                w.restore(snap)
                w.kvy.cues.clear()
                receive(w, msg)
                fn = int(kwa.get("fn", "0"), 16)
                met = "s" not in kwa or have > int(kwa["s"], 16) and (not own or have == 2)
                want = [e.said for e in c.evs[fn:have]] + [e.said for e in boss] if met else []
                got = [m[m.index(b'"d":"') + 5:][:44].decode() for cue in w.kvy.cues if cue["kin"] == "replay" and cue["dest"] == pre
                       for m in map(bytes, cue["msgs"])]
                waits = len(w.db.env._disk.dbs.get(b"qnfs.", {}))
                res.add("transitions")
                if got != want or len([cue for cue in w.kvy.cues if cue["kin"] == "replay"]) != bool(want) or waits != (not met):
                    raise Violation(f"table:{kind}:{by}:{have}:{kwa}", f"{kind} log of {have}, asked {kwa} by {by}: answered with {len(got)} "
                                    f"events, not the {len(want)} asked for; waiting {waits}")
            w.restore(snap)
            res.add("states")
    finally:
        w.close()


def main(res):
    jobs = [("table", k, b) for k in ("long", "delegated", "own") for b in ("n", "t")]
    depth = 6 if TIER == "quick" else 8
    for name in NAMES:
        clock = Clock().install()
        r = Run(sequence(name), clock)
        firsts = [label for label, _ in actions(r)]
        r.w.close()
        jobs += [(name, f, depth) for f in firsts]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("Q01", "model_checking", main)
