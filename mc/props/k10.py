"""Receipts.  Pools of events and of receipts of every form - unindexed by witnesses and watchers, indexed by witnesses, by other
logs' keys, attached to a replayed event, good, bad, misplaced and mixed in one message - are delivered to a real validator in
every order up to a depth, with escrow processing and restarts in between.  What is recorded under an accepted event must always be
signatures that arrived and verify by rules computed here; from every reached state, delivering the rest must have recorded every
one of them in its right place; and so too when the validator dies at any commit."""

import itertools

from ..kel import Clock, World, cig, icp, ixn, rct, receive, rot, sig, sigs, wig, wire, wit
from ..lib import Violation, explore_jobs, pick, run

DT = "1AAG2021-06-27T21c26c21d233257p00c00"


class Pool:
    def __init__(self):
        self.list = []         # (label, bytes, claims, said it is attached to or None)
        self.evs = {}          # said -> (event, witnesses, keys)
        self.final = {}        # pre -> saids of the log as it ends
        self.setup = []

    def ev(self, e, keys, wits=(), by=(), given=False, log=True, part=""):
        """an event of a log; wits: its witness list; by: witnesses whose signatures come with it"""
        self.evs[e.said] = (e, wits, keys)
        if log:
            f = self.final.setdefault(e.pre, [])
            del f[e.sn:]
            f.append(e.said)
        ws = [wig(e, w, wits.index(w)) for w in by]
        claims = [(e.said, "wig", wits.index(w), g.qb64) for w, g in zip(by, ws)]
        (self.setup if given else self.list).append((f"{e.ilk}{e.sn}{e.pre[1:3]}{part}", wire(e, sigs(e, keys), ws), claims, None))
        return e

    def claim(self, e, kind, *pa):
        """where a good signature of e belongs"""
        if kind == "c":
            w, raw = pa
            wits = self.evs[e.said][1]
            if raw is not None:
                return []
            if w in wits:
                return [(e.said, "wig", wits.index(w), wig(e, w, wits.index(w)).qb64)]
            return [(e.said, "rct", wit(w), cig(e, w).qb64)]
        if kind == "w":
            w, i, raw = pa
            wits = self.evs[e.said][1]
            return [(e.said, "wig", i, wig(e, w, i).qb64)] if raw is None and i < len(wits) and wits[i] == w else []
        by, k, i, raw, said = pa
        keys = self.evs[by.said][2]
        good = raw is None and said is None and by.ilk in ("icp", "rot") and i < len(keys) and keys[i] == k
        return [(e.said, "vrc", by.pre, by.sn, by.said, i, sig(e, k, i).qb64)] if good else []

    def receipt(self, label, e, cs=(), ws=(), ts=(), rs=(), said=None, on=None, first=None):
        """cs: (witness, raw or None); ws: (witness, index, raw or None); ts, rs: groups (event of receiptor, claimed said or None,
        [(key, index, raw or None)]).  said: the receipt names another event.  on: attached to the event itself"""
        claims = []
        cigs, wigs = [], []
        for w, raw in cs:
            cigs.append(cig(e, w, raw))
            claims += self.claim(e, "c", w, raw)
        for w, i, raw in ws:
            wigs.append(wig(e, w, i, raw))
            claims += self.claim(e, "w", w, i, raw)
        groups = []
        for gs in (ts, rs):
            out = []
            for by, gsaid, ss in gs:
                out.append((by.pre, by.sn, gsaid or by.said, [sig(e, k, i, raw=raw) for k, i, raw in ss]))
                for k, i, raw in ss:
                    claims += self.claim(e, "t", by, k, i, raw, gsaid)
            groups.append(out)
        if said is not None:
            claims = []
        if on is None:
            body, ss = rct(e.pre, e.sn, said or e.said), []
        else:
            body, ss = e, sigs(e, on)
        self.list.append((label, wire(body, ss, wigs, cigs, groups[0], groups[1], first=first), claims, e.said if on is not None else None))


# ---------------------------------------------------------------- pools
BAD = b"something else altogether"


def kel3(p, wits=(1, 2), toad=1, cut=1, add=3, by=((), (), ())):
    """inception, rotation to other witnesses, interaction"""
    i = p.ev(icp([1], [2], wits=wits, toad=toad), [1], wits, by[0])
    after = tuple(w for w in wits if w != cut) + (add,)
    r = p.ev(rot(i.pre, 1, i.said, [2], [3], toad=toad, cuts=(cut,), adds=(add,)), [2], after, by[1])
    x = p.ev(ixn(i.pre, 2, r.said), [2], after, by[2])
    return i, r, x


def witnesses():
    """receipts decide acceptance, and more come before and after"""
    p = Pool()
    i, r, x = kel3(p)
    p.receipt("rct0 by w1,w2", i, cs=[(1, None), (2, None)])
    p.receipt("rct1 by w2", r, cs=[(2, None)])
    p.receipt("rct1 by cut w1 and w3", r, cs=[(1, None), (3, None)])
    p.receipt("rct2 w2 at 0", x, ws=[(2, 0, None)])
    p.receipt("rct0 w2 at 1", i, ws=[(2, 1, None)])
    return p


def mixed():
    """good and bad in one message; the events need no further receipts"""
    p = Pool()
    i, r, x = kel3(p, wits=(1, 2, 4), by=((4,), (4,), (4,)))
    p.receipt("rct0 bad w1, w2, watcher", i, cs=[(1, BAD), (2, None), (9, None)])
    p.receipt("rct0 w1 at 7, w2 at 0, w2 at 1", i, ws=[(1, 7, None), (2, 0, None), (2, 1, None)])
    p.receipt("rct1 w3 at 0, bad w2, w3 at 2", r, ws=[(3, 0, None), (2, 0, BAD), (3, 2, None)])
    p.receipt("rct1 watcher bad, cut w1", r, cs=[(9, BAD), (1, None)])
    p.receipt("rct2 naming ixn wrongly", x, cs=[(2, None), (9, None)], said=r.said)
    p.receipt("rct2 w3,watcher", x, cs=[(3, None), (9, None)], ws=[(2, 0, None)])
    return p


def late():
    """witness receipts of older events while the log moves on"""
    p = Pool()
    i, r, x = kel3(p, wits=(1, 2, 4), by=((1,), (3,), (3,)))
    p.receipt("rct0 w2 at 1", i, ws=[(2, 1, None)])
    p.receipt("rct0 by w4", i, cs=[(4, None)])
    p.receipt("rct0 by w3", i, cs=[(3, None)])
    p.receipt("rct1 by w4", r, cs=[(4, None)])
    p.receipt("rct1 w2 at 0", r, ws=[(2, 0, None)])
    return p


def partial():
    """copies of events that lack receipts, next to receipts that complete them"""
    p = Pool()
    i, r, x = kel3(p, toad=2, by=((1,), (2,), ()))
    p.ev(i, [1], (1, 2), (2,), log=False, part="'")
    p.ev(r, [2], (2, 3), (3,), log=False, part="'")
    p.receipt("rct1 w3 at 1", r, ws=[(3, 1, None)])
    p.receipt("rct2 by w2,w3", x, cs=[(2, None), (3, None)])
    p.receipt("rct0 w1 at 0", i, ws=[(1, 0, None)])
    return p


def validators():
    """other logs' keys as receiptors"""
    p = Pool()
    t = p.ev(icp([1], [2]), [1])
    x = p.ev(ixn(t.pre, 1, t.said), [1])
    a = p.ev(icp([11, 12], [13]), [11, 12])
    b = p.ev(rot(a.pre, 1, a.said, [13], [14]), [13])
    c = p.ev(icp([21], [22]), [21])
    p.receipt("rct0 by a:0,bad 1,7", t, ts=[(a, None, [(11, 0, None), (12, 1, BAD), (12, 7, None)])])
    p.receipt("rct0 by a:1 and c", t, ts=[(a, None, [(12, 1, None)]), (c, None, [(21, 0, None)])])
    p.receipt("rct1 by b, old keys of it, and c", x, ts=[(b, None, [(13, 0, None)]), (b, None, [(11, 0, None)]), (c, None, [(21, 0, None)])])
    p.receipt("rct1 by c misplaced and a", x, ts=[(c, a.said, [(21, 0, None)]), (a, None, [(11, 0, None)])])
    p.receipt("rct0 by c with group and couple", t, ts=[(c, None, [(21, 0, None)])], cs=[(9, None)])
    return p


def groups():
    """the other form of group on receipts"""
    p = Pool()
    t = p.ev(icp([1], [2]), [1])
    x = p.ev(ixn(t.pre, 1, t.said), [1])
    a = p.ev(icp([11, 12], [13]), [11, 12])
    b = p.ev(rot(a.pre, 1, a.said, [13], [14]), [13])
    y = p.ev(ixn(a.pre, 2, b.said), [13])
    p.receipt("rct0 by a:5,0", t, rs=[(a, None, [(12, 5, None), (11, 0, None)])])
    p.receipt("rct1 by b wrongly, ixn, and b", x, rs=[(b, a.said, [(13, 0, None)]), (y, None, [(13, 0, None)]), (b, None, [(13, 0, None)])])
    p.receipt("rct0 by b and a", t, rs=[(b, None, [(13, 0, None)])], ts=[(a, None, [(12, 1, None)])])
    return p


def recovery():
    """receipts of the event that replaces another"""
    p = Pool()
    i = p.ev(icp([1], [2], wits=(1, 2), toad=1), [1], (1, 2), (1,))
    x = p.ev(ixn(i.pre, 1, i.said), [1], (1, 2), (2,), given=False)
    r = p.ev(rot(i.pre, 1, i.said, [2], [3], toad=1, cuts=(1,), adds=(3,)), [2], (2, 3))
    a = p.ev(icp([11], [12]), [11])
    p.receipt("rct1r w2 at 0", r, ws=[(2, 0, None)])
    p.receipt("rct1r by w3, watcher", r, cs=[(3, None), (9, None)])
    p.receipt("rct1r by a", r, ts=[(a, None, [(11, 0, None)])])
    p.receipt("rct1x by w1", x, cs=[(1, None)])
    return p


def attached():
    """receipts that come with a replayed event"""
    p = Pool()
    i, r, x = kel3(p, by=((1,), (2,), (2,)))
    a = p.ev(icp([11, 12], [13]), [11, 12])
    b = p.ev(rot(a.pre, 1, a.said, [13], [14]), [13])
    p.receipt("icp0 with w2, watcher", i, cs=[(2, None), (9, None)], on=[1])
    p.receipt("icp0 seen with bad watcher, w1, and a, b", i, cs=[(9, BAD), (1, None)], on=[1], first=(0, DT),
              rs=[(a, None, [(11, 0, None), (12, 1, BAD)]), (b, None, [(13, 0, None)])])
    p.receipt("rot1 with w3, cut w1, b wrongly, a", r, cs=[(3, None), (1, None)], on=[2],
              rs=[(b, a.said, [(13, 0, None)]), (a, None, [(12, 9, None), (12, 1, None)])])
    p.receipt("ixn2 seen with w3, b", x, cs=[(3, None)], on=[2], first=(2, DT), rs=[(b, None, [(13, 0, None)])])
    return p


POOLS = dict(witnesses=witnesses, mixed=mixed, late=late, partial=partial, validators=validators, groups=groups, recovery=recovery,
             attached=attached)


# ---------------------------------------------------------------- oracle
def recorded(w, pre, said):
    """claims the store makes under an event"""
    out = []
    for g in w.db.wigs.get(keys=(pre, said)):
        out.append((said, "wig", g.index, g.qb64))
    for p, c in w.db.rcts.get(keys=(pre, said)):
        out.append((said, "rct", p.qb64, c.qb64))
    for keys, g in w.db.vrcs.getTopItemIter(keys=(pre, said, "")):
        out.append((said, "vrc", keys[2], int(keys[3], 16), keys[4], g.index, g.qb64))
    return out


def judge(p, w, got):
    """nothing under an accepted event but good signatures that arrived, once each"""
    good = {c for m in got for c in m[2]}
    for pre in p.final:
        for said in w.kel(pre):
            have = recorded(w, pre, said)
            if len(set(have)) != len(have):
                return f"event {p.evs[said][0].ilk}{p.evs[said][0].sn} holds a receipt twice: {[c[1:] for c in have]}"
            for c in have:
                if c not in good:
                    return (f"event {p.evs[said][0].ilk}{p.evs[said][0].sn} holds {c[1:]}, which nobody's good signature put there "
                            f"({sorted(g[1:4] for g in good if g[0] == said)})")
    return None


def complete(p, w, got):
    """every good signature of the final log is there"""
    for pre, want in p.final.items():
        have = w.kel(pre)
        last = {}
        for said in have:
            last[p.evs[said][0].sn] = said
        if [last[n] for n in sorted(last)] != want:
            return f"log {pre[:4]} ends as {[p.evs[s][0].ilk for s in have]}, want {[p.evs[s][0].ilk for s in want]}"
        for said in want:
            rec = recorded(w, pre, said)
            for m in got:
                for c in m[2]:
                    if c[0] == said and c not in rec:
                        return f"receipt {c[1:5]} of {p.evs[said][0].ilk}{p.evs[said][0].sn} (of message {m[0]}) is not recorded"
    return None


def ident(w):
    return tuple((n, hash(tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in sorted(s.items()))))
                 for n, s in sorted(w.db.env._disk.dbs.items(), key=lambda i: i[0] or b"") if n is not None and s)


def enabled(w, p, m):
    if m[3] is None:
        return True
    e = p.evs[m[3]][0]
    return e.said in w.kel(e.pre) and e.pre in w.db.kevers and w.db.kevers[e.pre].sn >= e.sn


def finish(p, w, path, res, how, key):
    """everything else arrives"""
    rest = [m for n, m in enumerate(p.list) if n not in path]
    snap = w.save()
    for n, order in enumerate((rest, rest[::-1])):
        w.restore(snap)
        wait = list(order)
        while wait:
            left = []
            for m in wait:
                if enabled(w, p, m):
                    receive(w, m[1])
                    res.add("transitions")
                else:
                    left.append(m)
            w.escrows()
            if len(left) == len(wait):
                break
            wait = left
        bad = judge(p, w, p.list) or complete(p, w, [m for m in p.list if m not in wait])
        if bad:
            raise Violation(key, f"{how}, then the rest {'in order' if n == 0 else 'in reverse'}: {bad}")
    w.restore(snap)


def act(p, w, a):
    if a == "escrows":
        w.kvy.processEscrows()
    elif a == "restart":
        w.reboot()
    else:
        receive(w, p.list[a][1])


def explore(res, p, name, lead, limit):
    def show(path):
        return f"pool {name}, history {[p.list[a][0] if isinstance(a, int) else a for a in path]}"
    w = World()
    try:
        acts = list(range(len(p.list))) + ["escrows", "restart"]
        path = []
        for a in lead:
            if isinstance(a, int) and not enabled(w, p, p.list[a]):
                return
            act(p, w, a)
            path.append(a)
        todo, seen = [(w.save(), path)], set()
        while todo:
            snap, path = todo.pop(0)
            w.restore(snap)
            bad = judge(p, w, [p.list[a] for a in path if isinstance(a, int)])
            if bad:
                raise Violation(f"{name}:{show(path)}", f"{show(path)}: {bad}")
            finish(p, w, path, res, show(path), f"{name}:{show(path)}:finish")
            if len(path) >= limit:
                continue
            for a in acts:
                if path and (a == path[-1] or a == "restart" and path[-1] == "escrows"):
                    continue
                w.restore(snap)
                if isinstance(a, int) and not enabled(w, p, p.list[a]):
                    continue
                act(p, w, a)
                res.add("transitions")
                here = path + [a]
                k = (ident(w), frozenset(b for b in here if isinstance(b, int)))
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((w.save(), here))
    finally:
        w.close()


def deaths(res, p, name, lead):
    def show(path):
        return f"pool {name}, history {[p.list[a][0] if isinstance(a, int) else a for a in path]}"
    w = World()
    try:
        path = []
        for a in lead:
            if isinstance(a, int) and not enabled(w, p, p.list[a]):
                continue
            act(p, w, a)
            path.append(a)
        for a in list(range(len(p.list))) + ["escrows"]:
            if a in path or isinstance(a, int) and not enabled(w, p, p.list[a]):
                continue
            snap = w.save()
            at = 0
            while True:
                w.restore(snap)
                if not w.dies(at, act, p, w, a):
                    break
                w.reboot()
                res.add("deaths")
                res.add("states")
                how = f"{show(path)}, dies at commit {at} of {p.list[a][0] if isinstance(a, int) else a}, restarts"
                bad = judge(p, w, [p.list[b] for b in path + [a] if isinstance(b, int)])
                if bad:
                    raise Violation(f"{name}:{how}", f"{how}: {bad}")
                finish(p, w, path, res, how, f"{name}:{how}:finish")
                at += 1
            w.restore(snap)
    finally:
        w.close()


# ---------------------------------------------------------------- own receipts
def own(res):
    """a validator's own signatures on what comes from elsewhere are not taken for receipts unless it is told it may"""
    for form, mine, local, lax, early in itertools.product(("couple", "wig", "tsg", "rsg", "attached couple", "attached group"),
                                                           (False, True), (False, True), (False, True), (False, True)):
        if early and (form == "wig" or "attached" in form):
            continue
        p = Pool()
        t = p.ev(icp([1], [2], wits=(1, 2), toad=1), [1], (1, 2), (2,))
        a = p.ev(icp([11], [12]), [11])
        g = [(a, None, [(11, 0, None)])]
        kwa = dict(couple=dict(cs=[(1, None)]), wig=dict(ws=[(1, 0, None)]), tsg=dict(ts=g), rsg=dict(rs=g))
        kwa["attached couple"] = dict(cs=[(1, None)], on=[1])
        kwa["attached group"] = dict(rs=g, on=[1])
        p.receipt("r", t, **kwa[form])
        w = World(lax=lax, local=local)
        try:
            for m in p.list[1:2] + ([] if early else p.list[:1]):
                receive(w, m[1], local=local)
            w.db.prefixes.add(wit(1) if "couple" in form or form == "wig" else a.pre)
            if mine:
                w.db.prefixes.add(t.pre)
            receive(w, p.list[2][1], local=local)
            if early:
                receive(w, p.list[0][1], local=True)
            w.kvy.processEscrows()
            res.add("states")
            may = lax or (local and not mine)
            have = recorded(w, t.pre, t.said)
            if t.said not in w.kel(t.pre):
                if mine and not lax and not local:
                    continue
                raise AssertionError(f"event not taken {form} {mine} {local} {lax} {early}")
            have = [c for c in have if c not in p.list[0][2]]
            if have != (p.list[2][2] if may else []):
                raise Violation(f"own:{form}:{mine}:{local}:{lax}:{early}", f"own signature as {form} on {'own' if mine else 'another'} event"
                                f"{' that is yet to come' if early else ''}, {'local' if local else 'remote'}, lax={lax}: recorded "
                                f"{[c[1:4] for c in have]}, want {'it' if may else 'nothing'}")
        finally:
            w.close()


def job(res, spec):
    name, mode, lead, limit = spec
    Clock().install()
    if mode == "own":
        return own(res)
    p = POOLS[name]()
    if mode == "deaths":
        return deaths(res, p, name, lead)
    return explore(res, p, name, lead, limit)


def main(res):
    jobs = [("own", "own", (), 0)]
    for name in POOLS:
        n = len(POOLS[name]().list)
        jobs += [(name, "bfs", (a,), pick(3, 5)) for a in list(range(n)) + ["escrows"]]
        jobs += [(name, "deaths", tuple(range(n))[::s][:k], 0) for s in (1, -1) for k in range(0, n, pick(3, 1))]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K10", "model_checking", main)
