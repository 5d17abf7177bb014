"""Registries.  Pools of registry events — genuine ones, rivals, forgeries, copies with too few backer signatures or the wrong
place in the issuer's log — are delivered to a real validator in every order up to a depth, with escrow processing and restarts
in between.  After every step each accepted registry log is judged against the rules, computed here from the events alone; from
every reached state delivering all genuine messages must complete the genuine logs; a validator that dies at any commit must be
as sound and complete after it restarts."""

import dataclasses

from ..kel import Clock, icp, ixn, kering, receive, rot, seal, sigs, wig, wire, wit
from ..lib import Violation, explore_jobs, pick, run
from ..tel import Telling, acdc, bis, brv, iss, rev, tseal, vcp, vrt, wired


class Pool:
    def __init__(self):
        self.setup, self.list, self.evs, self.kel, self.keys = [], [], {}, {}, {}
        self.want = {}         # identifier -> saids of its genuine log
        self.again = False     # copies that spoil a genuine one which waits; it must arrive again
        self.front = False     # another issuer's registry may take an identifier first

    # -- issuers
    def person(self, k, wits=(), given=True):
        e = icp([k], [k + 1])
        self.keys[e.pre] = k
        self.kel[e.pre] = [e]
        self.put(f"icp{k}", wire(e, sigs(e, [k])), given)
        return e.pre

    def put(self, label, msg, given=False, said=None, backers=()):
        (self.setup if given else self.list).append((label, msg, said, frozenset(backers)))

    def note(self, pre, data, given=True, label=""):
        """a genuine event of an issuer's log that carries data"""
        log = self.kel[pre]
        e = ixn(pre, log[-1].sn + 1, log[-1].said, data)
        log.append(e)
        self.put(f"ixn{e.sn}{label}", wire(e, sigs(e, [self.keys[pre]])), given)
        return e

    def forged(self, pre, data, by):
        """an event of an issuer's log signed by someone else"""
        log = self.kel[pre]
        e = ixn(pre, log[-1].sn + 1, log[-1].said, data)
        self.put(f"forged-ixn{e.sn}", wire(e, sigs(e, [by])))
        return e

    # -- registry events
    def know(self, e):
        self.evs[e.said] = e
        return e

    def copy(self, label, e, at, baks=(), idx=None, given=False):
        """one copy on the wire: place it claims in the issuer's log, backers that sign, and where they say they stand"""
        self.know(e)
        idx = list(range(len(baks))) if idx is None else idx
        self.put(label, wired(e, at, [wig(e, b, i) for b, i in zip(baks, idx)]), given, e.said, [wit(b) for b in baks])
        return e

    def genuine(self, label, e, by, baks=(), idx=None, given=False, anchored=True):
        at = self.note(by, [tseal(e)], anchored, label="/" + label)
        self.want.setdefault(e.ked["i"], []).append(e.said)
        self.copy(label, e, at, baks, idx, given)
        return e

    def attack(self, label, e, by, baks=(), idx=None):
        """an event properly anchored in its maker's own log"""
        at = self.note(by, [tseal(e)], True)
        self.copy(label, e, at, baks, idx)
        return e


# ---------------------------------------------------------------- pools
CRED = dict(n=0)


def cred(who, reg, n):
    return acdc(who, reg, "E" + "AllTheseAreNotAnySchemaDigest" + f"{n:014d}").said


def plain():
    """one issuer, no backers: issue, revoke, second revocation, and a re-issue"""
    p = Pool()
    A = p.person(1)
    r = p.genuine("vcp", vcp(A), A)
    c1, c2 = cred(A, r.pre, 1), cred(A, r.pre, 2)
    i1 = p.genuine("iss1", iss(c1, r.pre), A)
    v1 = p.genuine("rev1", rev(c1, r.pre, i1.said), A)
    p.genuine("iss2", iss(c2, r.pre), A)
    p.attack("rev1-again", rev(c1, r.pre, v1.said, sn=2), A)
    p.attack("rev2-prior", rev(c2, r.pre, v1.said), A)
    p.attack("vrt", vrt(r.pre, 1, r.said, 0), A)
    p.attack("bis1", bis(c1, r.pre, r), A)
    return p


def stranger():
    """somebody else with a registry of his own attacks the issuer's credentials"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    r = p.genuine("vcp", vcp(A), A)
    q = p.genuine("vcpB", vcp(B), B, given=True)
    c1, c2 = cred(A, r.pre, 1), cred(A, r.pre, 2)
    i1 = p.genuine("iss1", iss(c1, r.pre), A)
    p.genuine("iss2", iss(c2, r.pre), A)
    p.attack("revB-in-own", rev(c1, q.pre, i1.said), B)
    p.attack("revB-in-A", rev(c1, r.pre, i1.said), B)
    e = rev(c2, r.pre, p.want[c2][0])
    p.copy("revB-at-A", e, p.kel[A][2])
    f = p.forged(A, [tseal(e)], 11)
    p.copy("revB-forged", e, f)
    p.attack("rev-of-registry", rev(r.pre, q.pre, r.said), B)
    return p


def front():
    """somebody else issues the issuer's credential in his own registry"""
    p = Pool()
    p.front = True
    A, B = p.person(1), p.person(11)
    r = p.genuine("vcp", vcp(A), A)
    q = p.genuine("vcpB", vcp(B), B)
    c1 = cred(A, r.pre, 1)
    i1 = p.genuine("iss1", iss(c1, r.pre), A)
    p.genuine("rev1", rev(c1, r.pre, i1.said), A)
    j1 = p.attack("issB", iss(c1, q.pre), B)
    p.attack("revB", rev(c1, q.pre, j1.said), B)
    p.attack("revB-of-A", rev(c1, q.pre, i1.said), B)
    p.attack("revA-of-B", rev(c1, r.pre, j1.said), A)
    return p


def late():
    """registry events before the log of their issuer, and with wrong or missing places first"""
    p = Pool()
    p.again = True
    A = p.person(1)
    r = p.genuine("vcp", vcp(A), A, anchored=False)
    c1 = cred(A, r.pre, 1)
    i1 = p.genuine("iss1", iss(c1, r.pre), A, anchored=False)
    v1 = p.genuine("rev1", rev(c1, r.pre, i1.said), A, anchored=False)
    p.copy("iss1-wrong-place", i1, p.kel[A][1])
    p.copy("rev1-no-such-place", v1, ixn(A, 9, r.said, [tseal(v1)]))
    p.copy("vcp-wrong-place", r, p.kel[A][2])
    return p


def misplaced():
    """places named by number and digest that do not belong together; seals that name another number"""
    p = Pool()
    p.again = True
    A = p.person(1)
    r = p.genuine("vcp", vcp(A), A)
    c1, c2 = cred(A, r.pre, 1), cred(A, r.pre, 2)
    i1 = p.genuine("iss1", iss(c1, r.pre), A)
    v1 = p.genuine("rev1", rev(c1, r.pre, i1.said), A)
    log = p.kel[A]
    p.copy("iss1-other-digest", i1, ixn(A, log[2].sn, log[0].said, [tseal(i1)]))
    p.copy("rev1-other-digest", v1, ixn(A, log[3].sn, log[2].said, []))
    j = iss(c2, r.pre)
    p.copy("iss2-other-number", j, p.note(A, [dict(tseal(j), s="1")]))
    p.copy("iss2-other-credential", j, p.note(A, [dict(tseal(j), i=c1)]))
    p.copy("iss2-none", j, p.note(A, []))
    return p


def rivals():
    """two revocations of one credential, only one of which the issuer made"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    r = p.genuine("vcp", vcp(A), A)
    c1 = cred(A, r.pre, 1)
    i1 = p.genuine("iss1", iss(c1, r.pre), A)
    p.genuine("rev1", rev(c1, r.pre, i1.said), A, anchored=False)
    f = rev(c1, r.pre, i1.said, dt="2022-01-01T00:00:00.000000+00:00")
    p.copy("rev1-rival", f, p.kel[A][3])
    p.attack("rev1-rivalB", rev(c1, r.pre, i1.said, dt="2023-01-01T00:00:00.000000+00:00"), B)
    p.copy("rev1-prior", rev(c1, r.pre, r.said), p.kel[A][3])
    g = iss(c1, r.pre, dt="2024-01-01T00:00:00.000000+00:00")
    p.copy("iss1-rival", g, p.kel[A][2])
    return p


def backers():
    """a registry with backers: threshold two of two, then another set"""
    p = Pool()
    p.again = True
    A = p.person(1)
    r = vcp(A, baks=(1, 2), toad=2)
    p.genuine("vcp", r, A, baks=(1, 2))
    c1, c2 = cred(A, r.pre, 1), cred(A, r.pre, 2)
    i1 = p.genuine("bis1", bis(c1, r.pre, r), A, baks=(1, 2))
    t = p.genuine("vrt", vrt(r.pre, 1, r.said, 2, cuts=(1,), adds=(3,)), A, baks=(2, 3))
    p.genuine("brv1", brv(c1, i1.said, r.pre, t), A, baks=(2, 3))
    p.genuine("bis2", bis(c2, r.pre, t), A, baks=(3, 2), idx=[1, 0])
    p.copy("vcp-one", r, p.kel[A][1], (1,))
    p.copy("bis1-one-twice", i1, p.kel[A][2], (2, 2), [1, 1])
    p.copy("vrt-old-backers", t, p.kel[A][3], (1, 2))
    p.copy("bis2-none", p.evs[p.want[c2][0]], p.kel[A][5])
    return p


def sidestep():
    """an issuer that would do without its backers: an issuance refers to a registry rotation that is never accepted"""
    p = Pool()
    A = p.person(1)
    r = vcp(A, baks=(1,), toad=1)
    p.genuine("vcp", r, A, baks=(1,))
    c1 = cred(A, r.pre, 1)
    t = vrt(r.pre, 1, r.said, 0, cuts=(1,))
    p.copy("vrt-unanchored", t, p.kel[A][1])
    u = vrt(r.pre, 3, t.said, 1, cuts=(1,), adds=(4,))
    p.copy("vrt-far", u, p.kel[A][1], (4,))
    p.attack("bis1-by-t", bis(c1, r.pre, t), A)
    p.attack("bis1-by-u", bis(c1, r.pre, u), A, baks=(4,))
    p.attack("iss1", iss(c1, r.pre), A)
    c2 = cred(A, r.pre, 2)
    p.genuine("bis2", bis(c2, r.pre, r), A, baks=(1,))
    return p


def rotations():
    """registry rotations in a row, with rivals"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    r = vcp(A, baks=(1,), toad=1)
    p.genuine("vcp", r, A, baks=(1,))
    t = p.genuine("vrt1", vrt(r.pre, 1, r.said, 1, adds=(2,)), A, baks=(1,))
    u = p.genuine("vrt2", vrt(r.pre, 2, t.said, 1, cuts=(1,)), A, baks=(2,))
    p.genuine("vrt3", vrt(r.pre, 3, u.said, 0, cuts=(2,)), A)
    p.attack("vrt2-prior", vrt(r.pre, 2, r.said, 1, cuts=(1,)), A, baks=(2,))
    p.attack("vrt1-byB", vrt(r.pre, 1, r.said, 1, cuts=(1,), adds=(5,)), B, baks=(5,))
    p.attack("vrt2-cuts-none", vrt(r.pre, 2, t.said, 1, cuts=(4,)), A, baks=(1,))
    p.copy("vrt1-toad", vrt(r.pre, 1, r.said, 3, adds=(2,)), p.kel[A][2], (1, 2))
    return p


POOLS = dict(plain=plain, stranger=stranger, front=front, late=late, rivals=rivals, backers=backers, sidestep=sidestep,
             rotations=rotations, misplaced=misplaced)


# ---------------------------------------------------------------- reference
def fold(evs):
    """backers and threshold after a registry's log"""
    b, toad = list(evs[0].ked["b"]), int(evs[0].ked["bt"], 16)
    for e in evs[1:]:
        b = [x for x in b if x not in e.ked["br"]] + list(e.ked["ba"])
        toad = int(e.ked["bt"], 16)
    return b, toad


def place(p, kels, e, issuer):
    """where the issuer's accepted log commits to this event"""
    for k in p.kel.get(issuer, ()):
        if k.said in kels.get(issuer, ()) and k.ked.get("a") == [tseal(e)]:
            return k.sn, k.said
    return None


def judge(p, tels, kels, got):
    """what is wrong with these accepted logs; got: said -> backers whose signatures arrived with it"""
    logs = {}
    for x, items in tels.items():
        if [on for on, _ in items] != list(range(len(items))):
            return f"log of {x[:8]} has gaps: {items}"
        for on, said in items:
            e = p.evs.get(said)
            if e is None or e.ked["i"] != x or e.sn != on:
                return f"log of {x[:8]} holds {said} at {on}"
        logs[x] = [p.evs[s] for _, s in items]
    regs = {x: es for x, es in logs.items() if es[0].ilk == "vcp"}
    for x, es in logs.items():
        if x in regs:
            for n, e in enumerate(es):
                if n and (e.ilk != "vrt" or e.ked["p"] != es[n - 1].said or "NB" in es[0].ked["c"]):
                    return f"registry log {x[:8]} accepted {e.ilk} at {n}"
                if not place(p, kels, e, es[0].ked["ii"]):
                    return f"{e.ilk}{n} of registry {x[:8]} is not anchored in the log of its issuer"
                if n:
                    b, _ = fold(es[:n])
                    br, ba = e.ked["br"], e.ked["ba"]
                    if set(br) - set(b) or set(ba) & set(b) or set(ba) & set(br):
                        return f"{e.ilk}{n} of registry {x[:8]} changes backers wrongly"
                b, toad = fold(es[:n + 1])
                if toad > len(b) or (b and toad < 1):
                    return f"{e.ilk}{n} of registry {x[:8]} has threshold {toad} of {len(b)}"
                if len(set(b) & got[e.said]) < toad:
                    return f"{e.ilk}{n} of registry {x[:8]} accepted with {len(set(b) & got[e.said])} of {toad} backers"
            continue
        reg = None
        for n, e in enumerate(es):
            k = e.ked
            home = k["ri"] if e.ilk in ("iss", "rev") else k["ra"]["i"]
            reg = reg or home
            if home not in regs:
                return f"{e.ilk} of {x[:8]} accepted without its registry"
            if home != reg:
                return f"{e.ilk} of {x[:8]}: registry {home[:8]} acts on an issuance of registry {reg[:8]}"
            if e.ilk not in ((("iss", "bis"), ("rev", "brv"))[n] if n < 2 else ()):
                return f"log of credential {x[:8]} holds {e.ilk} at {n}"
            if n and k["p"] != es[n - 1].said:
                return f"{e.ilk} of {x[:8]} does not follow the issuance"
            bare = "NB" in regs[home][0].ked["c"]
            if bare != (e.ilk in ("iss", "rev")):
                return f"{e.ilk} of {x[:8]} accepted in a registry {'without' if bare else 'with'} backers"
            if not place(p, kels, e, regs[home][0].ked["ii"]):
                return f"{e.ilk} of {x[:8]} is not anchored in the log of its registry's issuer"
            if not bare:
                at = [m for m, r in enumerate(regs[home]) if r.said == k["ra"]["d"]]
                if not at:
                    return f"{e.ilk} of {x[:8]} refers to a registry event that is not accepted"
                b, toad = fold(regs[home][:at[0] + 1])
                if len(set(b) & got[e.said]) < toad:
                    return f"{e.ilk} of {x[:8]} accepted with {len(set(b) & got[e.said])} of {toad} backers"
    return None


def seen_state(p, w, tels, kels):
    """what the validator tells about registries and credentials, against its own logs"""
    regs = {x: [p.evs[s] for _, s in it] for x, it in tels.items() if p.evs[it[0][1]].ilk == "vcp"}
    vcs = {e.ked["i"] for e in p.evs.values() if e.ilk not in ("vcp", "vrt")}
    known = {e.pre for e in p.evs.values() if e.ilk == "vcp"}
    vcs -= known
    for x in known:
        if (x in w.reger.tevers) != (x in regs):
            return f"registry {x[:8]} {'known' if x in w.reger.tevers else 'not known'}, log {x in regs}"
    for x, es in regs.items():
        t = w.reger.tevers[x]
        b, toad = fold(es)
        st = t.state()
        pl = place(p, kels, es[-1], es[0].ked["ii"])
        have = (t.sn, t.serder.said, t.toad, sorted(t.baks), t.pre, t.noBackers, t.regk)
        want = (len(es) - 1, es[-1].said, toad, sorted(b), es[0].ked["ii"], "NB" in es[0].ked["c"], x)
        if have != want:
            return f"registry {x[:8]} has state {have}, its log gives {want}"
        have = (int(st.s, 16), st.d, int(st.bt, 16), sorted(st.b), st.ii, st.et, st.i)
        if have != (want[0], want[1], toad, sorted(b), want[4], es[-1].ilk, x):
            return f"registry {x[:8]} reports state {have}, its log gives {want}"
        for v in vcs:
            s = t.vcState(v)
            log = [p.evs[d] for _, d in tels.get(v, ())]
            if log and (log[0].ilk == "vcp" or (log[0].ked.get("ri") or log[0].ked["ra"]["i"]) != x):
                log = []
            if not log:
                if s is not None:
                    return f"registry {x[:8]} reports {s.et} of {v[:8]} that it never issued"
                continue
            if s is None:
                return f"registry {x[:8]} does not know {v[:8]} that it issued"
            pl = place(p, kels, log[-1], es[0].ked["ii"])
            a = s.a if isinstance(s.a, dict) else dataclasses.asdict(s.a)
            have = (s.et, int(s.s, 16), s.d, s.i, s.ri, a.get("s"), a.get("d"))
            want = (log[-1].ilk, len(log) - 1, log[-1].said, v, x, pl[0], pl[1])
            if have != want:
                return f"registry {x[:8]} reports {have} of {v[:8]}, its log gives {want}"
    return None


# ---------------------------------------------------------------- exploration
def look(p, w, got, told=True):
    kels = {x: set(w.kel(x)) for x in p.kel}
    tels = w.tels()
    return judge(p, tels, kels, got) or (told and seen_state(p, w, tels, kels)), tels, kels


def ident(w):
    t = tuple(sorted((x, t.sn, t.serder.said, t.toad, tuple(t.baks)) for x, t in dict.items(w.reger.tevers)))
    d = tuple((n, hash(tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in sorted(s.items())))) for env in (w.reger.env, w.db.env)
              for n, s in sorted(env._disk.dbs.items(), key=lambda i: i[0] or b"") if n is not None and s)
    return t, d


def missing(p, tels):
    return [x for x, want in p.want.items() if [s for _, s in tels.get(x, ())][:len(want)] != want]


def genuine(p, path):
    """genuine messages still to come, in an order in which each could be accepted on arrival"""
    return [m for n, m in enumerate(p.list) if m[1] in p.right and (p.again or n not in path)]


def prepare(name):
    p = POOLS[name]()
    p.right = set()
    for x, log in p.kel.items():
        for e in log:
            p.right.add(bytes(wire(e, sigs(e, [p.keys[x]]))))
    for label, msg, said, backers in p.setup + p.list:
        if said and any(said in v for v in p.want.values()) and "-" not in label:
            p.right.add(msg)
    return p


def finish(p, w, got, res, how, key, path):
    """all genuine messages that did not arrive yet do so"""
    got = dict(got)
    seq = genuine(p, path)
    orders = (seq, seq[::-1])
    snap = w.save()
    for n, order in enumerate(orders):
        w.restore(snap)
        g = dict(got)
        for m in order:
            w.get(m[1])
            if m[2]:
                g[m[2]] = g.get(m[2], frozenset()) | m[3]
        w.settle()
        res.add("transitions", len(order))
        bad, tels, kels = look(p, w, g)
        if bad:
            raise Violation(key + ":finish", f"{how}, then the genuine messages {'in order' if n == 0 else 'in reverse'}: {bad}")
        lost = missing(p, tels)
        if lost and p.front and any(tels.get(x, [(0, None)])[0][1] not in p.want[x] + [None] for x in lost):
            res.violation("front:taken", "a registry of another issuer that issues a credential's identifier first keeps the "
                          "issuer's own issuance from being accepted")
        elif lost:
            raise Violation(key + ":lost", f"{how}, then all genuine messages {'in order' if n == 0 else 'in reverse'}: the log of "
                            f"{', '.join(p.evs[p.want[x][0]].ilk + ' ' + x[:8] for x in lost)} is not completed: "
                            f"{ {x[:8]: [p.evs[s].ilk for _, s in v] for x, v in tels.items()} }")
    w.restore(snap)


def replay(p, w, res, how, key):
    """what the validator would pass on lets another validator reach the same logs"""
    _, tels, _ = look(p, w, GOT_ALL(p))
    o = Telling()
    try:
        for x in p.kel:
            for m in w.db.clonePreIter(pre=x, gvrsn=kering.Vrsn_1_0):
                receive(o, bytes(m))
        regs = [x for x in tels if p.evs[tels[x][0][1]].ilk == "vcp"]
        for x in regs + [x for x in tels if x not in regs]:
            for m in w.reger.clonePreIter(pre=x, gvrsn=kering.Vrsn_1_0):
                o.get(bytes(m))
        have = o.tels()
        res.add("replays")
        if have != tels:
            lost = [x[:8] for x in tels if have.get(x) != tels[x]]
            raise Violation(key + ":replay", f"{how}: another validator fed with this one's logs does not accept the same: {lost}")
    finally:
        o.close()


def GOT_ALL(p):
    g = {}
    for _, _, said, backers in p.setup + p.list:
        if said:
            g[said] = g.get(said, frozenset()) | backers
    return g


def job(res, spec):
    name, mode, lead, limit = spec
    Clock().install()
    p = prepare(name)
    w = Telling()
    try:
        got0 = {}
        for label, msg, said, backers in p.setup:
            w.get(msg)
            if said:
                got0[said] = got0.get(said, frozenset()) | backers
        bad, _, _ = look(p, w, got0)
        if bad:
            raise Violation(f"{name}:setup", f"pool {name}: {bad}")
        acts = list(range(len(p.list))) + ["escrows", "restart"]

        def act(a, got):
            if a == "escrows":
                w.kvy.processEscrows()
                w.tvy.processEscrows()
            elif a == "restart":
                w.reboot()
            else:
                label, msg, said, backers = p.list[a]
                w.get(msg)
                if said:
                    got = {**got, said: got.get(said, frozenset()) | backers}
            return got

        def show(path):
            return f"pool {name}, history {[p.list[a][0] if isinstance(a, int) else a for a in path]}"
        if mode == "deaths":
            return deaths(res, p, w, name, lead, act, show, got0, limit)
        got, path = got0, []
        todo, seen = [], set()
        for a in lead:
            got = act(a, got)
            path.append(a)
            bad, _, _ = look(p, w, got)
            if bad:
                raise Violation(f"{name}:{show(path)}", f"{show(path)}: {bad}")
        res.add("transitions", len(lead))
        todo = [(w.save(), got, path)]
        while todo:
            snap, got, path = todo.pop(0)
            w.restore(snap)
            finish(p, w, got, res, show(path), f"{name}:{show(path)}", path)
            if len(path) <= limit - 1:
                w.restore(snap)
                replay(p, w, res, show(path), f"{name}:{show(path)}")
            if len(path) >= limit:
                continue
            for a in acts:
                if path and a == path[-1] or (a == "restart" and path and path[-1] == "escrows"):
                    continue
                w.restore(snap)
                g = act(a, got)
                here = path + [a]
                res.add("transitions")
                bad, _, _ = look(p, w, g)
                if bad:
                    raise Violation(f"{name}:{show(here)}", f"{show(here)}: {bad}")
                k = (ident(w), tuple(sorted(g.items(), key=lambda i: i[0])))
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((w.save(), g, here))
    finally:
        w.close()


def deaths(res, p, w, name, lead, act, show, got, limit):
    """the validator dies at every commit while taking in every message of one order"""
    path = []
    for a in lead:
        got = act(a, got)
        path.append(a)
    for a in list(range(len(p.list))) + ["escrows"]:
        snap = w.save()
        at = 0
        while True:
            w.restore(snap)
            new = dict(got)
            if isinstance(a, int) and p.list[a][2]:
                new[p.list[a][2]] = new.get(p.list[a][2], frozenset()) | p.list[a][3]
            died = w.dies(at, act, a, got)
            if not died:
                break
            w.reboot()
            how = f"{show(path)}, dies at commit {at} of {p.list[a][0] if isinstance(a, int) else a}, restarts"
            key = f"{name}:{how}"
            res.add("states")
            res.add("deaths")
            bad, tels, _ = look(p, w, new, told=False)   # until what was being taken in arrives again
            if bad:
                raise Violation(key, f"{how}: {bad}")
            finish(p, w, new, res, how, key, [b for b in path if b != a])
            at += 1
        w.restore(snap)


def main(res):
    jobs = []
    for name in POOLS:
        n = len(prepare(name).list)
        jobs += [(name, "bfs", (a,), pick(3, 5)) for a in list(range(n)) + ["escrows", "restart"]]
        jobs += [(name, "deaths", tuple(range(k)), 0) for k in range(n)]
        jobs += [(name, "deaths", tuple(range(n))[::-1][:k], 0) for k in range(1, n + 1)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("R01", "model_checking", main)
