"""Groups: their members act together or not at all.  Real members, each with keystore, database and everything between them; every
order in which a member hears of the others, approves and restarts, for every way to put a group together and to go on."""

import itertools

from ..kel import World, cig, dig, kering, rct, wig, wire, wit        # noqa: F401  boots the package
from ..lib import Violation, explore_jobs, pick, run
from .n01 import Desk
from keri.app import grouping
from keri.core import coring, eventing, parsing, serdering
from keri.peer import exchanging

V1, V2 = kering.Vrsn_1_0, kering.Vrsn_2_0
NAMES = "alfa", "bravo", "carol", "delta"
HALF = ["1/2", "1/2", "1/2"]

# name: (members, threshold, next threshold, who may rotate, then the events that follow)
GROUPS = dict(
    two=(3, "2", "2", None, [("ixn", {}), ("ixn", {})]),
    all=(3, "3", "3", None, [("ixn", {})]),
    one=(3, "1", "1", None, [("ixn", {})]),
    half=(3, HALF, HALF, None, [("rot", dict(smids=[0, 1, 2], isith=HALF, nsith=HALF)), ("ixn", {})]),
    turned=(3, "2", "2", None, [("rot", dict(smids=[2, 0, 1], isith="2", nsith="2")), ("ixn", dict(turn=[0, 1]))]),
    leave=(3, "2", "2", None, [("rot", dict(smids=[0, 2], isith="2", nsith="1")), ("ixn", {})]),
    join=(4, "2", "2", None, [("rot", dict(smids=[0, 1, 2, 3], isith="3", nsith="2")), ("ixn", {})]),
    apart=(3, "2", "1", [1, 2], [("rot", dict(smids=[1, 2], isith="2", nsith="2"))]),
    weights=(3, ["1", "1/2", "1/2"], ["1/2", "1/2", "1"], None, [("rot", dict(smids=[0, 1, 2], isith=["1/2", "1/2", "1"], nsith="2"))]),
    seen=(3, "2", "2", None, [("ixn", {})]),
    pair=(2, "2", "2", None, [("ixn", {}), ("rot", dict(smids=[0, 1], isith="2", nsith="2"))]),
)


WITS = dict(seen=[1, 2])        # witnesses of a group


def same(what, have, want):
    if have != want:
        raise Violation(what, f"{what}: {str(have)[:400]} instead of {str(want)[:400]}")


class Member(Desk):
    """one member, with all that runs at its place"""

    def __init__(self, n, kind):
        self.n, self.kind = n, kind         # kind: version of the envelopes, version of what is in them
        super().__init__()
        self.envs.append(self.ks.env)
        self.fresh()
        self.hby.makeHab(name=NAMES[n], version=V1, kind=kering.Kinds.json)
        self.boot()

    def boot(self):
        super().boot()
        self.mux = grouping.Multiplexor(self.hby, notifier=self.notifier)
        self.exc = exchanging.Exchanger(hby=self.hby, handlers=[])
        grouping.loadHandlers(self.exc, self.mux)
        self.counselor = grouping.Counselor(hby=self.hby, version=V1, kind=kering.Kinds.json)
        self.kvy = eventing.Kevery(db=self.db, lax=False, local=False)

    @property
    def mhab(self):
        return self.hby.habByName(NAMES[self.n])

    def hear(self, msg, version=V1):
        parsing.Parser(framed=True, version=version).parse(ims=bytearray(msg), kvy=self.kvy, exc=self.exc, local=False)

    def settle(self):
        self.kvy.processEscrows()
        self.exc.processEscrow()
        self.kvy.processEscrows()
        self.counselor.processEscrows()

    def log(self, pre):
        return list(self.db.kels.getAllIter(keys=pre))

    def signers(self, pre, said):
        return sorted({s.index for s in self.db.sigs.get(keys=(pre, said)) or []})

    def notes(self):
        return sorted({(n.attrs["r"], n.attrs["d"]) for _, n in self.noter.notes.getTopItemIter()})

    def approve(self, story, i):
        """its controller approves event i: what it sends to the others"""
        t, kwa = story.steps[i]
        outer, inner = self.kind
        aids, smids = story.aids, [story.aids[m] for m in kwa["smids"]] if "smids" in kwa else None
        opts = dict(version=outer, kind=kering.Kinds.json)
        if t == "icp":
            members = [aids[m] for m in story.first]
            ghab = self.hby.makeGroupHab(group="group", mhab=self.mhab, smids=members, rmids=kwa["rmids"] and [aids[m] for m in kwa["rmids"]],
                                         isith=kwa["isith"], nsith=kwa["nsith"], toad=len(story.wits), wits=[wit(w) for w in story.wits], version=inner, kind=kering.Kinds.json)
            evt = ghab.msgOwnInception(allowPartiallySigned=True, framed=True, gvrsn=inner)
            exn, atc = grouping.multisigInceptExn(ghab.mhab, smids=ghab.smids, rmids=ghab.rmids, icp=evt, **opts)
        elif t == "ixn":
            ghab = self.hby.habs[story.pre]
            evt = ghab.interact(data=kwa["data"], framed=True, version=inner, kind=kering.Kinds.json, gvrsn=inner)
            exn, atc = grouping.multisigInteractExn(ghab=ghab, aids=ghab.smids, ixn=evt, **opts)
        else:
            if story.pre not in self.hby.habs:
                self.hby.joinGroupHab(story.pre, group="group", mhab=self.mhab, smids=smids, rmids=smids)
            ghab = self.hby.habs[story.pre]
            if i in story.serders:
                evt = ghab.rotate(serder=story.serders[i], smids=smids, rmids=smids, framed=True, gvrsn=inner)
            else:
                kevers = [self.hby.kevers[a] for a in smids]
                evt = ghab.rotate(isith=kwa["isith"], nsith=kwa["nsith"], toad=0, verfers=[k.verfers[0] for k in kevers],
                                  digers=[k.ndigers[0] for k in kevers], framed=True, version=inner, gvrsn=inner, kind=kering.Kinds.json)
            evt = ghab.msgOwnEvent(allowPartiallySigned=True, sn=i, framed=True, gvrsn=inner)
            exn, atc = grouping.multisigRotateExn(ghab=ghab, smids=smids, rmids=smids, rot=evt, **opts)
        local = parsing.Parser(version=exn.pvrsn).parse(ims=bytearray(exn.raw + atc), framed=True, processive=False)[0]
        self.mux.exc.logEvent(serder=local.serder, pathed=local.ptds, tsgs=local.tsgs, cigars=local.cigars, essrs=local.essrs, nests=local.nests)
        self.mux.add(local.serder, nests=local.nests)
        serder = serdering.SerderKERI(raw=bytes(evt))
        self.counselor.start(ghab=ghab, prefixer=coring.Prefixer(qb64=ghab.pre), number=coring.Number(num=serder.sn),
                             diger=coring.Diger(qb64=serder.said))
        return serder, exn.said, bytes(exn.raw) + bytes(atc)


def weight(sith, who):
    if isinstance(sith, str):
        return len(who) >= int(sith)
    return sum(eval(sith[k]) for k in who) >= 1


class Story:
    """what all the members of a group do, and what each of them then sends"""

    def __init__(self, name, kind):
        n, isith, nsith, rmids, rest = GROUPS[name]
        self.name, self.wits = name, WITS.get(name, [])
        self.steps = [("icp", dict(isith=isith, nsith=nsith, rmids=rmids))]
        for k, (t, kwa) in enumerate(rest):
            self.steps.append((t, dict(kwa, data=[dict(d=dig(k + 1))]) if t == "ixn" else kwa))
        self.members = [Member(k, kind) for k in range(n)]
        self.aids = [m.mhab.pre for m in self.members]
        self.first = list(range(3 if name == "join" else n))
        self.pre, self.serders, self.exns, self.msgs, self.snaps, self.rivals = None, {}, {}, {}, [], {}
        self.turned, self.before, self.kels = {}, {}, {}
        self.seats = []                                     # per event: (members in order of keys, threshold, members bound before, their threshold)
        for a in self.members:
            for b in self.members:
                if a is not b:
                    b.hear(a.mhab.replay(gvrsn=V1))
        seats, prior = self.first, None
        for i, (t, kwa) in enumerate(self.steps):
            if t == "icp":
                sith, nxt, nsith = kwa["isith"], self.first if kwa["rmids"] is None else kwa["rmids"], kwa["nsith"]
                self.seats.append((seats, sith, None, None))
            elif t == "rot":
                seats, sith = kwa["smids"], kwa["isith"]
                self.seats.append((seats, sith, nxt, nsith))
                nxt, nsith = seats, kwa["nsith"]
                self.turn(i, [m for m in seats if not (name == "join" and m == 3)])
            else:
                self.seats.append((seats, sith, None, None))
                self.turn(i, kwa.get("turn", []))
            self.snaps.append([m.save() for m in self.members])
            if t != "rot":
                self.contrary(i, seats, kind)
            for m in seats:
                serder, said, msg = self.members[m].approve(self, i)
                if i in self.serders and serder.said != self.serders[i].said:
                    raise Violation(f"{name}: another event", f"member {m} approves {serder.ked}, not {self.serders[i].ked}")
                self.serders.setdefault(i, serder)
                self.pre = serder.pre
                self.exns[i, m], self.msgs[i, m] = said, msg
            for m in self.everyone(i):
                for x in seats:
                    if x != m:
                        self.members[m].hear(self.msgs[i, x], kind[0])
                self.members[m].settle()
                for w in self.wits:
                    self.members[m].hear(self.receipt(i, w))
                self.members[m].counselor.witDoer.cues.append(dict(pre=self.pre, sn=i))
                self.members[m].settle()
                if m in seats:
                    same(f"{name}: log of member {m} after all agreed on event {i}", self.members[m].log(self.pre), [self.serders[k].said for k in range(i + 1)])
            if name == "join" and i == 0:                   # who joins later has the log
                self.members[3].hear(self.members[0].hby.habs[self.pre].replay(gvrsn=kind[1]), kind[1])
                self.members[3].settle()
        self.snaps.append([m.save() for m in self.members])

    def turn(self, i, who):
        """members turn their own keys, and all hear of it"""
        self.turned[i] = who
        self.before[i] = [m.save() for m in self.members]
        for m in who:
            msg = self.members[m].mhab.rotate(framed=True, version=V1, kind=kering.Kinds.json, gvrsn=V1)
            self.kels[m, i] = msg
            for b in self.members:
                if b.n != m:
                    b.hear(msg)

    def contrary(self, i, seats, kind):
        """what the others would send had they agreed on another event in its place"""
        t, kwa = self.steps[i]
        pre, serders = self.pre, self.serders
        for y in seats:
            self.serders, self.steps[i] = dict(serders), (t, dict(kwa, nsith="2" if kwa["nsith"] == "1" else "1") if t == "icp" else dict(kwa, data=[dict(d=dig(66))]))
            others = [m for m in seats if m != y]
            sent = {}
            for m in others:
                sent[m] = self.members[m].approve(self, i)
                self.pre = sent[m][0].pre
            for m in others:                                # each with the signatures of all of them
                for x in others:
                    if x != m:
                        self.members[m].hear(sent[x][2], kind[0])
                self.members[m].settle()
            ghab = self.members[others[0]].hby.habs[self.pre]
            full = ghab.msgOwnEvent(allowPartiallySigned=True, sn=i, framed=True, gvrsn=kind[1])
            x = self.members[others[0]]
            make, field = (grouping.multisigInceptExn, "icp") if t == "icp" else (grouping.multisigInteractExn, "ixn")
            kw = {field: full, "hab" if t == "icp" else "ghab": x.mhab if t == "icp" else ghab,
                  "smids" if t == "icp" else "aids": ghab.smids, **(dict(rmids=ghab.rmids) if t == "icp" else {})}
            exn, atc = make(version=kind[0], kind=kering.Kinds.json, **kw)
            self.rivals[i, y] = sent[others[0]][0].said, exn.said, bytes(exn.raw) + bytes(atc), exn, bytes(atc), others[0]
            for m in self.members:
                m.load(self.snaps[-1][m.n])
                m.boot()
            self.steps[i] = (t, kwa)
            self.pre, self.serders = pre, serders

    def lie(self, i, y):
        """the other event in an envelope that says it is about the one agreed on"""
        said, _, _, exn, atc, x = self.rivals[i, y]
        m = self.members[x]
        one = serdering.SerderKERI(raw=self.msgs[i, x])
        sad = dict(exn.sad)
        if "e" in sad and sad["e"]:
            sad["e"] = dict(sad["e"], d=one.sad["e"]["d"])
        else:
            sad["a"] = dict(sad["a"], **{self.steps[i][0]: one.sad["a"][self.steps[i][0]]})
        exn2 = serdering.SerderKERI(sad=sad, makify=True)
        had = len(m.mhab.endorse(serder=exn, last=False, framed=True, gvrsn=V1)) - exn.size if m.kind[0] == V1 else 0
        return exn2.said, bytes(m.mhab.endorse(serder=exn2, last=False, framed=True, gvrsn=V1)) + atc[had:]

    def receipt(self, i, w):
        e = self.serders[i]
        return wire(rct(e.pre, e.sn, e.said), **(dict(wigs=[wig(e, w, self.wits.index(w))]) if w % 2 else dict(cigs=[cig(e, w)])))

    def everyone(self, i):
        return sorted(set(self.first) | {m for s, _, p, _ in self.seats for m in s})[:3 if self.name == "join" and i == 0 else None]

    def enough(self, i, who):
        seats, sith, bound, nsith = self.seats[i]
        who = [m for m in who if m in seats]
        return weight(sith, [seats.index(m) for m in who]) and (bound is None or weight(nsith, [bound.index(m) for m in who if m in bound]))

    def close(self):
        for m in self.members:
            m.close()


def explore(res, story, y, lo, hi, restarts, extra=None):
    """every order in which member y, as it was before event lo, hears of and approves the events before hi"""
    me = story.members[y]
    route = {i: f"/multisig/{story.steps[i][0]}" for i in range(lo, hi)}
    acts = [("own", i) for i in range(lo, hi) if y in story.seats[i][0]] + [("msg", i, x) for i in range(lo, hi) for x in story.seats[i][0] if x != y]
    if extra == "lies":
        acts += [("rival", i) for i in range(lo, hi) if (i, y) in story.rivals]
        lies = {i: story.lie(i, y) for i in range(lo, hi) if (i, y) in story.rivals and me.kind[0] == V1}
        acts += [("lie", i) for i in lies]
    acts += [("rct", i, w) for i in range(lo, hi) for w in story.wits] + [("cue", i) for i in range(lo, hi) if story.wits]
    late = []
    if extra == "late":             # it has not heard yet that the others turned their keys
        late = [x for x in story.turned[lo] if x != y]
        acts += [("kel", x) for x in late]
    if extra == "again":
        acts += [("again",)]
    far = World()
    for a in story.members:
        parsing.Parser(framed=True, version=V1).parse(ims=bytearray(a.mhab.replay(gvrsn=V1)), kvy=far.kvy, local=False)
    far0 = far.save()

    if extra == "late":
        me.load(story.before[lo][y])
        me.boot()
        if y in story.turned[lo]:
            me.mhab.rotate(framed=True, version=V1, kind=kering.Kinds.json, gvrsn=V1)
    else:
        me.load(story.snaps[lo][y])
    me.boot()
    base, told = len(me.log(story.pre)), me.notes()

    def known(done, x):
        return x not in late or ("kel", x) in done

    def expect(done):
        own = {a[1] for a in done if a[0] == "own"}
        sigs, n = {}, base
        for i in range(lo, hi):
            sigs[i] = ({y} | {a[2] for a in done if a[:2] == ("msg", i) and known(done, a[2])}) if i in own else set()
            if n == i and story.enough(i, sigs[i]):
                n += 1
        return own, sigs, n

    def finished(done, i):
        return all(("rct", i, w) in done for w in story.wits) and (not story.wits or y != story.seats[i][0][0] or ("cue", i) in done)

    def elected(done, i):
        """of those whose signatures it had when the event entered its log, the first does"""
        k = min(k for k in range(len(done) + 1) if expect(done[:k])[2] > i)
        return min(expect(done[:k])[1][i], key=story.seats[i][0].index) == y

    def notes(done):
        out, own = list(told), set()
        for k, a in enumerate(done):
            if a[0] == "own":
                own.add(a[1])
            elif a[0] == "kel":
                out += [(route[b[1]], story.exns[b[1], b[2]]) for b in done[:k] if b[0] == "msg" and b[2] == a[1] and b[1] not in own]
            elif a[0] == "rival":
                out.append((route[a[1]], story.rivals[a[1], y][1]))
            elif a[0] == "msg" and a[1] not in own and known(done[:k], a[2]):
                out.append((route[a[1]], story.exns[a[1], a[2]]))
        return sorted(set(out))

    def judge(done):
        what = f"{story.name}: member {y} at event {lo}, after {done}"
        own, sigs, n = expect(done)
        same(f"{what}: log", me.log(story.pre), [story.serders[i].said for i in range(n)])
        for i in range(lo, hi):
            seats = story.seats[i][0]
            same(f"{what}: signatures of event {i}", me.signers(story.pre, story.serders[i].said), sorted(seats.index(m) for m in sigs[i]))
            if i in own:
                num = coring.Number(num=i)
                same(f"{what}: event {i} complete", me.counselor.complete(coring.Prefixer(qb64=story.pre), num, coring.Diger(qb64=story.serders[i].said)), n > i and finished(done, i))
                if story.wits and n > i:
                    same(f"{what}: elected to ask the witnesses about event {i}", [x["sn"] for x in me.counselor.witDoer.msgs].count(i), int(elected(done, i)))
            if (i, y) in story.rivals:
                same(f"{what}: signatures of what it did not approve", me.signers(story.pre if i else story.rivals[i, y][0], story.rivals[i, y][0]), [])
        same(f"{what}: notices", me.notes(), notes(done))
        if n:
            kever = me.db.kevers[story.pre]
            same(f"{what}: key state", (kever.sn, kever.serder.said), (n - 1, story.serders[n - 1].said))
        if own or story.pre in me.hby.habs:
            ghab = me.hby.habs[story.pre]
            last = [i for i in range(max(own | {lo - 1, 0}) + 1) if story.steps[i][0] != "ixn"][-1]
            if story.steps[last][0] == "icp":
                same(f"{what}: members", (ghab.mhab.pre, ghab.smids), (story.aids[y], [story.aids[m] for m in story.first]))
        if n > lo and all(("rct", i, w) in done for i in range(lo, n) for w in story.wits):
            far.restore(far0)
            parsing.Parser(framed=True, version=me.kind[1]).parse(ims=bytearray(me.hby.habs[story.pre].replay(gvrsn=me.kind[1])), kvy=far.kvy, local=False)
            same(f"{what}: log as another reads it", list(far.db.kels.getAllIter(keys=story.pre)), [story.serders[i].said for i in range(n)])

    def can(done, a):
        if a in done:
            return False
        own, sigs, n = expect(done)
        if a[0] == "own":
            return n == a[1] and (story.steps[a[1]][0] != "rot" or y == story.seats[a[1]][0][0] and all(known(done, x) for x in late) or any(b[:2] == ("msg", a[1]) and known(done, b[2]) for b in done))
        if a[0] == "kel":
            return True
        if a[0] == "rct":
            return a[1] in own
        if a[0] == "cue":
            return n > a[1] and elected(done, a[1])
        if a[0] == "again":
            return any(b[0] == "msg" for b in done)
        return a[1] == 0 or story.pre in me.hby.habs or story.steps[a[1]][0] == "rot"

    def do(a, done):
        if a[0] == "own":
            keep, story.serders = story.serders, dict(story.serders)
            if y == story.seats[a[1]][0][0] and all(known(done, x) for x in late):
                story.serders.pop(a[1], None)
            try:
                serder, said, msg = me.approve(story, a[1])
            finally:
                story.serders = keep
            same(f"{story.name}: what member {y} approves", serder.said, story.serders[a[1]].said)
        elif a[0] == "rct":
            me.hear(story.receipt(*a[1:]))
        elif a[0] == "cue":
            me.counselor.witDoer.cues.append(dict(pre=story.pre, sn=a[1]))
        elif a[0] == "kel":
            me.hear(story.kels[a[1], lo])
        elif a[0] == "again":
            for b in done:
                if b[0] == "msg":
                    me.hear(story.msgs[b[1:]], me.kind[0])
        elif a[0] == "rival":
            me.hear(story.rivals[a[1], y][2], me.kind[0])
        elif a[0] == "lie":
            me.hear(lies[a[1]][1], me.kind[0])
        else:
            me.hear(story.msgs[a[1:]], me.kind[0])
        me.settle()
        res.add("transitions")

    def rec(done):
        for a in acts:
            if can(done, a):
                snap, mem = me.save(), [list(getattr(me.counselor.witDoer, q)) for q in ("msgs", "cues", "gets")]
                do(a, done)
                judge(done + [a])
                if restarts:
                    me.boot()
                    me.settle()
                    judge(done + [a])
                rec(done + [a])
                me.load(snap)
                me.boot()
                for q, had in zip(("msgs", "cues", "gets"), mem):
                    getattr(me.counselor.witDoer, q).extend(had)
        res.add("states")
    rec([])
    far.close()


def job(res, spec):
    name, kind, y, lo, hi, restarts, extra = spec
    story = Story(name, kind)
    try:
        explore(res, story, y, lo, hi, restarts, extra)
    finally:
        story.close()


def main(res):
    jobs = []
    for name, (n, *_, rest) in GROUPS.items():
        last = len(rest) + 1
        for y in range(n):
            if name in WITS:            # what was asked of witnesses is not kept when the process ends
                jobs += [(name, kind, y, lo, lo + 1, False, None) for lo in range(last) for kind in pick([(V1, V1)], [(V1, V1), (V2, V1), (V2, V2)])]
                continue
            for lo in range(last):
                if name == "join" and y == 3 and lo != 1:
                    continue
                for k, kind in enumerate(((V1, V1), (V2, V1), (V2, V2))):
                    for extra in (None, "lies", "again", "late"):
                        if extra == "late" and not (lo and (rest[lo - 1][0] == "rot" or "turn" in rest[lo - 1][1])):
                            continue
                        few = n == 2 or extra is None and k == 0 or (name, y, k) in (("two", 1, 0), ("two", 0, 2), ("weights", 2, 0)) \
                            or name == "turned" and extra is None and lo == 1 or (name, y, k, extra) in (("turned", 2, 0, "late"), ("half", 0, 0, "late"), ("apart", 1, 1, "late"))
                        jobs += pick([(name, kind, y, lo, lo + 1, True, extra)] if few else [],
                                     [(name, kind, y, lo, min(lo + w, last), back, extra) for w in ((1, 2) if rest[lo:] and rest[lo][0] != "rot" and (extra is None or n == 2 and extra != "late") else (1,)) for back in (True, False)])
    jobs += pick([("pair", (V1, V1), y, lo, lo + 2, False, None) for y in (0, 1) for lo in (0,)], [])
    jobs.sort(key=lambda j: (j[4] - j[3], j[6] == "lies", j[0] == "join"), reverse=True)
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("G01", "model_checking", main)
