"""Queries end to end: who asks knows afterwards what the one asked knows.  Every stretch of a log and its registries that the one
asked may have, every stretch that the asker may have already, every kind of question, and each way an agent sends its answers."""

import dataclasses
import types

from ..kel import basing, cig, dig, eventing, icp, kering, key, make, receive, sig, sigs, wire, wit        # noqa: F401  boots the package
from ..lib import Violation, explore_jobs, pick, run
from ..tel import Telling, vdr
from . import r01
from .m02 import Home
from keri.app import storing
from keri.core import parsing, routing

POOLS = ("plain", "stranger", "backers", "rotations")
HOWS = ("fixed", "keys", "mail")       # signed with a nontransferable key, by an identifier with a log, sent through the post office


def sequence(name):
    """the messages of a pool in their natural order: logs, then genuine registry events; and what they are about"""
    p = getattr(r01, name)()
    msgs = [(label, m) for label, m, *_ in p.setup + [x for x in p.list if x[0].startswith("ixn")]]
    nkel = len(msgs)
    genuine = {said for log in p.want.values() for said in log}
    for label, m, said, _ in p.setup + p.list:
        if said in genuine and (label, m) not in msgs:
            genuine.discard(said)
            msgs.append((label, m))
    regs = [pre for pre, log in p.want.items() if p.evs[log[0]].ked["t"] == "vcp"]
    home = {pre: p.evs[log[0]].ked.get("ri") or p.evs[log[0]].ked.get("ra", {}).get("i") for pre, log in p.want.items()}
    return p, msgs, nkel, regs, home


class Post:
    """stands for the agent's post office"""

    def __init__(self):
        self.out = []

    def send(self, dest, topic, serder, hab, attachment=None, **kwa):
        self.out.append((dest, topic, hab.pre, bytes(serder.raw) + bytes(attachment or b"")))


def routed(w, lax):
    """a validator that also hears replies"""
    rvy = routing.Revery(db=w.db, lax=lax)
    w.kvy = eventing.Kevery(db=w.db, lax=lax, local=False, rvy=rvy)
    w.kvy.registerReplyRoutes(router=rvy.rtr)
    w.tvy = vdr.Tevery(reger=w.reger, db=w.db, local=False, lax=lax, rvy=rvy)
    w.tvy.registerReplyRoutes(router=rvy.rtr)
    w.rvy = rvy


def hear(w, msg):
    receive(w, msg, tvy=w.tvy, rvy=w.rvy)


class Asked(Home):
    """the one asked: an agent with identifiers of its own"""

    def __init__(self):
        super().__init__("0123456789abcdefghijk")
        self.fresh()
        self.habs = dict(fixed=self.hby.makeHab(name="fixed", transferable=False), keys=self.hby.makeHab(name="keys"))
        self.habs["mail"] = self.habs["keys"]
        self.intro = bytes(self.habs["keys"].replay())
        self.reger = vdr.Reger(name="q02", db=self.db, temp=True, reopen=True)
        routed(self, True)

    def answer(self, how):
        """what the agent sends out for what it was asked: (to whom or None, message)"""
        cues = self.kvy.cues, self.tvy.cues
        if how != "mail":
            return [(None, bytes(self.habs[how].processCues(c, gvrsn=kering.Vrsn_1_0, version=kering.Vrsn_1_0))) for c in cues]
        out = []
        for c in cues:
            post = Post()
            desk = types.SimpleNamespace(wind=lambda tymth: None, cues=c, hby=self.hby, aids=None, postman=post)
            run = storing.Respondant.cueDo(desk, tymth=None, tock=0.0)
            for _ in range(2 * len(c) + 3):
                next(run)
            run.close()
            out += [(d, m) for d, _, _, m in post.out]
        return out

    def close(self):
        self.reger.close(clear=True)
        super().close()


def same(what, have, want):
    if have != want:
        raise Violation(what, f"{what}: {str(have)[:500]} instead of {str(want)[:500]}")


def logs(w, p):
    return {pre: w.kel(pre) for pre in p.kel}


class Talk:
    def __init__(self, name, how, lax, k):
        self.p, self.msgs, self.nkel, self.regs, self.home = sequence(name)
        self.how, self.lax = how, lax
        self.asked = Asked()
        self.me = icp([40], [41])
        self.src = self.asked.habs[how].pre
        hear(self.asked, wire(self.me, sigs(self.me, [40])))
        for _, m in self.msgs[:k]:
            hear(self.asked, m)
        self.asked.kvy.cues.clear()
        self.asked.tvy.cues.clear()
        self.ktels = Telling.tels(self.asked)
        self.klogs = {pre: [d for d in self.asked.db.kels.getAllIter(keys=pre)] for pre in self.p.kel}

    def asker(self, j):
        """the one who asks, with the first j messages"""
        w = Telling()
        routed(w, self.lax)
        if self.how != "fixed":
            parsing.Parser(framed=True, kvy=w.kvy, local=False, version=kering.Version).parse(ims=bytearray(self.asked.intro))
        for _, m in self.msgs[:j]:
            hear(w, m)
        w.kvy.cues.clear()
        w.tvy.cues.clear()
        return w

    def ask(self, w, route, **q):
        """one question, and its answer"""
        s = make(v="KERI10JSON000000_", t="qry", d="", dt="2021-06-27T21:26:00.000000+00:00", r=route, rr="", q=dict(q, src=self.src))
        if self.how == "mail":
            msg = wire(s, lsgs=[(self.me.pre, [sig(s, 40, 0)])])
        else:
            msg = wire(s, cigs=[cig(s, 7)])
        hear(self.asked, msg)
        n = 0
        for dest, m in self.asked.answer(self.how):
            if dest not in (None, self.me.pre):
                raise Violation(f"{route} to another", f"the answer of {route} goes to {dest}")
            n += bool(m)
            hear(w, m)
        w.settle()
        return n

    def close(self):
        self.asked.close()


def notice(w, pre, src):
    d = w.reger.txnsb.current(keys=(pre, src))
    return d.qb64 if d is not None else None


def waiting(res, name, how, back):
    """notices of every state, all before what they are about, then that, one by one: each waits for its own"""
    _, msgs, nkel, regs, home = sequence(name)
    heard = []
    for k in range(nkel + 1, len(msgs) + 1):
        t = Talk(name, how, True, k)
        far = t.asker(0)
        here = globals()["hear"]
        try:
            got = []
            globals()["hear"] = lambda w, m: got.append(bytes(m)) if w is far else here(w, m)
            for pre, reg in [(None, r) for r in regs] + [(p, r) for p, r in home.items() if r in regs]:
                t.ask(far, "tsn", **(dict(ri=reg) if pre is None else dict(ri=reg, i=pre)))
        finally:
            globals()["hear"] = here
        heard += [m for m in got if m and m not in heard]
        if k == len(msgs):
            w = t.asker(nkel)
            for m in heard[::-1] if back else heard:
                hear(w, m)
            for i in range(nkel, len(msgs)):
                if i % 2:
                    w.tvy.processEscrows()
                hear(w, msgs[i][1])
                w.settle()
                res.add("transitions")
                for pre, row in w.tels().items():
                    if pre in regs or home[pre] in regs:
                        same(f"{name}, {how}: notices of all states heard{' in reverse' if back else ''}, then {i - nkel + 1} events: {pre}",
                             notice(w, pre, t.src), row[-1][1])
            w.close()
        far.close()
        t.close()
        res.add("states")


def job(res, spec):
    name, how, lax, k = spec
    if lax == "waiting":
        return waiting(res, name, how, k)
    t = Talk(name, how, lax, k)
    p = t.p
    try:
        for j in range(len(t.msgs) + 1):
            w = t.asker(j)
            snap = w.save()
            jtels, jlogs = w.tels(), logs(w, p)
            more = {pre: max(jlogs[pre], t.klogs[pre], key=len) for pre in p.kel}
            tels = {pre: max(jtels.get(pre, []), t.ktels.get(pre, []), key=len) for pre in p.want}
            full = j >= t.nkel      # the asker has the logs

            def here(what):
                res.add("transitions")
                return f"{name}, {how}, {'any source' if lax else 'known sources'}: asked of one with {k} of {len(t.msgs)} by one with {j}: {what}"
            for pre in p.kel:
                for q in ({}, dict(fn="1"), dict(s="0")):
                    w.restore(snap)
                    n = t.ask(w, "logs", i=pre, **q)
                    what = here(f"log {q} of {pre}")
                    if pre not in t.asked.kvy.kevers:
                        same(what + " sent", n, 0)
                    elif not (q.get("fn") and not jlogs[pre]):
                        same(what, w.kel(pre), more[pre])
                w.restore(snap)
                n = t.ask(w, "ksn", i=pre)
                what = here(f"state of {pre}")
                have = w.db.knas.get(keys=(pre, t.src))
                if pre not in t.asked.kvy.kevers:
                    same(what + " sent", (n, have), (0, None))
                else:
                    good = lax and len(jlogs[pre]) <= len(t.klogs[pre])
                    same(what, have and have.qb64, t.klogs[pre][-1] if good else None)
            if lax and how != "mail":       # notices that are not so
                hab = t.asked.habs[how]

                def told(route, data):
                    w.restore(snap)
                    hear(w, bytes(hab.reply(route=f"{route}/{hab.pre}", data=data, gvrsn=kering.Vrsn_1_0, version=kering.Vrsn_1_0, kind=kering.Kinds.json)))
                    w.settle()
                    res.add("transitions")
                for pre in p.kel:
                    if jlogs[pre]:
                        data = w.kvy.kevers[pre].state()._asdict()
                        for lie in (dict(d=dig(77)), dict(d=jlogs[pre][0], s="1"), dict(d=jlogs[pre][-1], s="0")):
                            if jlogs[pre][int(lie.get("s", data["s"]), 16):][:1] not in ([], [lie["d"]]):
                                told("/ksn", dict(data, **lie))
                                have = w.db.knas.get(keys=(pre, hab.pre))
                                same(f"{name}, {how}: {j} heard: false state {lie} of {pre}", have and have.qb64, None)
                for pre, row in jtels.items():
                    tever = w.tvy.tevers[pre if pre in t.regs else t.home[pre]]
                    data = dataclasses.asdict(tever.state() if pre in t.regs else tever.vcState(pre))
                    for lie in (dict(d=dig(77)), dict(d=row[0][1], s="1"), dict(d=row[-1][1], s="0"), dict(d=row[-1][1], s="2")):
                        if lie["d"] != dict(row).get(int(lie.get("s", data["s"]), 16)):
                            told("/tsn/registry" if pre in t.regs else "/tsn/credential", dict(data, **lie))
                            same(f"{name}, {how}: {j} heard: false state {lie} of {pre}", notice(w, pre, hab.pre), None)
            for reg in t.regs:
                vcs = [None, ""] + [x for x, r in t.home.items() if r == reg] + [x for x, r in t.home.items() if r not in (reg, None)][:1]
                for vc in vcs:
                    q = dict(ri=reg) if vc is None else dict(ri=reg, i=vc)
                    about = [reg] + ([vc] if vc else [])
                    w.restore(snap)
                    n = t.ask(w, "tels", **q)
                    what = here(f"registry {reg} and {vc}")
                    got = w.tels()
                    if full:
                        for pre in about:
                            if pre == reg or t.home[pre] == reg:
                                same(f"{what}: {pre}", got.get(pre, []), tels[pre])
                        same(what + " others", {x: v for x, v in got.items() if x not in about}, {x: v for x, v in jtels.items() if x not in about})
                    else:
                        for pre in p.want:      # as far as the logs go
                            can = tels[pre] if pre in about else jtels.get(pre, [])
                            row = got.get(pre, [])
                            same(what + " without the log", row, can[:max(len(row), len(jtels.get(pre, [])))])
                        if k >= t.nkel:
                            for pre in p.kel:       # the asker then asks for the logs
                                t.ask(w, "logs", i=pre)
                            for pre in about:
                                if pre == reg or t.home[pre] == reg:
                                    same(f"{what} and logs: {pre}", w.tels().get(pre, []), tels[pre])
                    w.restore(snap)
                    n = t.ask(w, "tsn", **q)
                    what = here(f"state of registry {reg} and {vc}")
                    states = [(pre, t.ktels[pre][-1]) for pre in about if t.ktels.get(pre) and t.ktels.get(reg) and (pre == reg or t.home[pre] == reg)]
                    want = {pre: None for pre in about}
                    for pre, (sn, said) in states:
                        mine = jtels.get(pre, [])
                        want[pre] = said if lax and mine and len(mine) == sn + 1 else None
                    same(what, {pre: notice(w, pre, t.src) for pre in about}, want)
                    same(what + " changes logs", (w.tels(), logs(w, p)), (jtels, jlogs))
                    if k >= t.nkel and lax:         # then asks for all that is behind it
                        for pre in p.kel:
                            t.ask(w, "logs", i=pre)
                        t.ask(w, "tels", **q)
                        for pre, (sn, said) in states:
                            want[pre] = said if len(jtels.get(pre, [])) <= sn + 1 else None
                        same(what + " and its log", {pre: notice(w, pre, t.src) for pre in about}, want)
            env = w.reger.env
            w.close()
            res.add("states")
    finally:
        t.close()


def table(res):
    """a question made by the library says what it was told to ask"""
    days = [None] + [f"2021-06-2{n}T21:26:00.000000+00:00" for n in range(3)]
    for version in (kering.Vrsn_1_0, kering.Vrsn_2_0):
        for dt in days:
            for dta in days:
                for dtb in days:
                    q = vdr.query("R" * 44, "C" * 44, route="tels", dt=dt, dta=dta, dtb=dtb, stamp=days[1], version=version, pre=key(1)).ked["q"]
                    want = {k: v for k, v in dict(i="C" * 44, ri="R" * 44, dt=dt, dta=dta, dtb=dtb).items() if v is not None}
                    same(f"question with dt {dt}, dta {dta}, dtb {dtb}", {k: v for k, v in q.items() if k != "src"}, want)
                    res.add("transitions")


def main(res):
    table(res)
    jobs = [(name, how, "waiting", back) for name in pick(POOLS[:3], POOLS) for how in ("fixed", "keys") for back in (False, True)]
    every = [(name, how, lax) for name in POOLS for how in HOWS for lax in (True, False) if lax or how == "fixed"]
    some = [("rotations", "fixed", True), ("plain", "keys", True), ("plain", "fixed", False), ("stranger", "fixed", True), ("backers", "mail", True)]
    for name, how, lax in pick(some, every):
        n = len(sequence(name)[1])
        jobs += [(name, how, lax, k) for k in reversed(range(n + 1))]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("Q02", "model_checking", main)
