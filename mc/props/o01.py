"""Introductions by link (OOBI): what an agent asks for, how a link is settled, and what an answer may change.
Every sequence of tellings, answers of every kind, waits and restarts, and death at every commit, through the real resolver."""

import json
from collections import deque

from ..kel import Clock, Died, cig, icp, lmdb, make, rot, sig, sigs, wire, wit
from ..lib import Violation, explore_jobs, pick, run
from .m02 import Home
from keri import kering
from keri.app import oobiing
from keri.core import eventing, parsing, routing, scheming
from keri.recording import OobiRecord

oobiing.print = lambda *pa, **kwa: None          # what is printed on the way is of no interest here
CLOCK = Clock()
START = CLOCK.now


class Bad(Exception):
    pass


class Headers(dict):
    """header names are the same in any case"""

    def __init__(self, kv):
        super().__init__({k.lower(): v for k, v in kv.items()})

    def __getitem__(self, k):
        return super().__getitem__(k.lower())

    def __contains__(self, k):
        return super().__contains__(k.lower())

    def get(self, k, default=None):
        return super().get(k.lower(), default)


class Client:
    def __init__(self, url):
        self.url, self.responses, self.requests = url, deque(), deque()


class Clienter:
    """stands in for the network: what is asked is written down, answers come when the history says"""

    def __init__(self):
        self.asked = {}
        self.count = 0

    def request(self, method, url, headers=None, body=None):
        self.count += 1
        self.asked[url] = Client(url)
        return self.asked[url]

    def remove(self, client):
        if self.asked.get(client.url) is client:
            del self.asked[client.url]


# ---------------------------------------------------------------- what is introduced
EA = icp([1], [2])
A = EA.pre
KEL_A = wire(EA, sigs(EA, [1])) + (lambda r: wire(r, sigs(r, [2])))(rot(A, 1, EA.said, [2], [3]))
EC = icp([11], [12])
C = EC.pre
KEL_C = wire(EC, sigs(EC, [11]))
FORGED = wire(EA, sigs(EA, [5]))
W1, W2 = wit(1), wit(2)


def schema(title):
    sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": title, "type": "object",
           "properties": {"a": {"type": "string"}}}
    return scheming.Schemer(sed=sed)


S1, S2 = schema("one"), schema("two")
H = "http://127.0.0.1:56"
K, B, M, N = f"{H}01/oobi/{A}/controller?name=Ann", f"{H}02/oobi?name=Bob", f"{H}03/oobi/{A}/witness", f"{H}09/oobi/{A}/witness/{W1}"
D, L1, L2 = f"{H}04/oobi/{S1.said}", f"{H}05/oobi/{A}/witness/{W1}", f"{H}06/oobi/{A}/witness/{W2}"
WK = f"{H}07/.well-known/keri/oobi/{A}?name=Wes"
NAMES = {K: "K", B: "B", M: "M", D: "D", L1: "L1", L2: "L2", WK: "WK", N: "N"}
NAMED = {u: A for u in (K, M, L1, L2, WK, N)}
HINT = {K: "Ann", B: "Bob", WK: "Wes"}
CESR = "application/cesr"


def rpy(route, a):
    return bytes(make(v="KERI10JSON000000_", t="rpy", d="", dt="2021-06-27T21:26:21.233257+00:00", r=route, a=a).raw)


def resp(status=200, ctype=None, body=b"", aid=None):
    h = {}
    if ctype:
        h["Content-Type"] = ctype
    if aid:
        h["KERI-AID"] = aid
    return dict(version=(1, 1), status=status, reason="x", headers=Headers(h), body=bytearray(body), data=None)


# name: (answer, how it settles the link: True as resolved, False as failed, None not at all; which log, header)
KINDS = {
    "log": (lambda: resp(200, CESR, KEL_A, A), True, "A", A),
    "log of old type": (lambda: resp(200, "application/json+cesr", KEL_A, A), True, "A", A),
    "log without name": (lambda: resp(200, CESR, KEL_A), True, "A", None),
    "log of another": (lambda: resp(200, CESR, KEL_C, C), True, "C", C),
    "log under another name": (lambda: resp(200, CESR, KEL_A, C), True, "A", C),
    "forged log": (lambda: resp(200, CESR, FORGED, A), True, "", A),
    "empty log": (lambda: resp(200, CESR, b"", A), True, "", A),
    "none": (lambda: resp(404), None, "", None),
    "trouble": (lambda: resp(500, "application/json", b"{}"), False, "", None),
    "empty": (lambda: resp(204), False, "", None),
    "untyped": (lambda: resp(200, None, KEL_A), False, "", None),
    "page": (lambda: resp(200, "text/html", b"<html>"), False, "", None),
    "schema": (lambda: resp(200, "application/schema+json", S1.raw), "S1", "", None),
    "schema as json": (lambda: resp(200, "application/json", S1.raw), "S1", "", None),
    "other schema": (lambda: resp(200, "application/schema+json", S2.raw), False, "", None),
    "other schema as json": (lambda: resp(200, "application/json", S2.raw), False, "", None),
    "changed schema": (lambda: resp(200, "application/schema+json", S1.raw.replace(b"one", b"two")), False, "", None),
    "broken schema": (lambda: resp(200, "application/schema+json", b"{"), False, "", None),
    "plain json": (lambda: resp(200, "application/json", b'{"a":1}'), False, "", None),
    "json list": (lambda: resp(200, "application/json", b'[]'), False, "", None),
    "json of nothing": (lambda: resp(200, "application/json", b''), False, "", None),
    "no text": (lambda: resp(200, "application/json", b'\xff\xfe{'), False, "", None),
    "list": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=[L1, L2]))), "list", "", None),
    "short list": (lambda: resp(200, "application/json", rpy("/oobi/controller", dict(aid=A, urls=[L1]))), "short", "", None),
    "list of another": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=C, urls=[L1]))), False, "", None),
    "list of no one": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(urls=[L1]))), False, "", None),
    "list of nothing": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A))), False, "", None),
    "list of numbers": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=[1]))), False, "", None),
    "list of long": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=[L1 + "x" * 600]))), False, "", None),
    "list of empty": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=[""]))), False, "", None),
    "list in one": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=L1))), False, "", None),
    "other reply": (lambda: resp(200, "application/json", rpy("/end/role/add", dict(aid=A, urls=[L1]))), False, "", None),
    "changed list": (lambda: resp(200, "application/json", rpy("/oobi/witness", dict(aid=A, urls=[L1])).replace(b"5605", b"5606")), False, "", None),
    "event": (lambda: resp(200, "application/json", EA.raw), False, "", None),
}
LISTS = {"list": (L1, L2), "short": (L1,)}


class Agent(Home):
    def __init__(self):
        super().__init__(None)
        self.boot()
        self.start()

    def start(self):
        self.net = Clienter()
        self.rtr = routing.Router()
        self.rvy = routing.Revery(db=self.db, rtr=self.rtr)
        self.oo = oobiing.Oobiery(hby=self.hby, rvy=self.rvy, clienter=self.net, version=kering.Vrsn_1_0)
        self.au = oobiing.Authenticator(hby=self.hby, clienter=self.net)

    def restart(self):
        dict.clear(self.db.kevers)
        self.db.reload()
        self.start()

    def save(self):
        return dict(self.db.env._disk.dbs), {u: self.oo.clients.get(u) is c for u, c in self.net.asked.items()}, \
            {p: k for p, k in dict.items(self.db.kevers)}

    def load(self, snap):
        self.db.env._disk.dbs = dict(snap[0])
        dict.clear(self.db.kevers)
        for p, k in snap[2].items():
            dict.__setitem__(self.db.kevers, p, k)
        self.start()
        for u in snap[1]:
            self.oo.clients[u] = self.net.request("GET", u)

    def close(self):
        super().close()


FRESH = dict(out=False, res=None, due=None, date=None, alias=None, urls=None, stale=False)


class Model:
    """what is known of every link, and what the answers have brought"""

    def __init__(self, links):
        self.links = {u: dict(FRESH) for u in links}
        self.logs, self.schemas, self.names = set(), set(), {}

    def copy(self):
        m = Model(())
        m.links = {u: dict(r) for u, r in self.links.items()}
        m.logs, m.schemas, m.names = set(self.logs), set(self.schemas), dict(self.names)
        return m

    def ident(self):
        t = lambda x: None if x is None else min(31, int((CLOCK.now - x).total_seconds()))     # noqa: E731
        return (tuple((u, r["out"], r["res"], t(r["due"]), t(r["date"]), r["alias"], r["urls"]) for u, r in sorted(self.links.items())),
                tuple(sorted(self.logs)), tuple(sorted(self.schemas)), tuple(sorted(self.names.items())))

    def tell(self, u, alias):
        r = self.links.setdefault(u, dict(FRESH))
        if r["res"] is True and r["due"]:       # known, and about to be asked again anyhow
            return
        r.update(out=True, date=CLOCK.now, alias=alias or HINT.get(u), urls=None, due=None)

    def answer(self, u, kind):
        r = self.links[u]
        _, how, log, aid = KINDS[kind]
        if log:
            self.logs.add(dict(A=A, C=C)[log])
        r["out"] = False
        if how is None:
            r["due"] = r["date"]
        elif how in LISTS:
            if u not in NAMED:
                r["res"] = False
            else:
                r["urls"] = LISTS[how]
                for v in LISTS[how]:
                    self.tell(v, r["alias"])
        elif how == "S1":
            r["res"] = u == D
            if r["res"]:
                self.schemas.add(S1.said)
        else:
            r["res"] = how
            if how and r["alias"]:
                who = NAMED.get(u) or aid
                if who:
                    self.names[who] = r["alias"]
        self.lists()

    def lists(self):
        for r in self.links.values():
            if r["urls"]:
                rs = [self.links[v]["res"] for v in r["urls"]]
                if None not in rs:
                    r.update(res=all(rs), urls=None)


def told(a, u, alias=None):
    a.db.oobis.pin(keys=(u,), val=OobiRecord(oobialias=alias, date=CLOCK.now.isoformat(timespec="microseconds")))


def settle(a):
    for _ in range(4):
        a.oo.processFlows()


def compare(a, m):
    asked = set(a.net.asked)
    for u, r in m.links.items():
        n = NAMES[u]
        late = r["due"] is not None and (CLOCK.now - r["due"]).total_seconds() > 30
        if u in asked and not r["out"]:
            if not late:
                raise Bad(f"{n} is asked for with no need")
            r.update(out=True, date=CLOCK.now, due=None)
        elif u not in asked and (r["out"] or (late and r["res"] is not True)):
            raise Bad(f"{n} was told and is not asked for")
        if r["out"] and late:
            r["due"] = None
        rec = a.db.roobi.get(keys=(u,))
        got = None if rec is None else {"resolved": True, "failed": False}.get(rec.state, rec.state)
        if got != r["res"]:
            raise Bad(f"{n} counts as {got}, the last answer makes it {r['res']} (None: open, True: resolved, False: failed)")
    if asked - set(m.links):
        raise Bad(f"{sorted(asked - set(m.links))} asked for, which no one told")
    have = {p for p in (A, C) if p in a.db.kevers}
    if have != m.logs:
        raise Bad(f"logs of {have} are known, {m.logs} were given")
    if A in have and a.db.kevers[A].sn != 1:
        raise Bad("log not known whole")
    have = {s for s in (S1.said, S2.said) if a.db.schema.get(keys=(s,)) is not None}
    if have != m.schemas:
        raise Bad(f"schemas {have} are kept, {m.schemas} were given under their own said")
    have = {c["id"]: c.get("alias") for c in a.oo.org.list()}
    if have != m.names:
        raise Bad(f"contacts are {have}, answers named {m.names}")


POOLS = {
    "aid": ((K, "Amy"), (K, None), (B, None)),
    "schema": ((D, None),),
    "list": ((M, "Max"), (L1, None)),
    "known": ((WK, None), (N, "Nan")),
}
LINKS = {"aid": (K, B), "schema": (D,), "list": (M, L1, L2), "known": (WK, N)}
SHORT = {
    "aid": ("log", "log without name", "log of another", "log under another name", "forged log", "none", "trouble", "list of another"),
    "schema": ("schema", "schema as json", "other schema", "changed schema", "none", "trouble", "log"),
    "list": ("log", "none", "trouble", "list", "short list", "list of another"),
    "known": ("log", "none", "trouble", "log under another name"),
}


def actions(pool, kinds):
    acts = [(f"tell {NAMES[u]}" + (f" as {al}" if al else ""), "tell", u, al) for u, al in POOLS[pool]]
    acts += [(f"{NAMES[u]}: {k}", "answer", u, k) for u in LINKS[pool] for k in kinds]
    return acts + [("31 s pass", "wait", 31, None), ("restart", "restart", None, None)]


def ready(a, m, act):
    _, op, u, x = act
    if op == "answer":
        return m.links[u]["out"] and not (KINDS[x][1] in LISTS and u in (L1, L2))
    return True


def play(a, m, act):
    _, op, u, x = act
    if op == "tell":
        told(a, u, x)
        m.tell(u, x)
    elif op == "answer":
        a.net.asked[u].responses.append(KINDS[x][0]())
        m.answer(u, x)
    elif op == "wait":
        CLOCK.ahead(u)
    elif op == "restart":
        a.restart()


def step(a, m, act):
    play(a, m, act)
    try:
        settle(a)
    except Exception as ex:
        raise Bad(f"the resolver stops with {type(ex).__name__}: {ex}")
    m.lists()
    compare(a, m)


def bfs(res, pool, kinds, first, depth):
    acts = actions(pool, kinds)
    CLOCK.install()
    CLOCK.now = START
    a = Agent()
    try:
        base = a.save()
        seen, todo = set(), [(base, Model(LINKS[pool]), START, ())]
        for snap, model, now, path in todo:
            if len(path) >= depth:
                continue
            for act in ([acts[first]] if not path else acts):
                CLOCK.now = now
                m = model.copy()
                a.load(snap)
                if not ready(a, m, act):
                    continue
                here = path + (act[0],)
                res.add("transitions")
                try:
                    step(a, m, act)
                except Bad as ex:
                    res.violation(f"{pool}:{'>'.join(here)}", f"{', '.join(here)}: {ex}", dict(path=list(here)))
                    if res.full:
                        return
                    continue
                k = m.ident()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((a.save(), m, CLOCK.now, here))
    finally:
        a.close()


def deaths(res, pool, path, last):
    """die before every commit of the last step, start again; nothing told is forgotten, nothing answered is turned round"""
    CLOCK.install()
    CLOCK.now = START
    acts = {x[0]: x for x in actions(pool, KINDS)}
    a = Agent()
    try:
        m0 = Model(LINKS[pool])
        try:
            for p in path:
                step(a, m0, acts[p])
        except Bad as ex:
            raise Violation(f"{pool}:{'>'.join(path)}", f"{', '.join(path)}: {ex}")
        snap, now, act = a.save(), CLOCK.now, acts[last]
        n = 0
        while True:
            CLOCK.now = now
            a.load(snap)
            before = m0.copy()
            m = m0.copy()
            here = (*path, last, f"death before commit {n}")

            def go():
                settle(a)
            play(a, m, act)
            died = dies(a, n, go)
            res.add("transitions")
            res.add("states")
            if not died:
                break
            try:
                a.restart()
                settle(a)
                m.lists()
                again = []
                for u, r in m.links.items():
                    was = before.links.get(u, FRESH)
                    if act[1] == "answer" and u != act[2] and not was["out"] and act[2] in a.net.asked:
                        continue                            # named by an answer that is asked for again
                    if r["out"] or was["out"]:              # it was told: asked again, or settled by what came
                        rec = a.db.roobi.get(keys=(u,))
                        got = None if rec is None else rec.state == "resolved"
                        if u in a.net.asked:
                            again.append(u)
                        elif r["out"] or (r["urls"] is None and r["due"] is None and got != r["res"]):
                            raise Bad(f"{NAMES[u]} was told, and is neither asked for nor settled as answered")
                # the same answer, given again, leaves what it would have left
                if act[1] == "answer":
                    if act[2] in again:
                        a.net.asked[act[2]].responses.append(KINDS[act[3]][0]())
                        settle(a)
                        m.lists()
                    compare(a, m)
            except Bad as ex:
                res.violation(f"death:{pool}:{'>'.join(here)}", f"{', '.join(here)}: {ex}", dict(path=list(here)))
                if res.full:
                    return
            n += 1
    finally:
        a.close()


def dies(a, at, act):
    left = [at]

    def before(env, txn):
        if env is a.db.env:
            if left[0] == 0:
                raise Died()
            left[0] -= 1
    lmdb.CONTROL.before_commit = before
    try:
        act()
        return False
    except Died:
        return True
    finally:
        lmdb.CONTROL.before_commit = None


# ---------------------------------------------------------------- signed introductions
def introductions(res):
    """a link in a signed reply is taken up exactly when the one it speaks for signed it and it is one of the web"""
    CLOCK.install()
    CLOCK.now = START
    a = Agent()
    try:
        snap0 = a.save()
        for known in (True, False):
            for who in ("t", "n"):
                pre = A if who == "t" else wit(7)
                for signer in ("own", "other", "none"):
                    for cid in (pre, C if who == "t" else wit(6), None):
                        for url in (K, B, D, "https://h/oobi/x", "tcp://h/oobi/x", "file:///etc/x", "nothing", None):
                            for route in ("/introduce", "/introduced"):
                                a.load(snap0)
                                if known:
                                    kv = eventing.Kevery(db=a.db, lax=True, local=False)
                                    parsing.Parser(framed=True, kvy=kv, version=kering.Vrsn_1_0).parse(ims=bytearray(KEL_A + KEL_C))
                                att = {k: v for k, v in dict(cid=cid, oobi=url).items() if v is not None}
                                s = make(v="KERI10JSON000000_", t="rpy", d="", dt="2021-06-27T21:26:21.233257+00:00", r=route, a=att)
                                if signer == "none":
                                    msg = wire(s)
                                elif who == "n":
                                    msg = wire(s, cigs=[cig(s, 7 if signer == "own" else 8)])
                                else:
                                    k = 2 if signer == "own" else 5
                                    msg = wire(s, tsgs=[(A, 1, rot(A, 1, EA.said, [2], [3]).said, [sig(s, k, 0)])])
                                kv = eventing.Kevery(db=a.db, lax=True, local=False, rvy=a.rvy)
                                try:
                                    parsing.Parser(framed=True, kvy=kv, rvy=a.rvy, version=kering.Vrsn_1_0).parse(ims=bytearray(msg))
                                except Exception as ex:
                                    raise Violation(f"intro:{known}:{who}:{signer}:{cid}:{url}:{route}", f"introduction stops the agent: {ex}")
                                have = [k for k, _ in a.db.oobis.getTopItemIter()]
                                own = signer == "own" and cid == pre and (known or who == "n")
                                want = [(url,)] if own and route == "/introduce" and url and url.startswith("http") else []
                                res.add("transitions")
                                res.add("states")
                                if have != want:
                                    raise Violation(f"intro:{known}:{who}:{signer}:{cid}:{url}:{route}",
                                                    f"introduction of {url} for {cid} by {signer} key of {pre} (log known: {known}), route {route}: "
                                                    f"links told are {have}, not {want}")
    finally:
        a.close()


# ---------------------------------------------------------------- well-known links that vouch for a known identifier
def vouchers(res):
    CLOCK.install()
    CLOCK.now = START
    a = Agent()
    try:
        snap0 = a.save()
        bad = f"{H}08/oobi/{A}"
        for known in (True, False):
            for url in (WK, bad):
                for status in (102, 200, 201, 204, 302, 400, 404, 500):
                    for restart in (0, 1, 2):
                        CLOCK.now = START
                        a.load(snap0)
                        if known:
                            parsing.Parser(framed=True, kvy=eventing.Kevery(db=a.db, lax=True, local=False), version=kering.Vrsn_1_0).parse(ims=bytearray(KEL_A))
                        a.db.woobi.pin(keys=(url,), val=OobiRecord(date=CLOCK.now.isoformat()))
                        for n in range(4):
                            a.au.processFlows()
                            if n == restart:
                                a.restart()
                        ask = known and url == WK
                        where = f"well-known {url}, log known {known}, answered {status}, restart after pass {restart}"
                        if (url in a.net.asked) != ask:
                            raise Violation(f"vouch:{where}", f"{where}: asked {list(a.net.asked)}")
                        if ask:
                            a.net.asked[url].responses.append(resp(status))
                            a.au.processFlows()
                            a.au.processFlows()
                        have = [r.url for r in a.db.wkas.get(keys=(A,))]
                        good = ask and 200 <= status <= 399
                        rec = a.db.rmfa.get(keys=(url,))
                        state = rec.state if rec else None
                        res.add("transitions")
                        res.add("states")
                        if have != ([url] if good else []) or state != (("resolved" if good else "failed") if ask else None):
                            raise Violation(f"vouch:{where}", f"{where}: vouched for by {have}, settled as {state}")
    finally:
        a.close()


def job(res, j):
    kind, *pa = j
    try:
        dict(bfs=bfs, deaths=deaths, intro=introductions, vouch=vouchers)[kind](res, *pa)
    except Violation as ex:
        res.violation(ex.key, ex.what, ex.replay)


def main(res):
    jobs = [("intro",), ("vouch",)]
    for pool in POOLS:
        short = [k for k in KINDS if k in SHORT[pool]]
        for n, act in enumerate(actions(pool, short)):
            if act[1] != "answer":
                jobs.append(("bfs", pool, short, n, pick(dict(aid=5, schema=6, list=7, known=5)[pool], dict(aid=7, schema=9, list=10, known=8)[pool])))
        full = list(KINDS)
        for n, act in enumerate(actions(pool, full)):
            if act[1] == "tell":
                jobs.append(("bfs", pool, full, n, pick(2, 3)))
    for pool in POOLS:
        for u, al in POOLS[pool]:
            tell = f"tell {NAMES[u]}" + (f" as {al}" if al else "")
            jobs.append(("deaths", pool, (), tell))
            for k in KINDS:
                jobs.append(("deaths", pool, (tell,), f"{NAMES[u]}: {k}"))
            jobs.append(("deaths", pool, (tell, f"{NAMES[u]}: none"), "31 s pass"))
            jobs.append(("deaths", pool, (tell, f"{NAMES[u]}: log"), tell))
    jobs.append(("deaths", "list", ("tell M as Max", "M: list", "L1: log"), "L2: log"))
    jobs.append(("deaths", "list", ("tell M as Max", "M: list", "L1: log"), "L2: trouble"))
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("O01", "model_checking", main)
