"""A world for the key-event machinery: deterministic keys, hand-made events (no repository
builder involved), real Kevery/Baser on the in-memory directory store, cheap snapshots."""

import copy
import functools

from .lib import boot

boot()

import lmdb                                                        # noqa: E402
from keri import kering                                            # noqa: E402
from keri.core import coring, eventing, indexing, serdering, signing  # noqa: E402
from keri.db import basing                                         # noqa: E402
from keri.help import helping                                      # noqa: E402

VS = "KERI10JSON000000_"


# ---------------------------------------------------------------- time
class Clock:
    """stands in for the wall clock everywhere the repository reads it"""

    def __init__(self, start="2021-06-27T21:26:21.233257+00:00"):
        self.now = helping.fromIso8601(start)

    def install(self):
        helping.nowUTC = lambda: self.now
        helping.nowIso8601 = lambda: self.now.isoformat(timespec="microseconds")
        import datetime
        import sys
        clock = self

        class DateTime(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return clock.now.astimezone(tz) if tz else clock.now.replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return clock.now.replace(tzinfo=None)
        self.DateTime = DateTime
        for name, m in list(sys.modules.items()):
            if name.startswith("keri."):
                if getattr(m, "nowUTC", None) is not None and name != "keri.help.helping":
                    m.nowUTC = helping.nowUTC
                if getattr(m, "nowIso8601", None) is not None and name != "keri.help.helping":
                    m.nowIso8601 = helping.nowIso8601
        return self

    def ahead(self, seconds):
        import datetime
        self.now += datetime.timedelta(seconds=seconds)


# ---------------------------------------------------------------- keys
@functools.lru_cache(None)
def S(i):
    """transferable signing key number i"""
    return signing.Signer(raw=bytes([i, 1]) + bytes(30), transferable=True)


@functools.lru_cache(None)
def W(i):
    """non-transferable key number i (witness, watcher, receiptor)"""
    return signing.Signer(raw=bytes([i, 2]) + bytes(30), transferable=False)


@functools.lru_cache(None)
def key(i):
    return S(i).verfer.qb64


@functools.lru_cache(None)
def wit(i):
    return W(i).verfer.qb64


@functools.lru_cache(None)
def dig(i):
    """digest that commits to key i"""
    return coring.Diger(ser=S(i).verfer.qb64b, code=coring.MtrDex.Blake3_256).qb64


DIGESTS = [coring.MtrDex.Blake3_256, coring.MtrDex.SHA3_256, coring.MtrDex.SHA2_256, coring.MtrDex.Blake2b_256, coring.MtrDex.Blake2s_256,
           coring.MtrDex.Blake3_512, coring.MtrDex.SHA2_512, coring.MtrDex.SHA3_512, coring.MtrDex.Blake2b_512]


@functools.lru_cache(None)
def digs(i):
    """digests of every kind that commit to key i"""
    return tuple(coring.Diger(ser=S(i).verfer.qb64b, code=c).qb64 for c in DIGESTS)


# ---------------------------------------------------------------- events
def make(**sad):
    return serdering.SerderKERI(sad=sad, makify=True)


def icp(keys, nxt=(), kt=None, nt=None, wits=(), toad=None, cnfg=(), data=(), basic=False, di=None, raw=None):
    sad = dict(v=VS, t="icp" if di is None else "dip", d="", i="", s="0",
               kt="%x" % len(keys) if kt is None else kt, k=[key(k) for k in keys],
               nt="%x" % len(nxt) if nt is None else nt, n=[dig(k) for k in nxt],
               bt="%x" % len(wits) if toad is None else "%x" % toad, b=[wit(w) for w in wits],
               c=list(cnfg), a=list(data))
    if di is not None:
        sad["di"] = di
    sad.update(raw or {})
    if basic:
        sad["i"] = sad["k"][0]
        return make(**sad)
    return serdering.SerderKERI(sad=sad, makify=True, saids=dict(i=coring.MtrDex.Blake3_256))


def rot(pre, sn, prior, keys, nxt=(), kt=None, nt=None, toad=0, cuts=(), adds=(), data=(), ilk="rot", raw=None):
    sad = dict(v=VS, t=ilk, d="", i=pre, s="%x" % sn, p=prior,
               kt="%x" % len(keys) if kt is None else kt, k=[key(k) for k in keys],
               nt="%x" % len(nxt) if nt is None else nt, n=[dig(k) for k in nxt],
               bt="%x" % toad, br=[wit(w) for w in cuts], ba=[wit(w) for w in adds], a=list(data))
    sad.update(raw or {})
    return make(**sad)


def ixn(pre, sn, prior, data=(), raw=None):
    sad = dict(v=VS, t="ixn", d="", i=pre, s="%x" % sn, p=prior, a=list(data))
    sad.update(raw or {})
    return make(**sad)


def rct(pre, sn, said):
    return make(v=VS, t="rct", d=said, i=pre, s="%x" % sn)


def seal(ev):
    return dict(i=ev.pre, s=ev.snh, d=ev.said)


SIGC = {}


def sig(ev, k, index=None, ondex=None, only=False, raw=None):
    """indexed signature by key k.  ondex None: same index both lists; only: current list only"""
    index = 0 if index is None else index
    kk = (raw or ev.raw, k, index, ondex, only)
    if kk not in SIGC:
        if len(SIGC) > 200000:
            SIGC.clear()
        SIGC[kk] = S(k).sign(kk[0], index=index, only=only, ondex=ondex).qb64
    return indexing.Siger(qb64=SIGC[kk])


def sigs(ev, keys, at=None):
    return [sig(ev, k, i) for k, i in zip(keys, at if at is not None else range(len(keys)))]


def wig(ev, w, index, raw=None):
    kk = (raw or ev.raw, "w", w, index)
    if kk not in SIGC:
        SIGC[kk] = W(w).sign(kk[0], index=index).qb64
    return indexing.Siger(qb64=SIGC[kk])


def cig(ev, w, raw=None):
    """unindexed signature by the non-transferable key w"""
    kk = (raw or ev.raw, "c", w)
    if kk not in SIGC:
        SIGC[kk] = W(w).sign(kk[0]).qb64
    c = signing.Cigar(qb64=SIGC[kk]) if hasattr(signing, "Cigar") else coring.Cigar(qb64=SIGC[kk])
    c.verfer = W(w).verfer
    return c


# ---------------------------------------------------------------- the world
class Died(BaseException):
    """the process ended here"""


class World:
    """one controller's database and event processor"""
    N = 0

    def __init__(self, name=None, own=(), check=False, **kwa):
        World.N += 1
        self.db = basing.Baser(name=name or f"w{World.N}", temp=True, reopen=True)
        for p in own:
            self.db.prefixes.add(p)
        kwa.setdefault("lax", True)
        kwa.setdefault("local", False)
        self.kvy = eventing.Kevery(db=self.db, **kwa)

    # -- snapshots: committed tables are never mutated in place
    def save(self):
        return (dict(self.db.env._disk.dbs), {p: copy.copy(k) for p, k in dict.items(self.db.kevers)},
                list(self.db.prefixes), dict(self.db.groups) if isinstance(self.db.groups, dict) else list(self.db.groups),
                list(self.kvy.cues))

    def restore(self, snap):
        disk, kevers, prefixes, groups, cues = snap
        self.db.env._disk.dbs = dict(disk)
        dict.clear(self.db.kevers)
        for p, k in kevers.items():
            dict.__setitem__(self.db.kevers, p, copy.copy(k))
        self.db.prefixes.clear()
        self.db.prefixes.update(prefixes)
        self.kvy.cues.clear()
        self.kvy.cues.extend(cues)

    def reboot(self):
        """the process died: everything in memory is gone, the disk stays"""
        self.db.env._disk.dbs = dict(self.db.env._disk.dbs)
        dict.clear(self.db.kevers)
        self.db.reload()
        kwa = dict(lax=self.kvy.lax, local=self.kvy.local)
        self.kvy = eventing.Kevery(db=self.db, **kwa)

    def dies(self, at, act, *pa):
        """run act, dying before its commit number at.  True when it died, False when act finished"""
        left = [at]

        def before(env, txn):
            if env is self.db.env:
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
        lmdb.CONTROL.before_commit = before
        try:
            act(*pa)
            return False
        except Died:
            return True
        finally:
            lmdb.CONTROL.before_commit = None

    def close(self):
        env = self.db.env
        self.db.close(clear=True)
        lmdb.disk_drop(env)

    def event(self, serder, sigers, wigers=None, **kwa):
        """verdict of delivering one event: "ok" or the exception's class name"""
        kvy = self.kvy
        try:
            kvy.processEvent(serder=serder, sigers=list(sigers),
                             wigers=list(wigers) if wigers is not None else [], **kwa)
            return "ok"
        except kering.ValidationError as ex:
            return type(ex).__name__
        except Exception as ex:
            return "!" + type(ex).__name__ + ": " + str(ex)[:80]

    def escrows(self, limit=12):
        """process escrows to a fixpoint of the stored content"""
        for _ in range(limit):
            before = dict(self.db.env._disk.dbs)
            self.kvy.processEscrows()
            after = self.db.env._disk.dbs
            if all(after[n] is before.get(n) or after[n] == before.get(n) for n in after):
                return
        raise AssertionError("escrow processing does not settle")

    def state(self, pre):
        """the key state observers see"""
        if pre not in self.db.kevers:
            return None
        return kstate(self.db.kevers[pre])

    def kel(self, pre):
        return [d for d in self.db.kels.getAllIter(keys=pre)]

    def dump(self, skip=()):
        """the whole durable content"""
        return {n: dict(s) for n, s in self.db.env._disk.dbs.items() if n is not None and s and n not in skip}


def kstate(k):
    return dict(sn=k.sn, d=k.serder.said, ilk=k.ilk, k=[v.qb64 for v in k.verfers], kt=k.tholder.sith,
                n=[g.qb64 for g in k.ndigers], nt=k.ntholder.sith if k.ntholder else None,
                bt=k.toader.num, b=list(k.wits), ee=(k.lastEst.s, k.lastEst.d), eo=k.estOnly,
                nd=k.doNotDelegate, di=k.delpre or None)


# ---------------------------------------------------------------- wire form, framed by hand
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def b64n(n, width):
    out = ""
    for _ in range(width):
        out = B64[n & 63] + out
        n >>= 6
    return out


def ctr(letter, n):
    """version 1 count code"""
    return f"-{letter}{b64n(n, 2)}"


def huge(n):
    """sequence number of fixed width"""
    import base64
    return "0A" + base64.urlsafe_b64encode(bytes(2) + n.to_bytes(16, "big")).decode()[2:]


def wire(ev, sigs=(), wigs=(), cigs=(), tsgs=(), rsgs=(), first=None, source=None, lsgs=()):
    """the message as sent: body, then each group of attachments behind its count"""
    out = bytearray(ev.raw)
    if sigs:
        out += (ctr("A", len(sigs)) + "".join(s.qb64 for s in sigs)).encode()
    if wigs:
        out += (ctr("B", len(wigs)) + "".join(s.qb64 for s in wigs)).encode()
    if cigs:
        out += (ctr("C", len(cigs)) + "".join(c.verfer.qb64 + c.qb64 for c in cigs)).encode()
    for pre, sn, said, ss in tsgs:
        out += (ctr("F", 1) + pre + huge(sn) + said + ctr("A", len(ss)) + "".join(s.qb64 for s in ss)).encode()
    if rsgs:
        body = "".join(pre + huge(sn) + said + ctr("A", len(ss)) + "".join(s.qb64 for s in ss) for pre, sn, said, ss in rsgs)
        out += (ctr("D", len(body) // 4) + body).encode()
    for pre, ss in lsgs:
        out += (ctr("H", 1) + pre + ctr("A", len(ss)) + "".join(s.qb64 for s in ss)).encode()
    if first:
        n, dt = first
        out += (ctr("E", 1) + huge(n) + dt).encode()
    if source:
        n, d = source
        out += (ctr("G", 1) + huge(n) + d).encode()
    return bytes(out)


def receive(w, msg, local=False, kvy=None, **kwa):
    """the message arrives: parsed and processed as from the network (or locally)"""
    from keri.core import parsing
    p = parsing.Parser(framed=True, kvy=kvy or w.kvy, local=local, version=kering.Vrsn_1_0, **kwa)
    p.parse(ims=bytearray(msg), local=local)
