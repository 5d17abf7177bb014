"""The typed stores (every Suber and Komer class) over the real directory-backed store and
the real browser store: every content of a small space x every call x every form a key may
be given in x separators, in lock-step with the reference models of the plain families plus
an independent idea of how each kind of value looks at rest."""

import dataclasses
import itertools
import json

from .. import dupmodel as dm, webmodel as wm
from ..lib import boot, explore_jobs, outcome, pick, run
from ..webcheck import plainly
from ..webstore import Backend, open_db

boot()

KEYS = [("A",), ("A", "B"), ("A-",), ("AB",)]
SUB, NEAR = "docs.", "docs2."


# ------------------------------------------------------------------ values
@dataclasses.dataclass
class Inner:
    a: int
    b: str


@dataclasses.dataclass
class Rec:
    name: str
    n: int = 0
    tags: list = dataclasses.field(default_factory=list)
    sub: Inner = None
    f: bool = False


@dataclasses.dataclass
class Flat:
    x: str = ""
    y: int = 0


RECS = [Rec("x", 1, ["p", "q"], Inner(1, "ü"), True), Rec("", -5, [], Inner(0, ""), False),
        Rec("long" * 20, 2 ** 40, ["z"], Inner(7, "."), True)]
FLATS = [Flat("x.y", 1), Flat("é", 0), Flat("", 3)]


def values():
    """kind of value -> (pool, how each lies at rest, what a reader should see)"""
    from keri.core import coring, eventing, indexing, scheming
    dig = [coring.Diger(raw=bytes([i] * 32), code=c) for i, c in ((1, "E"), (2, "H"), (3, "E"))]
    ver = [coring.Verfer(raw=bytes([i] * 32), code=c) for i, c in ((1, "D"), (2, "B"), (3, "D"))]
    num = [coring.Number(num=n) for n in (0, 1, 70000)]
    sig = [indexing.Siger(raw=bytes([i] * 64), index=i) for i in (0, 1, 2)]
    sad = [eventing.incept(keys=[v.qb64], isith="1") for v in ver]
    sch = [scheming.Schemer(sed={"$id": "", "title": t}, typ=scheming.JSONSchema()) for t in "abc"]
    qb = lambda o: (type(o).__name__, o.qb64)
    strs = ["x", "y.z é", "0"]
    return {
        "str": (strs, [s.encode() for s in strs], strs, None),
        "b64": ([("a",), ("b-_", "c"), ("dd", "a", "e0")], None,
                [("a",), ("b-_", "c"), ("dd", "a", "e0")], None),
        "dig": (dig, [d.qb64b for d in dig], [qb(d) for d in dig], qb),
        "sig": (sig, [d.qb64b for d in sig], [qb(d) for d in sig], qb),
        "cat": ([*zip(num, dig)], [n.qb64b + d.qb64b for n, d in zip(num, dig)],
                [(qb(n), qb(d)) for n, d in zip(num, dig)], lambda t: tuple(map(qb, t))),
        "serder": (sad, [s.raw for s in sad], [s.raw for s in sad], lambda s: s.raw),
        "schema": (sch, [s.raw for s in sch], [s.raw for s in sch], lambda s: s.raw),
    }


# -------------------------------------------------------------- the contents
def plain_contents(keys, v):
    for c in itertools.product((None, 0, 1), repeat=len(keys)):
        yield wm.Plain({k: v[i] for k, i in zip(keys, c) if i is not None})


ONS = (0, 1, 16)


def on_contents(keys, v):
    sets = [(), ((0, 0),), ((1, 1), (16, 2)), ((0, 2), (1, 2))]
    for c in itertools.product(sets[:pick(3, 4)], repeat=len(keys)):
        yield wm.On({(k, o): v[i] for k, s in zip(keys, c) for o, i in s})


IOS = [(), ((0, 0),), ((1, 1), (16, 2)), ((0, 2), (2, 0), (3, 1))]


def io_contents(klass):
    def make(keys, v):
        for c in itertools.product(IOS[:pick(3, 4)], repeat=len(keys)):
            yield klass({k: [(i, v[n]) for i, n in s] for k, s in zip(keys, c) if s})
    return make


def dup_contents(keys, v):
    sets = [(), (0,), (1, 2), (0, 1, 2)]
    for c in itertools.product(sets[:pick(3, 4)], repeat=len(keys)):
        yield dm.Dup({k: [v[i] for i in s] for k, s in zip(keys, c)})


def onio_contents(klass):
    def make(keys, v):
        slots = [(k, o) for k in keys for o in ONS]
        for n in range(pick(2, 3)):
            for ss in itertools.combinations(slots, n):
                for c in itertools.product(IOS[1:], repeat=n):
                    yield klass({s: [(i, v[x]) for i, x in e] for s, e in zip(ss, c)})
        yield klass({s: [(i, v[x]) for i, x in IOS[1 + n % 3]] for n, s in enumerate(slots)})
    return make


# ----------------------------------------------------------------- the calls
# (method, arguments, model call, shape of the answer, changes content)
TOPS = [(("",), None), ("", None), (("A",), None), (("A",), True), (("A", ""), True), ("A", True),
        (("A", "B"), True), (("AB",), False), (b"A", None), (("Z",), None)]

PLAIN = [
    ("put", "k v", lambda m, k, v: m.putVal(k, v), "raw", 1),
    ("pin", "k v", lambda m, k, v: m.setVal(k, v), "raw", 1),
    ("rem", "k", lambda m, k: m.remVal(k), "raw", 1),
    ("trim", "top", lambda m, t: m.remTop(t), "raw", 1),
    ("get", "k", lambda m, k: m.getVal(k), "v", 0),
    ("cnt", "", lambda m: m.cntAll(), "raw", 0),
    ("cntAll", "", lambda m: m.cntAll(), "raw", 0),
    ("getTopItemIter", "top", lambda m, t: m.getTopItemIter(t), "kvs", 0),
    ("getFullItemIter", "top", lambda m, t: m.getTopItemIter(t), "kvs", 0),
]
CNTTOP = [("cntTop", "top", lambda m, t: m.cntTop(t), "raw", 0)]
ON = [
    ("put", "k on v", lambda m, k, o, v: m.putOnVal(k, o, v), "raw", 1),
    ("pin", "k on v", lambda m, k, o, v: m.pinOnVal(k, o, v), "raw", 1),
    ("append", "k v", lambda m, k, v: m.appendOnVal(k, v), "raw", 1),
    ("rem", "k on", lambda m, k, o: m.remOn(k, o), "raw", 1),
    ("remAll", "ke on", lambda m, k, o: m.remOnAll(k, o), "raw", 1),
    ("trim", "top", lambda m, t: m.remTop(t), "raw", 1),
    ("get", "k on", lambda m, k, o: m.getOnVal(k, o), "v", 0),
    ("getItem", "k on", lambda m, k, o: m.getOnItem(k, o), "kov", 0),
    ("cnt", "ke on", lambda m, k, o: m.cntOnAll(k, o) if k else 0, "raw", 0),
    ("cntAll", "ke on", lambda m, k, o: m.cntOnAll(k, o), "raw", 0),
    ("getTopItemIter", "topn", lambda m, t: m.getOnTopItemIter(t), "kovs", 0),
    ("getAllItemIter", "ke on", lambda m, k, o: m.getOnAllItemIter(k, o), "kovs", 0),
    ("getAllIter", "ke on", lambda m, k, o: [v for _, _, v in m.getOnAllItemIter(k, o)], "vs", 0),
    *CNTTOP]
IOSET = [
    ("put", "k vs", lambda m, k, vs: m.putIoSetVals(k, vs), "raw", 1),
    ("pin", "k vs", lambda m, k, vs: m.pinIoSetVals(k, vs), "raw", 1),
    ("add", "k v", lambda m, k, v: m.addIoSetVal(k, v), "raw", 1),
    ("rem", "k", lambda m, k: m.remIoSet(k), "raw", 1),
    ("rem", "k v", lambda m, k, v: m.remIoSetVal(k, v), "raw", 1),
    ("trim", "top", lambda m, t: m.remTop(t), "raw", 1),
    ("get", "k", lambda m, k: [v for _, v in m.getIoSetItemIter(k, 0)], "vs", 0),
    ("getIter", "k", lambda m, k: [v for _, v in m.getIoSetItemIter(k, 0)], "vs", 0),
    ("getLast", "k", lambda m, k: (m.getIoSetLastItem(k) or (0, None))[1], "v", 0),
    ("cnt", "ke", lambda m, k: m.cntIoSet(k, 0) if k else m.cntAll(), "raw", 0),
    ("getTopItemIter", "top", lambda m, t: m.getTopIoSetItemIter(t), "kvs", 0),
]
IOSETX = [
    ("get", "k ion", lambda m, k, i: [v for _, v in m.getIoSetItemIter(k, i)], "vs", 0),
    ("getIter", "k ion", lambda m, k, i: [v for _, v in m.getIoSetItemIter(k, i)], "vs", 0),
    ("getItem", "k ion", lambda m, k, i: m.getIoSetItemIter(k, i), "kvs", 0),
    ("getItemIter", "k ion", lambda m, k, i: m.getIoSetItemIter(k, i), "kvs", 0),
    ("cnt", "k ion", lambda m, k, i: m.cntIoSet(k, i), "raw", 0),
    ("getLastItem", "k", lambda m, k: m.getIoSetLastItem(k), "kv", 0),
    ("getLastItemIter", "ke", lambda m, k: m.getIoSetLastItemIterAll(k), "kvs", 0),
    ("getLastIter", "ke", lambda m, k: m.getIoSetLastIterAll(k), "vs", 0),
    ("getFullItemIter", "top", lambda m, t: [i for i in m.dump() if i[0].startswith(t)], "kvs", 0),
    *CNTTOP]
DUP = [
    ("put", "k vs", lambda m, k, vs: m.putVals(k, vs), "raw", 1),
    ("pin", "k vs", lambda m, k, vs: (m.delVals(k, None), m.putVals(k, vs))[1], "raw", 1),
    ("add", "k v", lambda m, k, v: m.addVal(k, v), "raw", 1),
    ("rem", "k", lambda m, k: m.delVals(k, None), "raw", 1),
    ("rem", "k v", lambda m, k, v: m.delVals(k, v), "raw", 1),
    ("trim", "top", lambda m, t: m.remTop(t), "raw", 1),
    ("get", "k", lambda m, k: m.getVals(k), "vs", 0),
    ("getIter", "k", lambda m, k: m.getVals(k), "vs", 0),
    ("getLast", "k", lambda m, k: m.getValLast(k), "v", 0),
    ("cnt", "k", lambda m, k: m.cntVals(k), "raw", 0),
    ("getTopItemIter", "top", lambda m, t: m.getTopItemIter(t), "kvs", 0),
]
IODUP = [
    ("put", "k vs", lambda m, k, vs: m.putIoDupVals(k, vs), "raw", 1),
    ("pin", "k vs", lambda m, k, vs: (m.delIoDupVals(k), m.putIoDupVals(k, vs))[1], "raw", 1),
    ("add", "k v", lambda m, k, v: m.addIoDupVal(k, v), "raw", 1),
    ("rem", "k", lambda m, k: m.delIoDupVals(k), "raw", 1),
    ("rem", "k v", lambda m, k, v: m.delIoDupVal(k, v), "raw", 1),
    ("trim", "top", lambda m, t: m.remTop(t), "raw", 1),
    ("get", "k", lambda m, k: m.getIoDupVals(k), "vs", 0),
    ("getIter", "k ion", lambda m, k, i: [v for _, v in m.getIoDupItemIter(k, i)], "vs", 0),
    ("getItemIter", "k ion", lambda m, k, i: m.getIoDupItemIter(k, i), "kvs", 0),
    ("getLast", "k", lambda m, k: m.getIoDupValLast(k), "v", 0),
    ("cnt", "ke", lambda m, k: m.cntIoDups(k) if k else m.cntAll(), "raw", 0),
    ("getTopItemIter", "top", lambda m, t: m.getTopIoDupItemIter(t), "kvs", 0),
    *CNTTOP]
ONIODUP = [
    ("put", "k on vs", lambda m, k, o, vs: m.putOnIoDupVals(k, o, vs), "raw", 1),
    ("pin", "k on vs", lambda m, k, o, vs: (m.delOnIoDups(k, o), m.putOnIoDupVals(k, o, vs))[1], "raw", 1),
    ("add", "k on v", lambda m, k, o, v: m.addOnIoDupVal(k, o, v), "raw", 1),
    ("append", "k v", lambda m, k, v: m.appendOnIoDupVal(k, v), "raw", 1),
    ("rem", "k on", lambda m, k, o: m.delOnIoDups(k, o), "raw", 1),
    ("rem", "k on v", lambda m, k, o, v: m.delOnIoDupVal(k, o, v), "raw", 1),
    ("get", "k on", lambda m, k, o: m.getOnIoDupVals(k, o), "vs", 0),
    ("getIter", "k on ion", lambda m, k, o, i: [v for _, _, v in m.getOnIoDupItemIter(k, o, i)], "vs", 0),
    ("getItemIter", "k on ion", lambda m, k, o, i: m.getOnIoDupItemIter(k, o, i), "kovs", 0),
    ("getLast", "k on", lambda m, k, o: m.getOnIoDupLast(k, o), "v", 0),
    ("cnt", "ke on", lambda m, k, o: m.cntOnIoDups(k, o) if k else m.cntAll(), "raw", 0),
    ("getTopItemIter", "topn", lambda m, t: m.getOnTopIoDupItemIter(t), "kovs", 0),
    ("getAllItemIter", "ke on", lambda m, k, o: m.getOnIoDupItemIterAll(k, o), "kovs", 0),
    ("getAllIter", "ke on", lambda m, k, o: m.getOnIoDupIterAll(k, o), "vs", 0),
    ("getLastItemIter", "ke on", lambda m, k, o: m.getOnIoDupLastItemIter(k, o), "kovs", 0),
    ("getLastIter", "ke on", lambda m, k, o: m.getOnIoDupLastValIter(k, o), "vs", 0),
    ("getItemBackIter", "ke on", lambda m, k, o: m.getOnIoDupItemBackIter(k, o), "kovs", 0),
    ("getBackIter", "ke on", lambda m, k, o: m.getOnIoDupValBackIter(k, o), "vs", 0),
]
_v3 = lambda items: [v for _, _, v in items]
ONIOSET = [
    ("put", "k on vs", lambda m, k, o, vs: m.putOnIoSetVals(k, o, vs), "raw", 1),
    ("pin", "k on vs", lambda m, k, o, vs: m.pinOnIoSetVals(k, o, vs), "raw", 1),
    ("append", "k vs", lambda m, k, vs: m.appendOnIoSetVals(k, vs), "raw", 1),
    ("add", "k on v", lambda m, k, o, v: m.addOnIoSetVal(k, o, v), "raw", 1),
    ("rem", "k on", lambda m, k, o: m.remOnIoSetVal(k, o, None), "raw", 1),
    ("rem", "k on v", lambda m, k, o, v: m.remOnIoSetVal(k, o, v), "raw", 1),
    ("remAll", "ke on", lambda m, k, o: m.remOnAllIoSet(k, o), "raw", 1),
    ("get", "k on ion", lambda m, k, o, i: _v3(m.getOnIoSetItemIter(k, o, i)), "vs", 0),
    ("getIter", "k on ion", lambda m, k, o, i: _v3(m.getOnIoSetItemIter(k, o, i)), "vs", 0),
    ("getItem", "k on ion", lambda m, k, o, i: m.getOnIoSetItemIter(k, o, i), "kovs", 0),
    ("getItemIter", "k on ion", lambda m, k, o, i: m.getOnIoSetItemIter(k, o, i), "kovs", 0),
    ("getLastItem", "k on", lambda m, k, o: m.getOnIoSetLastItem(k, o), "kov", 0),
    ("getLast", "k on", lambda m, k, o: (m.getOnIoSetLastItem(k, o) or (0, 0, None))[2], "v", 0),
    ("cnt", "k on ion", lambda m, k, o, i: m.cntOnIoSet(k, o, i), "raw", 0),
    ("cnt", "e", lambda m, k: m.cntAll(), "raw", 0),
    ("cntAll", "ke on", lambda m, k, o: m.cntOnAllIoSet(k, o), "raw", 0),
    ("getTopItemIter", "topn", lambda m, t: m.getOnTopIoSetItemIter(t), "kovs", 0),
    ("getAllItemIter", "ke on", lambda m, k, o: m.getOnAllIoSetItemIter(k, o), "kovs", 0),
    ("getAllIter", "ke on", lambda m, k, o: _v3(m.getOnAllIoSetItemIter(k, o)), "vs", 0),
    ("getAllLastItemIter", "ke on", lambda m, k, o: m.getOnAllIoSetLastItemIter(k, o), "kovs", 0),
    ("getAllLastIter", "ke on", lambda m, k, o: _v3(m.getOnAllIoSetLastItemIter(k, o)), "vs", 0),
    ("getAllItemBackIter", "ke onx", lambda m, k, o: m.getOnAllIoSetItemBackIter(k, o), "kovs", 0),
    ("getAllBackIter", "ke onx", lambda m, k, o: _v3(m.getOnAllIoSetItemBackIter(k, o)), "vs", 0),
    ("getAllLastItemBackIter", "ke onx", lambda m, k, o: m.getOnAllIoSetLastItemBackIter(k, o), "kovs", 0),
    ("getAllLastBackIter", "ke onx", lambda m, k, o: _v3(m.getOnAllIoSetLastItemBackIter(k, o)), "vs", 0),
]
FAMILIES = {
    "plain": (plain_contents, PLAIN + CNTTOP, 0), "on": (on_contents, ON, 0),
    "ioset": (io_contents(wm.IoSet), IOSET + IOSETX, 0), "dup": (dup_contents, DUP + CNTTOP, 1),
    "iodup": (io_contents(dm.IoDup), IODUP, 1), "oniodup": (onio_contents(dm.OnIoDup), ONIODUP, 1),
    "onioset": (onio_contents(wm.OnIoSet), ONIOSET, 0),
    "koplain": (plain_contents, PLAIN + [("getDict", "k", lambda m, k: m.getVal(k), "d", 0)], 0),
    "koioset": (io_contents(wm.IoSet), IOSET, 0), "kodup": (dup_contents, DUP, 1),
}

# class, family, kind of value
CLASSES = [("Suber", "plain", "str"), ("OnSuber", "on", "str"), ("B64Suber", "plain", "b64"),
           ("CesrSuber", "plain", "dig"), ("CesrOnSuber", "on", "dig"), ("CatCesrSuber", "plain", "cat"),
           ("IoSetSuber", "ioset", "str"), ("B64IoSetSuber", "ioset", "b64"),
           ("CesrIoSetSuber", "ioset", "sig"), ("CatCesrIoSetSuber", "ioset", "cat"),
           ("SerderSuber", "plain", "serder"), ("SerderIoSetSuber", "ioset", "serder"),
           ("SchemerSuber", "plain", "schema"), ("DupSuber", "dup", "str"),
           ("CesrDupSuber", "dup", "dig"), ("CatCesrDupSuber", "dup", "cat"),
           ("IoDupSuber", "iodup", "str"), ("B64IoDupSuber", "iodup", "b64"),
           ("OnIoDupSuber", "oniodup", "str"), ("B64OnIoDupSuber", "oniodup", "b64"),
           ("OnIoSetSuber", "onioset", "str"), ("B64OnIoSetSuber", "onioset", "b64"),
           *[("Komer", "koplain", f"{k}:{t}") for k in ("JSON", "CBOR", "MGPK") for t in ("rec", "flat")],
           *[("IoSetKomer", "koioset", f"{k}:rec") for k in ("JSON", "CBOR", "MGPK")],
           *[("DupKomer", "kodup", f"{k}:rec") for k in ("JSON", "CBOR", "MGPK")]]
SEPX = [None, "|"]


class Rig:
    """one real typed store, and how to read and set all of what lies under it"""

    def __init__(self, klass, family, kind, sep, backend):
        from keri.db import koming, subing
        from keri.core import coring, indexing
        self.sep = sep or "."
        dup = FAMILIES[family][2]
        if backend == "dir":
            from keri.db import dbing
            self.dber = dbing.LMDBer(name="rig", temp=True, reopen=True)
        else:
            self.dber = open_db(Backend(), [SUB, NEAR])
        kwa = dict(sep=sep) if sep else {}
        if ":" in kind:
            import cbor2
            import msgpack
            enc, typ = kind.split(":")
            pool = RECS if typ == "rec" else FLATS
            self.pool, self.seen, self.look = pool, [dataclasses.asdict(r) for r in pool], None
            self.rest = [{"JSON": lambda d: json.dumps(d, separators=(",", ":"), ensure_ascii=False).encode(),
                          "CBOR": cbor2.dumps, "MGPK": msgpack.dumps}[enc](d) for d in self.seen]
            self.look = lambda r: dataclasses.asdict(r) if type(r) is type(pool[0]) else r
            self.store = getattr(koming, klass)(db=self.dber, subkey=SUB, klas=type(pool[0]), kind=enc, **kwa)
        else:
            self.pool, self.rest, self.seen, self.look = values()[kind]
            if kind == "b64":
                self.rest = [self.sep.join(t).encode() for t in self.pool]
            if kind in ("dig", "sig", "cat"):
                kwa["klas"] = {"dig": coring.Diger, "sig": indexing.Siger,
                               "cat": (coring.Number, coring.Diger)}[kind]
            self.store = getattr(subing, klass)(db=self.dber, subkey=SUB, **kwa)
        # a neighbour whose name begins alike, opened alike, must never be touched
        self.near = self.dber.env.open_db(**({"key": NEAR.encode(), "dupsort": bool(dup)}))
        self.quiet = [(b"A." + b"%032x" % i, b"n%d" % i) for i in range(3)] + [(b"AB", b"n")]
        for k, v in self.quiet:
            self.dber.setVal(self.near, k, v)
        self.look = self.look or (lambda x: x)
        self.shown = dict(zip(self.rest, self.seen))
        self.dir = backend == "dir"

    def load(self, dump):
        if self.dir:
            with self.dber.env.begin(db=self.store.sdb, write=True) as txn:
                txn.drop(self.store.sdb, delete=False)
                for k, v in dump:
                    txn.put(k, v)
        else:
            self.store.sdb.items.clear()
            self.store.sdb.items.update(dump)

    def dump(self):
        return [(bytes(k), bytes(v)) for k, v in self.dber.getTopItemIter(self.store.sdb)]

    def keys(self, k):
        return tuple(k.decode().split(self.sep))

    def want(self, out, shape):
        """the model's answer as a reader of the typed store should see it"""
        if out[0] != "ok":
            return out
        x, v = out[1], self.shown
        if shape in ("v", "d"):
            x = None if x is None else v[x]
        elif shape == "vs":
            x = [v[b] for b in x]
        elif shape == "kv":
            x = (self.keys(x[0]), v[x[1]]) if x else ()
        elif shape == "kvs":
            x = [(self.keys(k), v[b]) for k, b in x]
        elif shape == "kov":
            x = (self.keys(x[0]), x[1], v[x[2]]) if x else None
        elif shape == "kovs":
            x = [(self.keys(k), o, v[b]) for k, o, b in x]
        return ("ok", x)

    def got(self, out, shape):
        if out[0] != "ok":
            return out
        x, l = out[1], self.look
        if shape == "v":
            x = None if x is None else l(x)
        elif shape == "vs":
            x = [l(y) for y in x]
        elif shape in ("kv", "kov"):
            x = (*x[:-1], l(x[-1])) if x else (() if shape == "kv" else None)
        elif shape in ("kvs", "kovs"):
            x = [(*y[:-1], l(y[-1])) for y in x]
        return ("ok", x)


FORMS = {"tuple": lambda k, s: k, "joined": lambda k, s: s.join(k), "bytes": lambda k, s: s.join(k).encode(),
         "view": lambda k, s: memoryview(s.join(k).encode()), "parts": lambda k, s: [p.encode() for p in k],
         "mixed": lambda k, s: (memoryview(k[0].encode()), *k[1:])}


def plan(rig, ops, ko):
    """(method, real positional, real keyword, model arguments, model call, shape, mutates)"""
    V = list(zip(rig.pool, rig.rest))
    forms = [(n, f) for n, f in FORMS.items() if not (ko and n == "mixed")]
    plans = []
    for opn, (name, args, fn, shape, mut) in enumerate(ops):
        axes = []
        for a in args.split():
            if a in ("k", "ke", "e"):
                ks = KEYS if a != "e" else []
                fs = forms if not mut else [forms[(opn + i) % len(forms)] for i in (0, 3)]
                ax = [((f(k, rig.sep),), {}, (rig.sep.join(k).encode(),)) for k in ks for _, f in fs]
                if a != "k":
                    ax += [(("",), {}, (b"",)), ((b"",), {}, (b"",))]
            elif a == "on":
                ax = [((o,), {}, (o,)) for o in ONS + (2,)]
            elif a == "onx":
                ax = [((o,), {}, (o,)) for o in ONS + (2, None)]
            elif a == "ion":
                ax = [((), {"ion": i}, (i,)) for i in (0, 1, 3)]
            elif a == "v":
                ax = [((p,), {}, (b,)) for p, b in V]
            elif a == "vs":
                ax = [(([V[i][0] for i in c],), {}, ([V[i][1] for i in c],))
                      for c in ((0,), (2,), (1, 0), (2, 2, 1), ())]
            else:
                ax = []
                for t, ive in TOPS:
                    if a == "topn" and ive:
                        continue
                    raw = t.encode() if isinstance(t, str) else t
                    if isinstance(t, tuple):
                        p = t + ("",) if ive and t[-1] else t
                        raw = rig.sep.join(p).encode()
                    ax.append(((t,), {} if ive is None else {"topive": ive} if a == "top" else {}, (raw,)))
            axes.append(ax)
        for combo in itertools.product(*axes):
            pa = tuple(x for c in combo for x in c[0])
            kwa = {k: v for c in combo for k, v in c[1].items()}
            ma = tuple(x for c in combo for x in c[2])
            plans.append((name, pa, kwa, ma, fn, shape, mut))
    return plans


def describe(name, pa, kwa):
    f = lambda x: x.tobytes() if isinstance(x, memoryview) else getattr(x, "qb64", x) if not isinstance(
        x, (list, tuple)) else [f(y) for y in x]
    return f"{name}{tuple(f(p) for p in pa)}{kwa or ''}"[:200]


def job(res, spec):
    (klass, family, kind), sep, backend = spec
    contents, ops, dup = FAMILIES[family]
    was, wm.SEP[0] = wm.SEP[0], (sep or ".").encode()
    label = f"{klass}[{kind}]{sep or '.'}@{backend}"
    try:
        rig = Rig(klass, family, kind, sep, backend)
        plans = plan(rig, ops, family.startswith("ko"))
        keys = [rig.sep.join(k).encode() for k in KEYS]
        for model in contents(keys, rig.rest):
            base = model.dump()
            res.add("states")
            rig.load(base)
            dirty = False
            for name, pa, kwa, ma, fn, shape, mut in plans:
                if dirty:
                    rig.load(base)
                    dirty = False
                m = model.copy() if mut else model
                want = rig.want(outcome(fn, m, *ma), shape)
                got = rig.got(outcome(getattr(rig.store, name), *pa, **kwa), shape)
                res.add("transitions")
                if got != want:
                    res.violation(f"{label}:{describe(name, pa, kwa)}@{base}",
                                  f"{label} {describe(name, pa, kwa)} on {base} answers {got!r} "
                                  f"instead of {want!r}", dict(content=base))
                if mut:
                    dirty = True
                    now, after = rig.dump(), m.dump()
                    if now != after:
                        res.violation(f"{label}:{describe(name, pa, kwa)}@{base}",
                                      f"{label} {describe(name, pa, kwa)} on {base} left {now} "
                                      f"instead of {after}", dict(content=base))
                if res.full:
                    return
            if plainly(list(rig.dber.getTopItemIter(rig.near))) != rig.quiet:
                res.violation(f"{label}:neighbour@{base}", f"{label}: calls on {SUB} changed {NEAR}: "
                              f"{plainly(list(rig.dber.getTopItemIter(rig.near)))}", dict(content=base))
            res.add("traces_validated_against_impl", len(plans))
    finally:
        wm.SEP[0] = was


def refusals(res, _spec):
    """a value of the wrong sort is refused and nothing of it is stored"""
    from keri.core import coring
    bad = {"B64Suber": [("a.b",), "a b", ("ok", "é"), b"\xff"], "B64IoSetSuber": [[("ok", "a.b")], ["a+"]],
           "B64OnIoSetSuber": [[("ok", "a.b")], ["a="]], "B64OnIoDupSuber": [[("ok", "a/b")]],
           "Komer": [FLATS[0], {"name": "x"}, "x"], "IoSetKomer": [[RECS[0], FLATS[0]]],
           "DupKomer": [[RECS[0], FLATS[0]]]}
    for (klass, family, kind), backend in itertools.product(CLASSES, ("dir", "web")):
        if klass not in bad or kind.endswith("flat") or (backend == "web" and FAMILIES[family][2]):
            continue
        rig = Rig(klass, family, kind, None, backend)
        for val, name in itertools.product(bad[klass], ("put", "pin")):
            on = (0,) if "On" in klass else ()
            out = outcome(getattr(rig.store, name), ("A",), *on, val)
            res.add("transitions")
            if out[0] == "ok" or rig.dump():
                res.violation(f"takes:{klass}:{name}:{val!r}", f"{klass}.{name} of {val!r} answers {out} "
                              f"and leaves {rig.dump()}", {})
    for klass, kind in (("CesrSuber", "dig"), ("CatCesrSuber", "cat"), ("CesrIoSetSuber", "dig")):
        from keri.db import dbing, subing
        kl = coring.Diger if kind == "dig" else (coring.Number, coring.Diger)
        dber = dbing.LMDBer(name="strict", temp=True, reopen=True)
        store = getattr(subing, klass)(db=dber, subkey=SUB, klas=kl, strict=True)
        ver, num, dig = coring.Verfer(raw=b"v" * 32, code="D"), coring.Number(num=1), coring.Diger(raw=b"d" * 32)
        for val in ([ver] if kind == "dig" else [(num, ver), (dig, num), (num,), (num, dig, dig)]):
            out = outcome(store.put, ("A",), [val] if "IoSet" in klass else val)
            res.add("transitions")
            if out[0] == "ok" or list(dber.getTopItemIter(store.sdb)):
                res.violation(f"strict:{klass}:{val!r}", f"strict {klass} took {val!r}: {out}", {})


def both(res, spec):
    (refusals if spec == "refusals" else job)(res, spec)


def main(res):
    jobs = ["refusals"]
    jobs += [(c, sep, "dir") for c in CLASSES for sep in SEPX]
    jobs += [(c, sep, "web") for c in CLASSES for sep in SEPX if not FAMILIES[c[1]][2]]
    explore_jobs(res, both, jobs)


def check():
    return run("L02", "model_checking", main)
