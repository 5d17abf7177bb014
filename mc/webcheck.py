"""Lock-step exploration of the real browser store against the reference model:
every content in a bounded space x every operation, and every short operation
sequence from the empty store."""

import itertools

from . import webmodel, webspace as sp
from .webmodel import MAXON
from .lib import Violation, explore_jobs, outcome, pick
from .webstore import Backend, decode, drive, mod, open_db

STORE = "s."


def show(model):
    return [(k.decode("latin1"), v.decode("latin1")) for k, v in model.dump()]


class Rig:
    """one real store whose whole content can be set"""

    def __init__(self):
        self.backend = Backend()
        self.dber = open_db(self.backend, [STORE])
        self.db = self.dber.env.open_db(STORE)
        drive(self.dber.flush())

    def load(self, dump):
        """content := dump, persisted and clean"""
        self.db.items.clear()
        self.db.items.update(dump)
        self.db.dirty = False

    def fresh(self, dump):
        """the same through the front door: a brand new store opened on a
        persisted image"""
        import json
        be = Backend({f"w:{STORE}": {
            "__records__": json.dumps({k.hex(): v.hex() for k, v in dump}),
            "__meta__": json.dumps({"dupsort": False})}})
        self.backend = be
        self.dber = open_db(be, [STORE])
        self.db = self.dber.env.open_db(STORE)

    def dump(self):
        return list(self.dber.getTopItemIter(self.db))

    def call(self, name, kwa):
        return outcome(getattr(self.dber, name), self.db, **kwa)


def plainly(x):
    if isinstance(x, memoryview):
        return bytes(x)
    if isinstance(x, tuple):
        return tuple(map(plainly, x))
    if isinstance(x, list):
        return list(map(plainly, x))
    return x


def norm(out):
    return (out[0], plainly(out[1]))


class LmdbRig:
    """the same calls against the directory-backed store"""

    def __init__(self, dupsort=False):
        from keri.db import dbing
        self.dber = dbing.LMDBer(name="rig", temp=True, reopen=True)
        self.db = self.dber.env.open_db(key=b"s.", dupsort=dupsort)

    def load(self, dump):
        with self.dber.env.begin(db=self.db, write=True) as txn:
            txn.drop(self.db, delete=False)
            for k, v in dump:
                txn.put(k, v)

    def dump(self):
        return plainly(list(self.dber.getTopItemIter(self.db)))

    def call(self, name, kwa):
        return outcome(getattr(self.dber, name), self.db, **kwa)


def expect(model, name, kwa):
    return outcome(getattr(model, name), **kwa)


def opkey(name, kwa):
    return f"{name}({','.join(f'{k}={v!r}' for k, v in kwa.items())})"


def step(res, rig, model, name, kwa, hist, flushcheck, told=None):
    """apply one call to both sides; compare answer, content and persistence"""
    before = model.dump()
    want = norm(expect(model, name, kwa))
    kwa = told or kwa
    got = norm(rig.call(name, kwa))
    res.add("transitions")
    where = dict(history=hist, op=opkey(name, kwa), content=before)
    key = f"{opkey(name, kwa)}@{hist}"
    if got != want:
        res.violation(key, f"answered {got!r}, the model answers {want!r} for "
                           f"{opkey(name, kwa)} on content {before}", where)
        return False
    after, real = model.dump(), rig.dump()
    if real != after:
        res.violation(key, f"content after {opkey(name, kwa)} on {before} is {real}, "
                           f"the model has {after}", where)
        return False
    if flushcheck and after != before:
        res.add("flushes")
        drive(rig.dber.flush())
        per = decode(rig.backend.persisted.get(f"w:{STORE}"))
        if per != after:
            res.violation(f"unflushed:{opkey(name, kwa)}",
                          f"after {opkey(name, kwa)} was acknowledged on {before} and a "
                          f"flush completed, storage holds {per} instead of {after}", where)
            return False
    return True


def sweep(res, states, ops, *, flushcheck=False, stride=(0, 1), rig=None):
    """every content x every call"""
    rig = rig or Rig()
    mut, rd = ops
    for i, model in enumerate(states):
        if i % stride[1] != stride[0]:
            continue
        res.add("states")
        base = model.dump()
        hist = ("content", tuple(base))
        rig.load(base)
        if not flushcheck:
            for name, kwa in rd:
                res.add("transitions")
                want, got = norm(expect(model, name, kwa)), norm(rig.call(name, kwa))
                if got != want:
                    res.violation(f"{opkey(name, kwa)}@{hist}",
                                  f"{opkey(name, kwa)} on {base} answered {got!r}, the model "
                                  f"answers {want!r}", dict(content=base, op=opkey(name, kwa)))
            if rig.dump() != base:
                res.violation(f"read-mutates@{hist}", f"reading changed {base} to {rig.dump()}",
                              dict(content=base))
        for name, kwa in mut:
            rig.load(base)
            step(res, rig, model.copy(), name, kwa, hist, flushcheck)
        res.add("traces_validated_against_impl", len(mut))
        if res.full:
            return
        if i % 997 == 5:
            res.sample({"content": base, "calls": len(mut) + len(rd)})


def sequences(res, empty, ops, depth, first, *, flushcheck=False, observe=()):
    """every sequence of `depth` mutating calls starting with call number `first`,
    on a store opened from nothing, without merging states; after each, all
    reads in `observe`"""
    mut = ops
    for tail in itertools.product(range(len(mut)), repeat=depth - 1):
        rig = Rig()
        model = empty.copy()
        hist = []
        for n in (first,) + tail:
            name, kwa = mut[n]
            if not step(res, rig, model, name, kwa, tuple(hist), flushcheck):
                return
            hist.append(opkey(name, kwa))
        for name, kwa in observe:
            res.add("transitions")
            want, got = norm(expect(model, name, kwa)), norm(rig.call(name, kwa))
            if got != want:
                res.violation(f"{opkey(name, kwa)}@{tuple(hist)}",
                              f"{opkey(name, kwa)} answered {got!r}, the model answers {want!r}",
                              dict(history=hist))
                return
        # reopen: what was flushed is what a new session sees
        drive(rig.dber.flush())
        again = open_db(Backend(rig.backend.persisted), [STORE])
        seen = list(again.getTopItemIter(again.env.open_db(STORE)))
        if seen != model.dump():
            res.violation(f"reopen@{tuple(hist)}", f"after {hist} and a flush, reopening shows "
                          f"{seen} instead of {model.dump()}", dict(history=hist))
            return
        res.add("traces_validated_against_impl")
        res.add("sequences")


def sep_sweep(res, states, ops, sep, *, stride=(0, 1), rig=None):
    """every content x every call once more, where the caller names the separator
    that joins key and ordinal (states and ops are made once it is set)"""
    was, webmodel.SEP[0] = webmodel.SEP[0], sep
    try:
        rig = rig or Rig()
        mut, rd = sp.with_sep(rig.dber, ops(), sep)
        for i, model in enumerate(states()):
            if i % stride[1] != stride[0]:
                continue
            res.add("states")
            base = model.dump()
            hist = ("separator", sep, "content", tuple(base))
            rig.load(base)
            for name, kwa, told in rd:
                res.add("transitions")
                want, got = norm(expect(model, name, kwa)), norm(rig.call(name, told))
                if got != want:
                    res.violation(f"{opkey(name, told)}@{hist}",
                                  f"{opkey(name, told)} on {base} answered {got!r}, the model "
                                  f"answers {want!r}", dict(content=base, op=opkey(name, told)))
            for name, kwa, told in mut:
                rig.load(base)
                step(res, rig, model.copy(), name, kwa, hist, False, told)
            res.add("traces_validated_against_impl", len(mut))
            if res.full:
                return
    finally:
        webmodel.SEP[0] = was


# families of the calls that take a separator: contents, given the separator
SEPS = {
    "on": (lambda sep: sp.on_states(pick(1, 2), sp.sep_keys(sp.OK, sep)), sp.on_ops),
    "ioset": (lambda sep: (sp.IoSet(dict(zip(sp.sep_keys(sp.SK, sep), c)))
                           for c in itertools.product(sp.SMALL + [((2, b"z"), (3, b"x"), (4, b"xy"))],
                                                      repeat=len(sp.SK))), sp.ioset_ops),
    "onioset": (lambda sep: itertools.chain(
        sp.onioset_states(pick(1, 2), sp.sep_keys(sp.QK, sep), [0, 1, 16]),
        [sp.OnIoSet({(k, o): sp.QS[(i + o) % 3] for i, k in enumerate(sp.sep_keys(sp.QK, sep))
                     for o in (0, 1, 16)})]), sp.onioset_ops),
}
SEPARATORS = [b"|", b"-"]


def keys_check(res, m):
    """joining and splitting keys: every key form x separator form x ordinal"""
    texts = ["A", "AB", "A.B", "A|", "a.0" * 11, "E.0000"]
    sepx = [".", "|", "-", "::"]
    as_ = {"bytes": lambda t: t.encode(), "str": str, "memoryview": lambda t: memoryview(t.encode())}
    for text, sep, on in itertools.product(texts, sepx, [0, 1, 9, 10, 15, 16, 255, 2 ** 64, MAXON]):
        raw = text + sep + "%032x" % on
        for form, conv in as_.items():
            calls = [("unsuffix", outcome(m.unsuffix, conv(raw), sep=s), (text.encode(), on))
                     for s in (sep, sep.encode())]
            calls += [("suffix", outcome(m.suffix, conv(text), on, sep=s), raw.encode())
                      for s in (sep, sep.encode())]
            if form != "memoryview":
                calls += [("onKey", outcome(m.onKey, conv(text), on, sep=sep.encode()), raw.encode())]
            same = str if form == "str" else str.encode
            calls += [("splitOnKey", outcome(m.splitOnKey, conv(raw), sep=s), (same(text), on))
                      for s in (sep, sep.encode())]
            calls += [("splitKey", outcome(m.splitKey, conv(raw), sep=s), (same(text), same("%032x" % on)))
                      for s in (sep, sep.encode())]
            if sep == ".":
                calls += [("suffix", outcome(m.suffix, conv(text), on), raw.encode()),
                          ("unsuffix", outcome(m.unsuffix, conv(raw)), (text.encode(), on)),
                          ("splitOnKey", outcome(m.splitOnKey, conv(raw)), (same(text), on))]
            for name, got, want in calls:
                res.add("transitions")
                if got != ("ok", want):
                    res.violation(f"{name}:{form}:{raw}", f"{name} of {raw!r} as {form} at {sep!r} "
                                  f"gives {got!r} instead of {want!r}", dict(key=raw, form=form))
    for form, conv in as_.items():
        if outcome(m.splitKey, conv("plain"))[0] == "ok" or outcome(m.unsuffix, conv("plain"))[0] == "ok":
            res.violation(f"splits:{form}", f"a key with no separator ({form}) was split", {})
    res.add("states", len(texts) * len(sepx) * 9)


FAMILY = {
    "plain": (lambda: sp.plain_states(pick(4, 8)), sp.plain_ops, sp.Plain),
    "on": (lambda: sp.on_states(pick(2, 4)), sp.on_ops, sp.On),
    "ioset": (lambda: sp.ioset_states(), sp.ioset_ops, sp.IoSet),
    "onioset": (lambda: sp.onioset_states(pick(2, 3)), sp.onioset_ops, sp.OnIoSet),
}

SEQ = {
    "plain": [("putVal", dict(key=b"A", val=b"1")), ("putVal", dict(key=b"A.", val=b"2")),
              ("putVal", dict(key=b"AB", val=b"3")), ("setVal", dict(key=b"A", val=b"4")),
              ("remVal", dict(key=b"A")), ("remVal", dict(key=b"AB")),
              ("remTop", dict(top=b"A")), ("remTop", dict(top=b""))],
    "on": [("appendOnVal", dict(key=b"A", val=b"1")), ("appendOnVal", dict(key=b"AB", val=b"2")),
           ("putOnVal", dict(key=b"A", on=1, val=b"3")), ("pinOnVal", dict(key=b"A", on=16, val=b"4")),
           ("remOn", dict(key=b"A", on=1)), ("remOn", dict(key=b"A", on=0)),
           ("remOnAll", dict(key=b"A", on=1)), ("remOnAll", dict(key=b"", on=0))],
    "ioset": [("addIoSetVal", dict(key=b"A", val=b"x")), ("addIoSetVal", dict(key=b"A", val=b"xy")),
              ("putIoSetVals", dict(key=b"A", vals=[b"z", b"x"])),
              ("putIoSetVals", dict(key=b"AB", vals=[b"xy"])),
              ("pinIoSetVals", dict(key=b"A", vals=[b"xy", b"z"])),
              ("remIoSetVal", dict(key=b"A", val=b"x")), ("remIoSetVal", dict(key=b"A", val=b"xy")),
              ("remIoSet", dict(key=b"A"))],
    "onioset": [("appendOnIoSetVals", dict(key=b"A", vals=[b"x", b"xy"])),
                ("appendOnIoSetVals", dict(key=b"AB", vals=[b"x"])),
                ("addOnIoSetVal", dict(key=b"A", on=0, val=b"z")),
                ("addOnIoSetVal", dict(key=b"A", on=2, val=b"x")),
                ("putOnIoSetVals", dict(key=b"A", on=1, vals=[b"xy", b"x"])),
                ("pinOnIoSetVals", dict(key=b"A", on=0, vals=[b"xy"])),
                ("remOnIoSetVal", dict(key=b"A", on=0, val=b"x")),
                ("remOnAllIoSet", dict(key=b"A", on=1))],
}


def job(res, spec):
    kind, family, part = spec
    states, ops, empty = FAMILY[family]
    if kind == "sweep":
        sweep(res, states(), ops(), stride=part)
    elif kind == "flush":
        sweep(res, states(), ops(), flushcheck=True, stride=part)
    elif kind == "keys":
        keys_check(res, mod())
    elif kind == "sep":
        states, ops = SEPS[family]
        sep, stride = part
        sep_sweep(res, lambda: states(sep), ops, sep, stride=stride)
    elif kind == "seq":
        depth, first = part
        sequences(res, empty(), SEQ[family], depth, first, observe=ops()[1])


def family_main(res, family):
    n = pick(8, 32)
    depth = pick(4, 5)
    jobs = [("sweep", family, (i, n)) for i in range(n)]
    jobs += [("seq", family, (depth, f)) for f in range(len(SEQ[family]))]
    if family == "on":
        jobs.append(("keys", family, 0))
    if family in SEPS:
        jobs += [("sep", family, (sep, (i, 4))) for sep in SEPARATORS for i in range(4)]
    explore_jobs(res, job, jobs)
