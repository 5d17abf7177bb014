"""Session lifecycle of the web store: opening (with and without clearing), naming
of stores, duplicate flags, version, closing, over every short history of calls
by two databases sharing one storage."""

import itertools
import json

from ..lib import boot, explore_jobs, outcome, pick, run
from ..webstore import Backend, decode, drive, mod

boot()

# name, declared stores
OPENS = [("n", ("a.", "b."), False), ("n", ("a.",), False), ("n", ("a.", "b."), True),
         ("n", ("a.",), True), ("m", ("a.", "b."), False)]
ACTIONS = [("open",) + o for o in OPENS] + [
    ("use", "a.", False), ("use", "a.", True), ("use", "b.", False), ("use", b"a.", True),
    ("use", "zz", False),
    ("set", "a.", b"k"), ("set", "b.", b"k"), ("version", "1.0.0"), ("version", b"2.0.0"),
    ("flush",), ("close", False), ("close", True)]


class Store:
    def __init__(self, recs, flag, known):
        self.recs, self.flag, self.known, self.opened = dict(recs), flag, known, False


class Model:
    """durable: ns -> (records, dupsort or None)"""

    def __init__(self):
        self.disk = {}
        self.cur = None     # (name, {store: Store})

    def live(self, s):
        return sorted(self.cur[1][s].recs.items())


def apply(m, backend, real, a, n):
    """returns (new real handle, complaint or None)"""
    kind = a[0]
    if kind == "open":
        _, name, stores, clear = a
        got = outcome(lambda: drive(mod().WebDBer.open(
            name=name, stores=list(stores), clear=clear, storageOpener=backend.open)))
        if got[0] != "ok":
            return None, f"opening raised {got[1]}"
        real = got[1]
        new = {}
        for s in list(stores) + ["__meta__"]:
            ns = f"{name}:{s}"
            if clear:
                m.disk[ns] = ({}, None)
            recs, flag = m.disk.get(ns, ({}, None))
            new[s] = Store(recs, bool(flag), flag is not None)
        m.cur = (name, new)
    elif m.cur is None:
        return real, None
    elif kind == "use":
        s = a[1].decode() if isinstance(a[1], bytes) else a[1]
        got = outcome(real.env.open_db, a[1], dupsort=a[2])
        if s not in m.cur[1]:
            if got != ("err", "KeyError"):
                return real, f"undeclared store gave {got!r}"
            return real, None
        if got[0] != "ok":
            return real, f"open_db raised {got[1]}"
        st = m.cur[1][s]
        if not st.opened:
            if not st.known:
                st.flag, st.known = a[2], True
            st.opened = True
        if got[1].flags() != {"dupsort": st.flag}:
            return real, f"flags {got[1].flags()} instead of {st.flag}"
        if got[1] is not real.env.open_db(a[1]):
            return real, "opening a store twice gave two different handles"
    elif kind == "set":
        if a[1] not in m.cur[1] or not m.cur[1][a[1]].opened:
            return real, None
        val = b"%d" % n
        m.cur[1][a[1]].recs[a[2]] = val
        real.setVal(real.env.open_db(a[1]), a[2], val)
    elif kind == "version":
        v = a[1].decode() if isinstance(a[1], bytes) else a[1]
        real.version = a[1]
        m.cur[1]["__meta__"].recs[b"__version__"] = v.encode()
    elif kind == "flush":
        got = outcome(lambda: drive(real.flush()))
        if got[0] != "ok":
            return real, f"flush raised {got[1]}"
        for s, st in m.cur[1].items():
            # a store never opened nor written has nothing to persist
            ns = f"{m.cur[0]}:{s}"
            img = backend.persisted.get(ns)
            if decode(img) != sorted(st.recs.items()):
                return real, f"storage of {ns} is {decode(img)} instead of {st.recs}"
            raw = json.loads(img.get("__meta__") or "{}") if img else {}
            if st.recs or st.opened:
                if raw.get("dupsort") != st.flag:
                    return real, f"persisted flags of {ns} are {raw} instead of {st.flag}"
            m.disk[ns] = (dict(st.recs), raw.get("dupsort"))
    elif kind == "close":
        handles = [real.env.open_db(s) for s, st in m.cur[1].items() if st.opened]
        real.close(clear=a[1])
        names = list(m.cur[1])
        m.cur = None
        # a closed session offers no store and writes nothing any more
        for s in names:
            got = outcome(real.env.open_db, s)
            if got != ("err", "KeyError"):
                return real, f"closed session still opens {s}: {got!r}"
        if a[1] and any(len(h.items) for h in handles):
            return real, "close(clear=True) left records in memory"
        if drive(real.flush()) != 0:
            return real, "a closed session flushed something"
    # what the session shows
    for s, st in m.cur[1].items() if m.cur else ():
        if s == "__meta__":
            want = st.recs.get(b"__version__")
            want = want.decode() if want is not None else None
            if real.version != want:
                return real, f"version {real.version!r} instead of {want!r}"
            if real.getVer() != want:
                return real, f"stored version {real.getVer()!r} instead of {want!r}"
        elif st.opened:
            seen = list(real.getTopItemIter(real.env.open_db(s)))
            if seen != sorted(st.recs.items()):
                return real, f"{s} shows {seen} instead of {sorted(st.recs.items())}"
    # nothing of any namespace changed on disk except by flush and clearing
    for ns, (recs, flag) in m.disk.items():
        if decode(backend.persisted.get(ns)) != sorted(recs.items()):
            return real, (f"storage of {ns} became {decode(backend.persisted.get(ns))}, "
                          f"expected {recs}")
    for ns in backend.persisted:
        if ns not in m.disk and decode(backend.persisted[ns]):
            return real, f"storage of {ns} appeared"
    return real, None


def job(res, spec):
    first, depth = spec
    for tail in itertools.product(ACTIONS, repeat=depth - 1):
        m, be, real = Model(), Backend(), None
        hist = []
        for n, a in enumerate((OPENED[first],) + tail + (("flush",), ("open", "n", ("a.", "b."), False),
                                                        ("use", "a.", True), ("use", "b.", True))):
            hist.append(a)
            res.add("transitions")
            real, bad = apply(m, be, real, a, n)
            if bad:
                res.violation(f"{hist}", f"after {hist}: {bad}", dict(history=hist))
                break
        if res.full:
            return
        res.add("states")
        res.add("traces_validated_against_impl")
    res.sample({"history": hist})


OPENED = [a for a in ACTIONS if a[0] == "open"]


def missing_flags(res):
    """a non-empty persisted store whose flags are lost must be refused"""
    for recs in ([], [(b"k", b"v")]):
        for meta in (None, "{}", '{"dupsort": false}', '{"dupsort": true}'):
            img = {"__records__": json.dumps({k.hex(): v.hex() for k, v in recs})}
            if meta is not None:
                img["__meta__"] = meta
            for other in ("a.", "b."):
                be = Backend({f"n:{other}": img})
                got = outcome(lambda: drive(mod().WebDBer.open(
                    name="n", stores=["a.", "b."], storageOpener=be.open)))
                refuse = bool(recs) and meta in (None, "{}")
                res.add("states")
                res.add("transitions")
                res.add("traces_validated_against_impl")
                if (got == ("err", "ValueError")) != refuse or (got[0] != "ok") != refuse:
                    res.violation(f"flags:{recs}:{meta}:{other}",
                                  f"opening on records {recs} and flags {meta} gave {got!r}")


def main(res):
    missing_flags(res)
    d = pick(4, 5)
    explore_jobs(res, job, [(i, d) for i in range(len(OPENED))])


def check():
    return run("S08", "model_checking", main)
