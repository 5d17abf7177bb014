"""The browser registry store over every short history of opening, writing each
of its tables, flushing, closing and clearing: what it shows and what a later
session shows equals a plain model."""

import itertools

from ..lib import boot, explore_jobs, outcome, pick, run
from ..webstore import Backend, drive

boot()

from keri.acdc import messaging, webregbasing        # noqa: E402
from keri.core import coring                         # noqa: E402

ISS = "EA2X8Lfrl9lZbCGz8cfKIvM_cqLyTYVLSFLhnttezlzQ"
SERS = [messaging.regcept(israid=ISS, uuid=u, stamp="2020-08-22T17:50:09.988921+00:00")
        for u in ("0AAxyHwW6htOZ_rANOaZb2N2", "0ABhY2Rjc3BlY3dvcmtyYXcw")]
SAIDS = [s.said for s in SERS]


def writes():
    out = []
    for i in (0, 1):
        out.append(("evts", i))
    out += [("ancs", 0), ("tels", 0), ("heads", 0), ("heads", 1), ("maes", 0), ("maes", 1), ("ooes", 0)]
    return out


def write(b, table, i):
    s, sd = SERS[i], coring.Saider(qb64=SAIDS[i])
    if table == "evts":
        b.evts.put(keys=s.said, val=s)
    elif table == "ancs":
        b.ancs.pin(keys=SAIDS[0], val=(coring.Number(num=3 + i), coring.Diger(qb64=s.said)))
    elif table == "tels":
        b.tels.append(keys=SAIDS[0], val=sd)
    elif table == "heads":
        b.heads.pin(keys=SAIDS[0], val=sd)
    else:
        getattr(b, table).add(keys=SAIDS[0], on=1, val=s.said)


def mwrite(m, table, i):
    m = m.setdefault(table, {})
    if table == "evts":
        m[SAIDS[i]] = SERS[i].raw
    elif table == "ancs":
        m[SAIDS[0]] = (3 + i, SAIDS[i])
    elif table == "tels":
        m[len(m)] = SAIDS[i]
    elif table == "heads":
        m[SAIDS[0]] = SAIDS[i]
    else:
        if SAIDS[i] not in m.setdefault(1, []):
            m[1].append(SAIDS[i])


def view(b):
    v = {"evts": {k[0]: s.raw for k, s in b.evts.getTopItemIter()},
         "ancs": {k[0]: (n.num, d.qb64) for k, (n, d) in b.ancs.getTopItemIter()},
         "tels": {o: s.qb64 for _, o, s in b.tels.getAllItemIter(keys=SAIDS[0])},
         "heads": {k[0]: s.qb64 for k, s in b.heads.getTopItemIter()}}
    for t in ("maes", "ooes"):
        v[t] = {}
        for _, o, val in getattr(b, t).getAllItemIter(keys=SAIDS[0]):
            v[t].setdefault(o, []).append(val[0] if isinstance(val, tuple) else val)
    v = {t: d for t, d in v.items() if d}
    if b.version is not None:
        v["version"] = b.version
    return v


def clone(m):
    return {t: ({k: list(v) if isinstance(v, list) else v for k, v in d.items()}
                if isinstance(d, dict) else d) for t, d in m.items()}


def trim(m):
    return {t: d for t, d in m.items() if d}


ACTIONS = [("open", False), ("open", True), ("aclose", False), ("aclose", True), ("close",), ("flush",),
           ("version", "1.0.0")] + [("w",) + w for w in writes()]


class Fail(Exception):
    pass


def act(st, a):
    kind = a[0]
    b = st["b"]
    if kind == "open":
        if st["open"]:
            # a second session over the same storage replaces the first
            st["b"] = b = webregbasing.WebRegBaser(name="obs", temp=st["temp"])
        drive(b.reopen(clear=a[1], storageOpener=st["be"].open))
        if a[1] or st["temp"]:
            st["disk"] = {}
        st["mem"] = clone(st["disk"])
        st["open"], st["dirty"] = True, None
    elif not st["open"]:
        # a closed store refuses or ignores, and never invents data
        if kind == "aclose":
            drive(b.aclose(clear=a[1]))
        elif kind == "close":
            b.close()
        elif kind == "version" and outcome(b.setVer, "9.9.9") != ("err", "RuntimeError"):
            raise Fail("a closed store accepted a version")
        if b.getVer() is not None:
            raise Fail("a closed store shows a version")
        if any(hasattr(b, t) for t in ("evts", "tels", "heads")):
            raise Fail("a closed store still offers tables")
        return
    elif kind == "w":
        write(b, a[1], a[2])
        mwrite(st["mem"], a[1], a[2])
    elif kind == "version":
        b.version = a[1]
        st["mem"]["version"] = a[1]
    elif kind == "flush":
        drive(b.flush())
        st["disk"] = clone(st["mem"])
    elif kind == "aclose":
        drive(b.aclose(clear=a[1]))
        st["disk"] = {} if (a[1] or st["temp"]) else clone(st["mem"])
        st["open"] = False
    elif kind == "close":
        got = outcome(b.close)
        if got[0] == "ok":
            if st["temp"] or trim(st["mem"]) != trim(st["disk"]):
                raise Fail("close() accepted although writes were pending")
            st["open"] = False
        elif got != ("err", "RuntimeError"):
            raise Fail(f"close() gave {got}")
        elif b.opened is not True:
            raise Fail("a refused close() closed the store")
    if st["open"]:
        got = view(st["b"])
        if got != trim(st["mem"]):
            raise Fail(f"shows {got}, expected {trim(st['mem'])}")
    elif b.opened or b.db is not None:
        raise Fail("closing left the store open")
    # a session opened on what is persisted now sees exactly that
    o = webregbasing.WebRegBaser(name="obs")
    drive(o.reopen(storageOpener=Backend(st["be"].persisted).open))
    if view(o) != trim(st["disk"]):
        raise Fail(f"a new session would see {view(o)}, expected {trim(st['disk'])}")


def job(res, spec):
    first, depth, temp = spec
    for tail in itertools.product(ACTIONS, repeat=depth - 1):
        be = Backend()
        st = dict(be=be, b=webregbasing.WebRegBaser(name="obs", temp=temp), open=False,
                  mem={}, disk={}, temp=temp)
        hist = []
        try:
            for a in (("open", False), first) + tail + (("aclose", False), ("open", False)):
                hist.append(a)
                res.add("transitions")
                act(st, a)
        except Fail as ex:
            res.violation(f"{temp}:{hist}", f"after {hist}: {ex}", dict(history=hist, temp=temp))
            if res.full:
                return
        res.add("states")
        res.add("traces_validated_against_impl")
    res.sample({"history": hist, "temp": temp})


def main(res):
    d = pick(3, 4)
    explore_jobs(res, job, [(a, d, t) for t in (False, True) for a in ACTIONS])


def check():
    return run("S09", "model_checking", main)
