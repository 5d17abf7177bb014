"""Reference models and bounded spaces for the duplicate-valued store families of
the directory-backed store (plain duplicates, insertion-ordered duplicates, and
the latter at ordinal keys)."""

import itertools

from .webmodel import onraw
from .webspace import calls


class Dup:
    """key -> set of values, in value order"""

    def __init__(self, ents=()):
        self.e = {k: sorted(set(v)) for k, v in dict(ents).items() if v}

    def copy(self):
        return Dup(self.e)

    def dump(self):
        return sorted((k, v) for k, l in self.e.items() for v in l)

    def putVals(self, key, vals):
        if not key:
            return False
        for v in vals:
            self.addVal(key, v)
        return True

    def addVal(self, key, val):
        if not key or val in self.e.get(key, []):
            return False
        self.e[key] = sorted(self.e.get(key, []) + [val])
        return True

    def delVals(self, key, val):
        if not key or key not in self.e:
            return False
        if not val:
            del self.e[key]
            return True
        if val not in self.e[key]:
            return False
        self.e[key].remove(val)
        if not self.e[key]:
            del self.e[key]
        return True

    def remTop(self, top):
        gone = [k for k in self.e if k.startswith(top)]
        for k in gone:
            del self.e[k]
        return bool(gone)

    def getVals(self, key):
        return list(self.e.get(key, []))

    def getValsIter(self, key):
        return list(self.e.get(key, []))

    def getValLast(self, key):
        return self.e[key][-1] if key in self.e else None

    def cntVals(self, key):
        return len(self.e.get(key, []))

    def getTopItemIter(self, top):
        return [(k, v) for k, v in self.dump() if k.startswith(top)]

    def cntTop(self, top):
        return len(self.getTopItemIter(top))

    def cntAll(self):
        return len(self.dump())


class IoDup:
    """key -> [(ion, val)] in insertion order without repeats"""

    def __init__(self, ents=()):
        self.e = {k: list(v) for k, v in dict(ents).items() if v}

    def copy(self):
        return type(self)(self.e)

    def dump(self):
        return sorted((k, b"%032x." % i + v) for k, l in self.e.items() for i, v in l)

    def putIoDupVals(self, key, vals):
        if not key or not vals or key[:1] == b".":
            return False
        done = False
        for v in vals:
            l = self.e.get(key, [])
            if v not in [w for _, w in l]:
                self.e[key] = l + [(l[-1][0] + 1 if l else 0, v)]
                done = True
        return done

    def addIoDupVal(self, key, val):
        return self.putIoDupVals(key, [val if val is not None else b""])

    def delIoDupVals(self, key):
        return bool(key) and self.e.pop(key, None) is not None

    def delIoDupVal(self, key, val):
        l = self.e.get(key, [])
        keep = [(i, v) for i, v in l if v != val]
        if len(l) == len(keep):
            return False
        self.e[key] = keep
        if not keep:
            del self.e[key]
        return True

    def remTop(self, top):
        gone = [k for k in self.e if k.startswith(top)]
        for k in gone:
            del self.e[k]
        return bool(gone)

    def getIoDupVals(self, key):
        return [v for _, v in self.e.get(key, [])]

    def getIoDupItemIter(self, key, ion):
        return [(key, v) for i, v in self.e.get(key, []) if i >= ion]

    def getIoDupValLast(self, key):
        return self.e[key][-1][1] if key in self.e else None

    def cntIoDups(self, key):
        return len(self.e.get(key, []))

    def getTopIoDupItemIter(self, top):
        return [(k, v[33:]) for k, v in self.dump() if k.startswith(top)]

    def cntTop(self, top):
        return len(self.getTopIoDupItemIter(top))

    def cntAll(self):
        return len(self.dump())


class OnIoDup:
    """(key, on) -> [(ion, val)]"""

    def __init__(self, ents=()):
        self.e = {k: list(v) for k, v in dict(ents).items() if v}

    def copy(self):
        return OnIoDup(self.e)

    def dump(self):
        return sorted((onraw(*k), b"%032x." % i + v) for k, l in self.e.items() for i, v in l)

    def _flat(self):
        return sorted((onraw(*k), i, k[0], k[1], v) for k, l in self.e.items() for i, v in l)

    def _io(self):
        m = IoDup()
        m.e = self.e
        return m

    def putOnIoDupVals(self, key, on, vals):
        return self._put(key, on, vals)

    def _put(self, key, on, vals):
        done = False
        for v in vals:
            l = self.e.get((key, on), [])
            if v not in [w for _, w in l]:
                self.e[(key, on)] = l + [(l[-1][0] + 1 if l else 0, v)]
                done = True
        return done

    def addOnIoDupVal(self, key, on, val):
        return self._put(key, on, [val])

    def appendOnIoDupVal(self, key, val):
        if not key:
            raise ValueError
        ons = [o for k, o in self.e if k == key]
        on = max(ons) + 1 if ons else 0
        self.e[(key, on)] = [(0, val)]
        return on

    def delOnIoDups(self, key, on):
        return self.e.pop((key, on), None) is not None

    def delOnIoDupVal(self, key, on, val):
        l = self.e.get((key, on), [])
        keep = [(i, v) for i, v in l if v != val]
        if len(l) == len(keep):
            return False
        self.e[(key, on)] = keep
        if not keep:
            del self.e[(key, on)]
        return True

    def getOnIoDupVals(self, key, on):
        return [v for _, v in self.e.get((key, on), [])]

    def getOnIoDupItemIter(self, key, on, ion):
        return [(key, on, v) for i, v in self.e.get((key, on), []) if i >= ion]

    def getOnIoDupLast(self, key, on):
        l = self.e.get((key, on))
        return l[-1][1] if l else None

    def cntOnIoDups(self, key, on):
        return len(self.e.get((key, on), []))

    def getOnIoDupLastItemIter(self, key, on):
        out = []
        for _, i, k, o, v in self._flat():
            if key and (k != key or o < on):
                continue
            if out and out[-1][:2] == (k, o):
                out[-1] = (k, o, v)
            else:
                out.append((k, o, v))
        return out

    def getOnIoDupLastValIter(self, key, on):
        return [v for _, _, v in self.getOnIoDupLastItemIter(key, on)]

    def getOnIoDupItemBackIter(self, key, on):
        return [(k, o, v) for _, i, k, o, v in reversed(self._flat())
                if not key or (k == key and o <= on)]

    def getOnIoDupValBackIter(self, key, on):
        return [v for _, _, v in self.getOnIoDupItemBackIter(key, on)]

    def getOnTopIoDupItemIter(self, top):
        return [(k, o, v) for r, i, k, o, v in self._flat() if r.startswith(top)]

    def getOnIoDupItemIterAll(self, key, on):
        return [(k, o, v) for _, i, k, o, v in self._flat()
                if not key or (k == key and o >= on)]

    def getOnIoDupIterAll(self, key, on):
        return [v for _, _, v in self.getOnIoDupItemIterAll(key, on)]

    def cntAll(self):
        return len(self.dump())


KEYS = [b"A", b"A-", b"AB", b"A.B"]
TOPS = [b"", b"A", b"A.", b"AB", b"Z"]


def dup_states():
    sets = [(), (b"x",), (b"x", b"y"), (b"a", b"m", b"z")]
    for combo in itertools.product(sets, repeat=len(KEYS)):
        yield Dup(dict(zip(KEYS, combo)))


def dup_ops():
    lists = [[b"x"], [b"n"], [b"y", b"x"], [b"n", b"n", b"b"]]
    mut = [*calls("putVals", key=KEYS, vals=lists), *calls("addVal", key=KEYS, val=[b"x", b"n", b"a"]),
           *calls("delVals", key=KEYS, val=[b"", b"x", b"z", b"n"]), *calls("remTop", top=TOPS)]
    rd = [*calls("getVals", key=KEYS), *calls("getValsIter", key=KEYS), *calls("getValLast", key=KEYS),
          *calls("cntVals", key=KEYS), *calls("getTopItemIter", top=TOPS), *calls("cntTop", top=TOPS),
          ("cntAll", {})]
    return mut, rd


IS = [(), ((0, b"x"),), ((0, b"y"), (1, b"x")), ((2, b"z"), (16, b"a"), (17, b"x"))]


def iodup_states():
    for combo in itertools.product(IS, repeat=len(KEYS)):
        yield IoDup(dict(zip(KEYS, combo)))


def iodup_ops():
    lists = [[b"x"], [b"n"], [b"y", b"x"], [b"n", b"n", b"b"], []]
    ks = KEYS + [b""]
    mut = [*calls("putIoDupVals", key=ks, vals=lists),
           *calls("addIoDupVal", key=ks, val=[b"x", b"n", b"a"]),
           *calls("delIoDupVals", key=ks), *calls("delIoDupVal", key=KEYS, val=[b"x", b"z", b"n"]),
           *calls("remTop", top=TOPS)]
    rd = [*calls("getIoDupVals", key=ks), *calls("getIoDupItemIter", key=ks, ion=[0, 1, 3]),
          *calls("getIoDupValLast", key=ks), *calls("cntIoDups", key=ks),
          *calls("getTopIoDupItemIter", top=TOPS), *calls("cntTop", top=TOPS), ("cntAll", {})]
    return mut, rd


ONS = [0, 1, 2, 16]


def oniodup_states(limit, keys=KEYS):
    slots = list(itertools.product(keys, ONS))
    for n in range(limit + 1):
        for ss in itertools.combinations(slots, n):
            for cc in itertools.product(IS[1:], repeat=n):
                yield OnIoDup(dict(zip(ss, cc)))


def oniodup_ops():
    lists = [[b"x"], [b"n"], [b"y", b"x"], [b"n", b"n", b"b"], []]
    ons = ONS + [3]
    mut = [*calls("putOnIoDupVals", key=KEYS, on=ons, vals=lists),
           *calls("addOnIoDupVal", key=KEYS, on=ons, val=[b"x", b"n"]),
           *calls("appendOnIoDupVal", key=KEYS, val=[b"x", b"n"]),
           *calls("delOnIoDups", key=KEYS, on=ons),
           *calls("delOnIoDupVal", key=KEYS, on=ons, val=[b"x", b"z", b"n"])]
    ks = KEYS + [b""]
    rd = [*calls("getOnIoDupVals", key=KEYS, on=ons),
          *calls("getOnIoDupItemIter", key=KEYS, on=ons, ion=[0, 1, 3]),
          *calls("getOnIoDupLast", key=KEYS, on=ons), *calls("cntOnIoDups", key=KEYS, on=ons),
          *calls("getOnIoDupLastItemIter", key=ks, on=ons), *calls("getOnIoDupLastValIter", key=ks, on=ons),
          *calls("getOnIoDupItemBackIter", key=ks, on=ons), *calls("getOnIoDupValBackIter", key=ks, on=ons),
          *calls("getOnIoDupItemIterAll", key=ks, on=ons), *calls("getOnIoDupIterAll", key=ks, on=ons),
          *calls("getOnTopIoDupItemIter", top=TOPS), ("cntAll", {})]
    return mut, rd
