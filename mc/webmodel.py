"""Reference models of the ordered stores, written from the documented contract
of the store operations and deliberately boring: a dict of entries, scanned
linearly.  They know nothing about sorted containers or cursors."""

MAXON = int("f" * 32, 16)
SEP = [b"."]        # what joins a key and its ordinal; other separators can be asked for


def onraw(key, on):
    return key + SEP[0] + b"%032x" % on


class On:
    """ordinal-keyed values: {(key, on): val}"""

    def __init__(self, ents=()):
        self.e = dict(ents)

    def copy(self):
        return On(self.e)

    def dump(self):
        return sorted((onraw(k, o), v) for (k, o), v in self.e.items())

    def _of(self, key, on=0):
        return sorted((o, v) for (k, o), v in self.e.items() if k == key and o >= on)

    # mutators -------------------------------------------------------------
    def putOnVal(self, key, on, val):
        if val is None or (key, on) in self.e:
            return False
        self.e[(key, on)] = val
        return True

    def pinOnVal(self, key, on, val):
        if val is None or not key:
            return False
        self.e[(key, on)] = val
        return True

    def appendOnVal(self, key, val):
        if not key or val is None:
            raise ValueError
        ons = [o for o, _ in self._of(key)]
        if not ons:
            on = 0
        elif ons[-1] >= MAXON:
            raise ValueError
        else:
            on = ons[-1] + 1
        self.e[(key, on)] = val
        return on

    def remOn(self, key, on):
        if not key:
            return False
        return self.e.pop((key, on), None) is not None

    def remOnAll(self, key, on):
        doomed = [ko for ko in self.e if not key or (ko[0] == key and ko[1] >= on)]
        for ko in doomed:
            del self.e[ko]
        return bool(doomed)

    def remTop(self, top):
        doomed = [ko for ko in self.e if onraw(*ko).startswith(top)]
        for ko in doomed:
            del self.e[ko]
        return bool(doomed)

    # readers --------------------------------------------------------------
    def getOnVal(self, key, on):
        return self.e.get((key, on)) if key else None

    def getOnItem(self, key, on):
        if not key or (key, on) not in self.e:
            return None
        return (key, on, self.e[(key, on)])

    def cntOnAll(self, key, on):
        return len(self.e) if not key else len(self._of(key, on))

    def getOnAllItemIter(self, key, on):
        if not key:
            return [(k, o, v) for _, k, o, v in
                    sorted((onraw(k, o), k, o, v) for (k, o), v in self.e.items())]
        return [(key, o, v) for o, v in self._of(key, on)]

    def getOnTopItemIter(self, top):
        return [(k, o, v) for r, k, o, v in
                sorted((onraw(k, o), k, o, v) for (k, o), v in self.e.items())
                if r.startswith(top)]

    def cntTop(self, top):
        return len(self.getOnTopItemIter(top))

    def cntAll(self):
        return len(self.e)


class IoSet:
    """insertion-ordered sets: {key: [(ion, val), ...]} in increasing ion"""

    def __init__(self, sets=()):
        self.s = {k: list(v) for k, v in dict(sets).items() if v}

    def copy(self):
        return type(self)(self.s)

    def raw(self, key, ion):
        return onraw(key, ion)

    def dump(self):
        return sorted((self.raw(k, i), v) for k, l in self.s.items() for i, v in l)

    def _next(self, key):
        l = self.s.get(key)
        return l[-1][0] + 1 if l else 0

    def putIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        changed = False
        for v in vals:
            if v not in [w for _, w in self.s.get(key, [])]:
                i = self._next(key)
                self.s.setdefault(key, []).append((i, v))
                changed = True
        return changed

    def pinIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        uniq = []
        for v in vals:
            if v not in uniq:
                uniq.append(v)
        self.s[key] = list(enumerate(uniq))
        return True

    def addIoSetVal(self, key, val):
        if not key or val is None:
            return False
        return self.putIoSetVals(key, [val])

    def remIoSet(self, key):
        return bool(key) and self.s.pop(key, None) is not None

    def remIoSetVal(self, key, val):
        if val is None:
            return self.remIoSet(key)
        if not key:
            return False
        l = self.s.get(key, [])
        keep = [(i, v) for i, v in l if v != val]
        if len(keep) == len(l):
            return False
        if keep:
            self.s[key] = keep
        else:
            del self.s[key]
        return True

    def remTop(self, top):
        n = 0
        for k in list(self.s):
            keep = [(i, v) for i, v in self.s[k] if not self.raw(k, i).startswith(top)]
            n += len(self.s[k]) - len(keep)
            if keep:
                self.s[k] = keep
            else:
                del self.s[k]
        return n > 0

    # readers
    def getIoSetItemIter(self, key, ion):
        if not key:
            return []
        return [(key, v) for i, v in self.s.get(key, []) if i >= ion]

    def getIoSetLastItem(self, key):
        if not key or not self.s.get(key):
            return ()
        return (key, self.s[key][-1][1])

    def cntIoSet(self, key, ion):
        return len(self.getIoSetItemIter(key, ion)) if key else 0

    def _flat(self):
        return sorted((self.raw(k, i), k, v) for k, l in self.s.items() for i, v in l)

    def getTopIoSetItemIter(self, top):
        return [(k, v) for r, k, v in self._flat() if r.startswith(top)]

    def getIoSetLastItemIterAll(self, key):
        start = self.raw(key, 0) if key else b""
        out = []
        for r, k, v in self._flat():
            if r < start:
                continue
            if out and out[-1][0] == k:
                out[-1] = (k, v)
            else:
                out.append((k, v))
        return out

    def getIoSetLastIterAll(self, key):
        return [v for _, v in self.getIoSetLastItemIterAll(key)]

    def cntAll(self):
        return sum(map(len, self.s.values()))

    def cntTop(self, top):
        return len(self.getTopIoSetItemIter(top))


class OnIoSet:
    """ordinal-keyed insertion-ordered sets {(key, on): [(ion, val), ...]}"""

    def __init__(self, sets=()):
        self.s = {k: list(v) for k, v in dict(sets).items() if v}

    def copy(self):
        return OnIoSet(self.s)

    @classmethod
    def of(cls, dump):
        m = cls()
        for raw, val in dump:
            onkey, _, ion = raw.rpartition(SEP[0])
            key, _, on = onkey.rpartition(SEP[0])
            m.s.setdefault((key, int(on, 16)), []).append((int(ion, 16), val))
        return m

    def raw(self, ko, ion):
        return onraw(onraw(*ko), ion)

    def dump(self):
        return sorted((self.raw(k, i), v) for k, l in self.s.items() for i, v in l)

    def _flat(self):
        """(raw, key, on, val) in stored order"""
        return sorted((self.raw(k, i), k[0], k[1], v)
                      for k, l in self.s.items() for i, v in l)

    def _asset(self):
        m = IoSet()
        m.s = self.s
        m.raw = self.raw
        return m

    def putOnIoSetVals(self, key, on, vals):
        return bool(key) and self._asset().putIoSetVals((key, on), vals)

    def pinOnIoSetVals(self, key, on, vals):
        return bool(key) and self._asset().pinIoSetVals((key, on), vals)

    def addOnIoSetVal(self, key, on, val):
        return bool(key) and self._asset().addIoSetVal((key, on), val)

    def remOnIoSetVal(self, key, on, val):
        return bool(key) and self._asset().remIoSetVal((key, on), val)

    def appendOnIoSetVals(self, key, vals):
        if not key or not vals or isinstance(vals, (str, bytes)):
            raise ValueError
        ons = sorted(o for k, o in self.s if k == key)
        if ons and ons[-1] >= MAXON:
            raise ValueError
        on = ons[-1] + 1 if ons else 0
        self._asset().pinIoSetVals((key, on), vals)
        return on

    def remOnAllIoSet(self, key, on):
        doomed = [ko for ko in self.s if not key or (ko[0] == key and ko[1] >= on)]
        for ko in doomed:
            del self.s[ko]
        return bool(doomed)

    # readers
    def getOnIoSetItemIter(self, key, on, ion):
        if not key:
            return []
        return [(key, on, v) for i, v in self.s.get((key, on), []) if i >= ion]

    def getOnIoSetLastItem(self, key, on):
        if not key or not self.s.get((key, on)):
            return ()
        return (key, on, self.s[(key, on)][-1][1])

    def cntOnIoSet(self, key, on, ion):
        return len(self.getOnIoSetItemIter(key, on, ion))

    def cntOnAllIoSet(self, key, on):
        return len([1 for (_, k, o, _) in self._flat() if not key or (k == key and o >= on)])

    def getOnTopIoSetItemIter(self, top):
        return [(k, o, v) for r, k, o, v in self._flat() if r.startswith(top)]

    def getOnAllIoSetItemIter(self, key, on):
        return [(k, o, v) for r, k, o, v in self._flat() if not key or (k == key and o >= on)]

    def _lasts(self, seq):
        """last-inserted item of every run of equal (key, on), seq in stored order"""
        out = []
        for k, o, v in seq:
            if out and out[-1][:2] == (k, o):
                out[-1] = (k, o, v)
            else:
                out.append((k, o, v))
        return out

    def getOnAllIoSetLastItemIter(self, key, on):
        return self._lasts(self.getOnAllIoSetItemIter(key, on))

    def getOnAllIoSetItemBackIter(self, key, on):
        return [(k, o, v) for r, k, o, v in reversed(self._flat())
                if not key or (k == key and (on is None or o <= on))]

    def getOnAllIoSetLastItemBackIter(self, key, on):
        return list(reversed(self._lasts(reversed(self.getOnAllIoSetItemBackIter(key, on)))))

    def cntAll(self):
        return sum(map(len, self.s.values()))


class Plain:
    """key -> value"""

    def __init__(self, ents=()):
        self.e = dict(ents)

    def copy(self):
        return Plain(self.e)

    def dump(self):
        return sorted(self.e.items())

    def putVal(self, key, val):
        if not key:
            raise KeyError
        if key in self.e:
            return False
        self.e[key] = val
        return True

    def setVal(self, key, val):
        if not key:
            raise KeyError
        self.e[key] = val
        return True

    def getVal(self, key):
        if not key:
            raise KeyError
        return self.e.get(key)

    def remVal(self, key):
        return bool(key) and self.e.pop(key, None) is not None

    def remTop(self, top):
        doomed = [k for k in self.e if k.startswith(top)]
        for k in doomed:
            del self.e[k]
        return bool(doomed)

    def getTopItemIter(self, top):
        return [(k, v) for k, v in sorted(self.e.items()) if k.startswith(top)]

    def cntTop(self, top):
        return len(self.getTopItemIter(top))

    def cntAll(self):
        return len(self.e)
