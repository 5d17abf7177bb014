"""The bounded spaces of store contents and the operation alphabets."""

import itertools

from .webmodel import MAXON, SEP, IoSet, On, OnIoSet, Plain


def calls(name, **axes):
    """every call name(**kwargs) over the product of the axes"""
    ks = list(axes)
    for combo in itertools.product(*axes.values()):
        yield (name, dict(zip(ks, combo)))


# ---------------------------------------------------------------- plain keys
PK = [b"A", b"A.", b"A-", b"AB", b"B", b"\xff", b"a.1", b"a.1.x"]


def plain_states(limit):
    for n in range(limit + 1):
        for ks in itertools.combinations(PK, n):
            yield Plain({k: b"v%d" % i for i, k in enumerate(ks)})
    yield Plain({k: b"v%d" % i for i, k in enumerate(PK)})


def plain_ops():
    mut = [*calls("putVal", key=PK + [b""], val=[b"n", b""]),
           *calls("setVal", key=PK + [b""], val=[b"n", b""]),
           *calls("remVal", key=PK + [b""]),
           *calls("remTop", top=[b"", b"A", b"A.", b"AB", b"B", b"a.", b"Z", b"\xff"])]
    rd = [*calls("getVal", key=PK + [b""]),
          *calls("getTopItemIter", top=[b"", b"A", b"A.", b"AB", b"B", b"a.", b"a.1", b"Z", b"\xff"]),
          *calls("cntTop", top=[b"", b"A", b"A.", b"AB", b"B", b"a.", b"a.1", b"Z", b"\xff"]),
          ("cntAll", {})]
    return mut, rd


# ------------------------------------------------------------ ordinal values
OK = [b"A", b"A-", b"AB", b"B", b"A.B"]
OO = [0, 1, 2, 15, 16, MAXON]


def clash(slots, keys):
    """ordinals past 2**126 of a key sort after the keys nested under it; no log
    gets there, so that mix is outside the bound"""
    return (keys[0], MAXON) in slots and any(k.startswith(keys[0] + SEP[0]) for k, _ in slots)


def on_states(limit, keys=OK, ons=OO):
    slots = list(itertools.product(keys, ons))
    for n in range(limit + 1):
        for ss in itertools.combinations(slots, n):
            if not clash(ss, keys):
                yield On({s: b"v%d" % i for i, s in enumerate(ss)})
    slots = [s for s in slots if s != (keys[0], MAXON)]
    yield On({s: b"v%d" % i for i, s in enumerate(slots)})


def on_ops(keys=OK, ons=OO):
    more = sorted(set(ons) | {3, 17})
    tops = [b"", b"A", b"A.", b"AB", b"A.0000", b"Z"]
    mut = [*calls("putOnVal", key=keys + [b""], on=more, val=[b"n"]),
           *calls("putOnVal", key=keys[:1], on=[0], val=[None, b""]),
           *calls("pinOnVal", key=keys + [b""], on=more, val=[b"n"]),
           *calls("pinOnVal", key=keys[:1], on=[0], val=[None, b""]),
           *calls("appendOnVal", key=keys + [b""], val=[b"n"]),
           *calls("appendOnVal", key=keys[:1], val=[None, b""]),
           *calls("remOn", key=keys + [b""], on=more),
           *calls("remOnAll", key=keys + [b""], on=more),
           *calls("remTop", top=tops)]
    rd = [*calls("getOnVal", key=keys + [b""], on=more),
          *calls("getOnItem", key=keys + [b""], on=more),
          *calls("cntOnAll", key=keys + [b""], on=more),
          *calls("getOnAllItemIter", key=keys + [b""], on=more),
          *calls("getOnTopItemIter", top=tops),
          *calls("cntTop", top=tops), ("cntAll", {})]
    return mut, rd


# ------------------------------------------------------ insertion ordered sets
SK = [b"A", b"A-", b"AB", b"A.B"]
VALS = [b"x", b"xy", b"z"]


def one_sets(ions=(0, 1, 2, 16), maxlen=3):
    for n in range(maxlen + 1):
        for ii in itertools.combinations(ions, n):
            for vv in itertools.permutations(VALS, n):
                yield tuple(zip(ii, vv))


SMALL = [(), ((0, b"x"),), ((1, b"xy"), (16, b"z"))]


def ioset_states(keys=SK):
    for prim in keys:
        others = [k for k in keys if k != prim]
        for full in one_sets():
            for rest in itertools.product(SMALL, repeat=len(others)):
                yield IoSet({prim: full, **dict(zip(others, rest))})


def ioset_ops(keys=SK):
    lists = [[b"x"], [b"n"], [b"xy", b"x"], [b"n", b"n", b"x", b"m"], [b"z", b"n", b"xy"], []]
    tops = [b"", b"A", b"A.", b"AB", b"B", b"Z"]
    ks = keys + [b""]
    mut = [*calls("putIoSetVals", key=ks, vals=lists),
           *calls("pinIoSetVals", key=ks, vals=lists),
           *calls("addIoSetVal", key=ks, val=[b"x", b"z", b"n", b"", None]),
           *calls("remIoSet", key=ks),
           *calls("remIoSetVal", key=ks, val=[b"x", b"xy", b"z", b"n", None]),
           *calls("remTop", top=tops)]
    rd = [*calls("getIoSetItemIter", key=ks, ion=[0, 1, 3]),
          *calls("cntIoSet", key=ks, ion=[0, 1, 3]),
          *calls("getIoSetLastItem", key=ks),
          *calls("getTopIoSetItemIter", top=tops),
          *calls("getIoSetLastItemIterAll", key=ks + [b"Z"]),
          *calls("getIoSetLastIterAll", key=ks),
          *calls("cntTop", top=tops), ("cntAll", {})]
    return mut, rd


# --------------------------------------------- ordinal insertion ordered sets
QK = [b"A", b"A-", b"AB", b"A.B"]
QO = [0, 1, 16]
QS = [((0, b"x"),), ((0, b"x"), (1, b"xy")), ((1, b"xy"), (3, b"x"), (16, b"z"))]


def onioset_states(limit, keys=QK, ons=QO):
    slots = list(itertools.product(keys, ons)) + [(keys[0], MAXON)]
    for n in range(limit + 1):
        for ss in itertools.combinations(slots, n):
            if clash(ss, keys):
                continue
            for cc in itertools.product(QS, repeat=n):
                yield OnIoSet(dict(zip(ss, cc)))


def onioset_ops(keys=QK, ons=QO):
    lists = [[b"x"], [b"n"], [b"xy", b"n", b"x"], [b"m", b"m", b"n"], []]
    tops = [b"", b"A", b"A.", b"AB", b"A.0000", b"Z"]
    ks = keys + [b""]
    more = ons + [2]
    mut = [*calls("putOnIoSetVals", key=ks, on=more, vals=lists),
           *calls("pinOnIoSetVals", key=ks, on=more, vals=lists),
           *calls("appendOnIoSetVals", key=ks, vals=lists + [b"bare"]),
           *calls("addOnIoSetVal", key=ks, on=more, val=[b"x", b"n", None]),
           *calls("remOnIoSetVal", key=ks, on=more, val=[b"x", b"xy", b"n", None]),
           *calls("remOnAllIoSet", key=ks, on=more)]
    back = more + [None, MAXON]
    rd = [*calls("getOnIoSetItemIter", key=ks, on=more, ion=[0, 1, 2]),
          *calls("cntOnIoSet", key=ks, on=more, ion=[0, 1, 2]),
          *calls("getOnIoSetLastItem", key=ks, on=more),
          *calls("cntOnAllIoSet", key=ks, on=more),
          *calls("getOnTopIoSetItemIter", top=tops),
          *calls("getOnAllIoSetItemIter", key=ks, on=more),
          *calls("getOnAllIoSetLastItemIter", key=ks, on=more),
          *calls("getOnAllIoSetItemBackIter", key=ks, on=back),
          *calls("getOnAllIoSetLastItemBackIter", key=ks, on=back),
          ("cntAll", {})]
    return mut, rd


# ------------------------------------------------- a separator of one's own
def resep(kwa, sep):
    """the same call with keys and tops nested by another separator"""
    return {k: v.replace(b".", sep) if k in ("key", "top") else v for k, v in kwa.items()}


def with_sep(dber, ops, sep):
    """ops as (name, what the model is told, what the store is told)"""
    import inspect

    def one(name, kwa):
        kwa = resep(kwa, sep)
        takes = "sep" in inspect.signature(inspect.unwrap(getattr(dber, name))).parameters
        return name, kwa, dict(kwa, sep=sep) if takes else kwa
    return [[one(*op) for op in ops[0]], [one(*op) for op in ops[1]]]


def sep_keys(keys, sep):
    return [k.replace(b".", sep) for k in keys]
