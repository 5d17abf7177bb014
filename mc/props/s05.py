"""S05: an iteration is over the content as of its first step, whatever is added,
overwritten or removed between its steps.  Same for both backends."""

import itertools

from ..lib import boot, explore_jobs, run, pick
from ..webmodel import IoSet, On, OnIoSet, onraw, MAXON
from ..webcheck import LmdbRig, Rig, norm, opkey

boot()

ON_IT = [("getTopItemIter", dict(top=b"")), ("getTopItemIter", dict(top=b"A")),
         ("getOnTopItemIter", dict(top=b"A")), ("getOnAllItemIter", dict(key=b"A", on=0)),
         ("getOnAllItemIter", dict(key=b"A", on=1)), ("getOnAllItemIter", dict(key=b"", on=0))]
ON_MUT = [("remOn", dict(key=b"A", on=o)) for o in range(4)] + \
         [("remOn", dict(key=b"B", on=0)), ("remOnAll", dict(key=b"A", on=0)),
          ("remOnAll", dict(key=b"A", on=2)), ("remTop", dict(top=b"")),
          ("pinOnVal", dict(key=b"A", on=1, val=b"new")), ("pinOnVal", dict(key=b"A", on=2, val=b"new")),
          ("putOnVal", dict(key=b"A", on=9, val=b"new")), ("putOnVal", dict(key=b"0", on=0, val=b"new")),
          ("appendOnVal", dict(key=b"A", val=b"app"))]

IO_IT = [("getTopItemIter", dict(top=b"A")), ("getIoSetItemIter", dict(key=b"A", ion=0)),
         ("getIoSetItemIter", dict(key=b"A", ion=1)), ("getTopIoSetItemIter", dict(top=b"")),
         ("getTopIoSetItemIter", dict(top=b"A")), ("getIoSetLastItemIterAll", dict(key=b"")),
         ("getIoSetLastItemIterAll", dict(key=b"A")), ("getIoSetLastIterAll", dict(key=b""))]
IO_MUT = [("remIoSetVal", dict(key=b"A", val=v)) for v in (b"x", b"y", b"z")] + \
         [("remIoSet", dict(key=b"A")), ("remIoSet", dict(key=b"B")), ("remIoSet", dict(key=b"C")),
          ("addIoSetVal", dict(key=b"A", val=b"n")), ("addIoSetVal", dict(key=b"AA", val=b"n")),
          ("pinIoSetVals", dict(key=b"A", vals=[b"p"])), ("pinIoSetVals", dict(key=b"B", vals=[b"p", b"q"])),
          ("remTop", dict(top=b""))]

QI_IT = [("getOnIoSetItemIter", dict(key=b"A", on=0, ion=0)), ("getOnTopIoSetItemIter", dict(top=b"A")),
         ("getOnAllIoSetItemIter", dict(key=b"A", on=0)), ("getOnAllIoSetItemIter", dict(key=b"", on=0)),
         ("getOnAllIoSetLastItemIter", dict(key=b"A", on=0)), ("getOnAllIoSetLastItemIter", dict(key=b"", on=0)),
         ("getOnAllIoSetItemBackIter", dict(key=b"A", on=None)), ("getOnAllIoSetItemBackIter", dict(key=b"A", on=1)),
         ("getOnAllIoSetItemBackIter", dict(key=b"", on=None)),
         ("getOnAllIoSetLastItemBackIter", dict(key=b"A", on=None)),
         ("getOnAllIoSetLastItemBackIter", dict(key=b"", on=None))]
QI_MUT = [("remOnIoSetVal", dict(key=b"A", on=0, val=b"x")), ("remOnIoSetVal", dict(key=b"A", on=1, val=b"y")),
          ("remOnIoSetVal", dict(key=b"A", on=0, val=None)), ("remOnIoSetVal", dict(key=b"A", on=2, val=None)),
          ("remOnAllIoSet", dict(key=b"A", on=0)), ("remOnAllIoSet", dict(key=b"A", on=1)),
          ("remOnAllIoSet", dict(key=b"B", on=0)), ("remOnAllIoSet", dict(key=b"", on=0)),
          ("addOnIoSetVal", dict(key=b"A", on=1, val=b"n")), ("appendOnIoSetVals", dict(key=b"A", vals=[b"n", b"m"])),
          ("pinOnIoSetVals", dict(key=b"A", on=0, vals=[b"p"]))]

CONTENT = {
    "on": [On({(b"A", 0): b"0", (b"A", 1): b"1", (b"A", 2): b"2", (b"A", 3): b"3", (b"B", 0): b"b"}),
           On({(b"A", 0): b"0", (b"A", 2): b"2"})],
    "io": [IoSet({b"A": ((0, b"x"), (1, b"y"), (2, b"z")), b"B": ((0, b"x"), (1, b"y")), b"C": ((3, b"c"),)}),
           IoSet({b"A": ((1, b"y"), (5, b"x"))})],
    "qi": [OnIoSet({(b"A", 0): ((0, b"x"), (1, b"y")), (b"A", 1): ((0, b"y"),), (b"A", 2): ((2, b"z"), (3, b"w")),
                    (b"B", 0): ((0, b"b"),)})],
}
SETS = {"on": (ON_IT, ON_MUT), "io": (IO_IT, IO_MUT), "qi": (QI_IT, QI_MUT)}


def walk(res, spec):
    fam, backend, which = spec
    rig = Rig() if backend == "web" else LmdbRig()
    its, muts = SETS[fam]
    content = CONTENT[fam][which]
    base = content.dump()
    depth = pick(2, 3)
    for name, kwa in its:
        rig.load(base)
        want = [tuple(x) if isinstance(x, tuple) else x for x in
                norm(rig.call(name, kwa))[1]]
        n = len(want)
        for at in itertools.combinations(range(n + 1), depth):
            for mm in itertools.product(muts, repeat=depth):
                rig.load(base)
                plan = dict(zip(at, mm))
                it = getattr(rig.dber, name)(rig.db, **kwa)
                model = content.copy()
                seen, i = [], 0
                res.add("transitions", n + depth)
                while True:
                    if i in plan and i > 0:      # between steps
                        m, k = plan[i]
                        rig.call(m, k)
                        getattr(model, m)(**k)
                    elif i in plan:              # before the first step
                        m, k = plan[i]
                        rig.call(m, k)
                        getattr(model, m)(**k)
                        rigwant = None
                    try:
                        item = next(it)
                    except StopIteration:
                        break
                    except Exception as ex:
                        seen.append(f"{type(ex).__name__}: {ex}")
                        break
                    seen.append(tuple(bytes(x) if isinstance(x, memoryview) else x for x in item)
                                if isinstance(item, tuple) else bytes(item))
                    i += 1
                    if i > 3 * n + 8:
                        seen.append("endless")
                        break
                if 0 in plan:
                    pre = content.copy()
                    getattr(pre, plan[0][0])(**plan[0][1])
                    if name == "getTopItemIter":
                        exp = [kv for kv in pre.dump() if kv[0].startswith(kwa["top"])]
                    else:
                        exp = getattr(pre, name)(**kwa)
                else:
                    exp = want
                res.add("states")
                if seen != exp:
                    ops = {i: opkey(*m) for i, m in plan.items()}
                    res.violation(f"{backend}:{opkey(name, kwa)}:{sorted(ops.items())}",
                                  f"iterating {opkey(name, kwa)} over {base} while doing {ops} "
                                  f"(by number of items seen) gave {seen}; the content when the "
                                  f"iteration started was {exp}", dict(content=base, plan=ops))
                    if res.full:
                        return
                # every planned change that happened before the end took effect
                real = sorted((bytes(k), bytes(v)) for k, v in rig.dber.getTopItemIter(rig.db))
                if real != model.dump():
                    res.violation(f"{backend}:effect:{opkey(name, kwa)}:{mm}",
                                  f"after changing the store while iterating it holds {real}, "
                                  f"expected {model.dump()}", dict(content=base))
                    return
                res.add("traces_validated_against_impl")
        res.sample(dict(backend=backend, iterator=opkey(name, kwa), content=base))


def main(res):
    jobs = [(f, b, w) for f in SETS for b in ("web", "lmdb") for w in range(len(CONTENT[f]))]
    explore_jobs(res, walk, jobs)


def check():
    return run("S05", "model_checking", main)
