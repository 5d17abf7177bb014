"""Signing thresholds mean what they say, in every form.  All threshold expressions over a bounded
grammar, all sets of signer positions, all representations."""

import itertools
import json
from fractions import Fraction

from .. import kelmodel as km
from ..kel import World, coring                                   # noqa: F401  (boots the package)
from ..lib import Violation, explore_jobs, pick, run

PLAIN = ["0", "1/3", "1/2", "2/3", "1"]
NEST = [{"1/2": ["1/2", "1/2"]}, {"1": ["1", "1"]}, {"1/3": ["1/2", "1/2", "1/2"]}, {"2/3": ["1", "0"]}]


def valid(clauses):
    for c in clauses:
        top = [Fraction(list(w)[0]) if isinstance(w, dict) else Fraction(w) for w in c]
        if any(not 0 <= f <= 1 for f in top) or sum(top) < 1:
            return False
        for w in c:
            if isinstance(w, dict):
                (_, inner), = w.items()
                if any(not 0 <= Fraction(x) <= 1 for x in inner) or sum(map(Fraction, inner)) < 1:
                    return False
    return True


def indexsets(n, wide):
    """every set of positions, some with repeats or positions beyond the list"""
    for r in range(n + 1):
        for s in itertools.combinations(range(n), r):
            yield list(s)
    if wide:
        for r in range(n):
            for s in itertools.combinations(range(n), r):
                yield list(s) + list(s)
                yield list(reversed(s))
                yield list(s) + [n]
                yield [n + 7] + list(s) + list(s[:1])


def same(a, b):
    return [[(Fraction(x[0]), [Fraction(y) for y in x[1]]) if isinstance(x, tuple) else Fraction(x) for x in c]
            for c in a] == [[(Fraction(x[0]), [Fraction(y) for y in x[1]]) if isinstance(x, tuple) else Fraction(x)
                             for x in c] for c in b]


def norm(sith):
    """clauses form"""
    c = sith if isinstance(sith[0], list) else [sith]
    return [[{str(Fraction(list(w)[0])): [str(Fraction(x)) for x in list(w.values())[0]]} if isinstance(w, dict)
             else str(Fraction(w)) for w in cl] for cl in c]


def weighted(res, sith, wide):
    clauses = sith if isinstance(sith[0], list) else [sith]
    key = json.dumps(sith)
    res.add("expressions")
    try:
        t = coring.Tholder(sith=sith)
    except ValueError:
        t = None
    if (t is not None) != valid(clauses):
        raise Violation(key, f"threshold {key} is {'refused' if t is None else 'taken'} but it is "
                        f"{'valid' if t is None else 'invalid'}")
    if t is None:
        return
    n = km.size(sith)
    forms = dict(sith=t, limen=coring.Tholder(limen=t.limen), json=coring.Tholder(sith=json.dumps(sith)),
                 resith=coring.Tholder(sith=t.sith), thold=coring.Tholder(thold=t.thold),
                 rejson=coring.Tholder(sith=t.json))
    for f, u in forms.items():
        if u.size != n or not u.weighted or u.num is not None:
            raise Violation(key, f"threshold {key} from its {f}: size {u.size}, must be {n}")
        if norm(u.sith) != norm(sith) or u.limen != t.limen or not same(u.thold, t.thold):
            raise Violation(key, f"threshold {key} from its {f} reads {u.sith}, {u.limen}")
    for ix in indexsets(n, wide):
        want = km.satisfied(sith, [i for i in ix if i < n])
        res.add("states")
        for f, u in (forms.items() if wide else list(forms.items())[:2]):
            res.add("transitions")
            got = u.satisfy(ix)
            if bool(got) != want:
                raise Violation(f"{key}:{ix}", f"threshold {key} (from its {f}) with signers {ix}: satisfy says {got}, "
                                f"the weights say {want}")


def number(res, n):
    for sith in (n, "%x" % n):
        t = coring.Tholder(sith=sith)
        forms = dict(sith=t, limen=coring.Tholder(limen=t.limen), resith=coring.Tholder(sith=t.sith),
                     thold=coring.Tholder(thold=n))
        for f, u in forms.items():
            if u.num != n or u.size != n or u.weighted or u.sith != "%x" % n or u.limen != t.limen:
                raise Violation(str(n), f"threshold {n} from its {f} reads {u.sith} size {u.size}")
        if n > 64:
            continue
        for k in range(0, min(n + 3, 70)):
            for ix in (list(range(k)), list(range(k)) * 2, [5] * k, list(reversed(range(3, 3 + k)))):
                res.add("states")
                res.add("transitions")
                want = n > 0 and len(set(ix)) >= n
                if bool(t.satisfy(ix)) != want:
                    raise Violation(f"{n}:{ix}", f"threshold {n} with signers {ix}: satisfy says {not want}")


BAD = ["", "-1", "g", "1/2", [], [[]], ["1/2"], ["1/2", "1/3"], ["3/2"], ["-1/2", "1", "1/2"], ["1", 1],
       [["1"], []], [["1"], "1"], ["1/0"], ["0.5", "0.5"], ["inf"], ["nan"], ["x"], [["1/2", "1/2"], ["1/2"]],
       [{"1/2": ["1/2", "1/2"]}], ["1", {"1": ["1/2"]}], ["1", {"1": []}], ["1", {}], ["1", {"1": ["1"], "0": ["1"]}],
       -1, None, ["1", ["1"]], ["1", None], ["1", {"3/2": ["1"]}], ["1", {"1": ["3/2"]}], '["1/2"]', '[["1"],[]]', '[]']



def refused(res, bad):
    res.add("expressions")
    res.add("states")
    res.add("transitions")
    try:
        t = coring.Tholder(sith=bad)
    except Exception:
        return
    raise Violation(repr(bad), f"threshold {bad!r} is taken as {t.sith}")


def job(res, spec):
    kind, arg = spec
    if kind == "clauses":
        for c in arg:
            weighted(res, list(c), len(c) <= 3)
    elif kind == "pairs":
        first, seconds = arg
        for s in seconds:
            weighted(res, [list(first), list(s)], False)
            if len(first) + len(s) <= 3:
                weighted(res, [list(first), list(s)], True)
    elif kind == "triples":
        for c in arg:
            weighted(res, [list(x) for x in c], False)
    elif kind == "numbers":
        for n in arg:
            number(res, n)
    else:
        for b in BAD:
            refused(res, b)


def main(res):
    el = PLAIN + NEST
    singles = [c for n in range(1, pick(4, 5)) for c in itertools.product(el, repeat=n)]
    singles += list(itertools.product(PLAIN, repeat=pick(4, 6)))
    short = [c for n in (1, 2) for c in itertools.product(el, repeat=n)]
    jobs = [("clauses", singles[i::16]) for i in range(16)]
    jobs += [("pairs", (a, short)) for a in short]
    if pick(0, 1):
        tiny = [c for n in (1, 2) for c in itertools.product(["1/2", "1", NEST[0], NEST[2]], repeat=n)]
        trip = list(itertools.product(tiny, repeat=3))
        jobs += [("triples", trip[i::16]) for i in range(16)]
    nums = list(range(0, 70)) + [255, 256, 2**16 - 1, 2**16, 2**32 - 1, 2**32, 2**64, 2**96]
    jobs += [("numbers", nums), ("bad", None)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("K07", "model_checking", main)
