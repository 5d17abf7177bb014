"""Common machinery for every check: counters, violations, known findings,
evidence, parallel exploration, and a small explicit-state search."""

import collections
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KERI_REPO", "/repo")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
EAGER = os.environ.get("MC_EAGER")       # development only: a check id, to stop at its first alarm
CORES = max(1, min(8, os.cpu_count() or 1))


def boot():
    """make the real keri package importable on this interpreter"""
    p = os.path.join(ROOT, "shim")
    if p not in sys.path:
        sys.path.insert(0, p)
    import kshim
    kshim.install()
    import logging
    logging.disable(logging.CRITICAL)
    return kshim


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def jsonable(x):
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x).decode("utf-8", "backslashreplace")
    if isinstance(x, dict):
        return {str(jsonable(k)): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Violation(Exception):
    """raised by an oracle inside an exploration"""

    def __init__(self, key, what, replay=None):
        super().__init__(f"{key}: {what}")
        self.key, self.what, self.replay = key, what, replay


class Result:
    """what one (possibly parallel) piece of exploration covered"""

    MAXV = 25

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = {}
        self.samples = []
        self.notes = []

    def add(self, name, n=1):
        self.counts[name] += n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def violation(self, key, what, replay=None):
        """key identifies the specific failing input, call site or history"""
        key = str(key)
        if key not in self.violations and len(self.violations) < self.MAXV:
            self.violations[key] = (str(what), jsonable(replay))

    @property
    def full(self):
        return len(self.violations) >= self.MAXV

    def merge(self, other):
        self.counts.update(other.counts)
        for k, v in other.violations.items():
            self.violations.setdefault(k, v)
        for s in other.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        self.notes.extend(n for n in other.notes if n not in self.notes)


def known_findings(pid):
    """{key: text} listed for pid in the committed known-findings file"""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" | ")
                bits = head.split(" ", 1)
                if bits[0] == f"property={pid}" and bits[1].startswith("key="):
                    out[bits[1][4:].strip()] = text
    return out


def in_repo(tb):
    """True when the exception came out of the code under test"""
    src = os.path.realpath(os.path.join(REPO)) + os.sep
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(src) for f in frames)


_JOB = None


def _runjob(i):
    func, jobs = _JOB
    res = Result()
    try:
        func(res, jobs[i])
    except Violation as ex:
        res.violation(ex.key, ex.what, ex.replay)
    except Exception as ex:
        if in_repo(ex.__traceback__):
            tail = traceback.format_exc().strip().splitlines()
            res.violation(f"raised:{type(ex).__name__}:{jobs[i]!r}"[:200],
                          "the code raised where the property requires an answer: "
                          + " / ".join(tail[-5:]), {"job": jobs[i]})
        else:
            res.error = traceback.format_exc()
    if not res.samples and i % (len(jobs) // 6 + 1) == 0:
        res.sample({"case": repr(jobs[i])[:600], "counted": dict(res.counts)})
    return res


def explore_jobs(res, func, jobs, procs=None, chunk=1):
    """run func(Result, job) for every job in worker processes, merge in order"""
    global _JOB
    jobs = list(jobs)
    _JOB = (func, jobs)
    procs = min(procs or CORES, max(1, len(jobs)))
    if procs == 1:
        parts = map(_runjob, range(len(jobs)))
        for part in parts:
            if getattr(part, "error", None):
                raise RuntimeError(part.error)
            res.merge(part)
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for part in pool.imap(_runjob, range(len(jobs)), chunksize=chunk):
            if getattr(part, "error", None):
                raise RuntimeError(part.error)
            res.merge(part)
            if EAGER and res.violations and set(res.violations) - set(known_findings(EAGER)):
                pool.terminate()
                return


def run(pid, level, main, *, rule=None, assumptions=(), exhaustive=True):
    """entry of every check"""
    from . import meta
    info = meta.load().get(pid, {})
    rule = rule or info.get("rule")
    assumptions = list(assumptions) + list(info.get("assumptions", ()))
    t0 = time.time()
    res = Result()
    try:
        main(res)
    except Violation as ex:
        res.violation(ex.key, ex.what, ex.replay)
    except Exception as ex:
        if not in_repo(ex.__traceback__):
            traceback.print_exc()
            return 2
        tail = traceback.format_exc().strip().splitlines()
        res.violation(f"raised:{type(ex).__name__}",
                      "the code raised where the property requires an answer: "
                      + " / ".join(tail[-7:]))
    known = known_findings(pid)
    fresh = {k: v for k, v in res.violations.items() if k not in known}
    cov = {k: int(v) for k, v in sorted(res.counts.items())}
    if level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    else:
        for k in ("evaluations", "distinct_nontrivial"):
            cov.setdefault(k, 0)
    if rule:
        cov["rule"] = rule
    cov["samples"] = res.samples or ["none"]
    cov["exhaustive"] = bool(exhaustive)
    if res.notes:
        cov["notes"] = res.notes
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in known.items():
        if k in res.violations:
            print(f"KNOWN-FINDING: property={pid} {text or res.violations[k][0]}")
        else:
            print(f"note: listed finding not reproduced: {k}")
    nums = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{pid} {TIER}: {nums} in {ev['wall_s']}s")
    if not fresh:
        return 0
    outdir = os.path.join(ROOT, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    for n, (k, (what, replay)) in enumerate(list(fresh.items())[:int(os.environ.get('VERIF_SHOW', 5))]):
        path = os.path.join(outdir, f"violation{n}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "what": what, "replay": replay,
                       "how": f"./check {pid} re-enumerates the bounded space and "
                              f"stops at this case"}, f, indent=1)
        print(f"  {k}: {what[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1


def outcome(fn, *pa, **kw):
    """('ok', value) or ('err', exception type name) of calling fn"""
    try:
        v = fn(*pa, **kw)
        if hasattr(v, "__next__"):
            v = list(v)
        return ("ok", v)
    except Exception as ex:
        return ("err", type(ex).__name__)
