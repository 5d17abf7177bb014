"""Typed primitives carry exactly the value they were made from, in text and binary, and different values differ."""

import datetime
import itertools
import math

from .. import cesr
from ..lib import THOROUGH, Violation, boot, explore_jobs, pick, run

boot()
from keri import kering  # noqa: E402
from keri.core import coring  # noqa: E402


def bad(key, what):
    raise Violation(key, what)


def wires(m):
    """the same primitive as it comes back from each form it travels in"""
    k = type(m)
    t, b = m.qb64, bytes(m.qb2)
    try:
        hard, soft, raw, n = cesr.split(t)
    except (cesr.Short, cesr.Bad):
        bad(f"{k.__name__}:text", f"{k.__name__} gives text {t!r}, which is not a primitive")
    if n != len(t) or (hard, soft, raw) != (m.code, m.soft, bytes(m.raw)) or cesr.totext(b) != t:
        bad(f"{k.__name__}:text", f"{k.__name__} gives text {t!r} and binary {b.hex()}, which disagree")
    return [m, k(qb64=t), k(qb64b=t.encode()), k(qb2=b)]


def numbers(res, spec):
    for n in spec:
        for code in (None, *coring.NumDex):
            fits = 256 ** (coring.Matter._rawSize(code) if code else 17)
            for given in (dict(num=n), dict(numh="%x" % n), dict(num="%x" % n), dict(sn=n), dict(snh="%x" % n)):
                try:
                    m = coring.Number(code=code, **given)
                except Exception:
                    if n < fits:
                        bad(f"number:{n}:{code}", f"Number {given} with code {code} refused")
                    continue
                if n >= fits:
                    bad(f"number:{n}:{code}", f"Number {given} with code {code} is accepted as {m.num}")
                if code and m.code != code:
                    bad(f"number:{n}:{code}", f"Number {given} made with code {code} has code {m.code}")
                for w in wires(m):
                    if (w.num, w.numh, w.sn, w.snh, w.code) != (n, "%x" % n, n, "%x" % n, m.code):
                        bad(f"number:{n}:{code}", f"Number {given} with code {code} reads {w.num} {w.numh} {w.sn} {w.snh}")
                    if n < 2 ** 128:
                        if w.huge != "0A" + cesr.encode("0A", 0, n.to_bytes(16, "big"))[0][2:] or w.onkey != "%032x" % n:
                            bad(f"number:{n}", f"huge is {w.huge}, key is {w.onkey} for {n}")
                    if (w.positive, w.inceptive) != (n > 0, n == 0):
                        bad(f"number:{n}", f"{n} reads positive {w.positive} inceptive {w.inceptive}")
                res.add("states")
                res.add("transitions", 4)
        for given in (dict(sn=n), dict(snh="%x" % n), dict(sn="%x" % n)):
            try:
                m = coring.Seqner(**given)
            except Exception:
                if n < 2 ** 128:
                    bad(f"seqner:{n}", f"Seqner {given} refused")
                continue
            if n >= 2 ** 128:
                bad(f"seqner:{n}", f"Seqner {given} accepted as {m.sn}")
            for w in wires(m):
                if (w.sn, w.snh) != (n, "%x" % n):
                    bad(f"seqner:{n}", f"Seqner {given} reads {w.sn} {w.snh}")


def decimals(res, spec):
    for d in spec:
        for given in (dict(decimal=d), dict(dns=repr(d)), dict(dns=repr(d).encode())):
            try:
                m = coring.Decimer(**given)
            except Exception as ex:
                bad(f"decimal:{d!r}", f"Decimer {given} is refused: {ex!r}")
            for w in wires(m):
                got = w.decimal
                if type(got) is not type(d) or got != d or math.copysign(1, got) != math.copysign(1, d):
                    bad(f"decimal:{d!r}", f"Decimer {given} reads {got!r}")
            if coring.Decimer(dns=m.dns).qb64 != m.qb64:
                bad(f"decimal:{d!r}", f"Decimer of its own dns {m.dns} is another")
            res.add("transitions", 4)
        res.add("states")


def dates(res, spec):
    for dt in spec:
        dts = dt.isoformat(timespec="microseconds")
        m = coring.Dater(dts=dts)
        for w in wires(m) + [coring.Dater(dts=dts.encode())]:
            if (w.dts, w.dtsb, w.datetime) != (dts, dts.encode(), dt):
                bad(f"date:{dts}", f"Dater {dts} reads {w.dts} {w.datetime}")
        res.add("states")
        res.add("transitions", 5)


def b64(t):
    return all(c in cesr.VAL for c in t)


def texts(res, spec):
    """strings as tags, base64 strings, labels, texts"""
    seen = {}
    for t in spec:
        u = t.encode()
        # text
        for given in (dict(text=t), dict(text=u)):
            for w in wires(coring.Texter(**given)):
                if w.text != t or w.raw != u:
                    bad(f"text:{t!r}", f"Texter {t!r} reads {w.text!r}")
        for given in (dict(text=t), dict(text=u)):
            try:
                m = coring.Labeler(**given)
            except Exception as ex:
                bad(f"labeltext:{t!r}", f"Labeler text {t!r} is refused: {ex!r}")
            for w in wires(m):
                if w.text != t:
                    bad(f"labeltext:{t!r}", f"Labeler text {t!r} reads {w.text!r}")
            if seen.setdefault(m.qb64, t) != t:
                bad(f"labeltext:{t!r}", f"Labeler texts {t!r} and {seen[m.qb64]!r} are both {m.qb64}")
        label = t and b64(t) and "-" not in t and not t[0].isdigit()
        if t:
            try:
                ms = [coring.Labeler(label=x) for x in (t, u)]
            except Exception:
                ms = None
            if bool(ms) != bool(label):
                bad(f"label:{t!r}", f"Labeler label {t!r} is {'accepted' if ms else 'refused'}")
            for m in ms or ():
                for w in wires(m):
                    if (w.label, w.text) != (t, t):
                        bad(f"label:{t!r}", f"Labeler label {t!r} reads {w.label!r} {w.text!r}")
        for klas, key, top in ((coring.Tagger, "tag", 11), (coring.Bexter, "bext", 10 ** 6)):
            if not t and klas is coring.Tagger:
                continue
            name = klas.__name__
            try:
                ms = [klas(**{key: x}) for x in (t, u)]
            except Exception:
                ms = None
            legal = b64(t) and len(t) <= top
            if bool(ms) != legal:
                bad(f"{name}:{t!r}", f"{name} of {t!r} is {'accepted' if ms else 'refused'}")
            for m in ms or ():
                for w in wires(m):
                    if getattr(w, key) != t:
                        bad(f"{name}:{t!r}", f"{name} of {t!r} reads {getattr(w, key)!r}")
        res.add("states")
        res.add("transitions", 8)


def paths(res, spec):
    for parts in spec:
        for relative in (False, True):
            for pathive in (True, False):
                want = list(parts)
                simple = all(b64(p) and "-" not in p for p in want)
                if not relative and (not want or want[0]):
                    want = ["", *want] if want else ["", ""]
                sep = "-" if simple else "/"
                name = f"path:{parts}:{relative}:{pathive}"
                legal = (simple or not pathive) and sep * 2 not in sep.join(want)
                if legal and not simple and any("/" in p for p in want):
                    continue               # parts that hold the separator are not parts
                try:
                    m = coring.Pather(parts=list(parts), relative=relative, pathive=pathive)
                except Exception:
                    m = None
                if bool(m) != legal:
                    bad(name, f"Pather of {parts} relative {relative} pathive {pathive} is "
                              f"{'accepted as ' + m.path if m else 'refused'}")
                if not m:
                    continue
                path = "/".join(want)
                for w in wires(m):
                    if w.path != path or (w.parts != want and path):
                        bad(name, f"Pather of {parts} relative {relative} pathive {pathive} reads {w.path!r} {w.parts}, "
                                  f"must be {want}")
                    rel = list(want)
                    while rel and not rel[0]:
                        del rel[0]
                    if w.rparts != rel and path:
                        bad(name, f"Pather of {parts} has relative parts {w.rparts}")
                if path and not ("-" in path and "/" not in path):
                    again = coring.Pather(path=path, relative=relative, pathive=pathive)
                    if again.qb64 != m.qb64:
                        bad(name, f"Pather of path {path!r} reads {again.path!r}")
                res.add("states")
                res.add("transitions", 4)


def trees(res, spec):
    """paths into a document, and paths relative to each other"""
    doc = dict(a=dict(b=[dict(c="x"), "y", ["z"]], d="w"), e=["p", dict(a="q")], f="s")
    found = {}

    def walk(at, val):
        found[at] = val
        if isinstance(val, dict):
            for i, (k, v) in enumerate(val.items()):
                walk((*at, k), v)
                walk((*at, str(i)), v)
        elif isinstance(val, list):
            for i, v in enumerate(val):
                walk((*at, str(i)), v)
    walk((), doc)
    for at, val in found.items():
        p = coring.Pather(parts=list(at))
        for q in wires(p):
            if q.resolve(doc) is not val:
                bad(f"resolve:{at}", f"path {q.path} resolves to {q.resolve(doc)!r}, must be {val!r}")
        for wrong in ("zz", "9", "00a"):
            try:
                got = coring.Pather(parts=[*at, wrong]).resolve(doc)
            except Exception:
                continue
            bad(f"resolve:{at}:{wrong}", f"path {(*at, wrong)} resolves to {got!r}")
        res.add("states")
    for x, y in itertools.product(spec, repeat=2):
        p, r = coring.Pather(parts=list(x)), coring.Pather(parts=list(y))
        front = y and x[:len(y)] == y
        want = list(x[len(y):]) if front else list(x)
        got = p.strip(r).rparts
        if y and got != want and not (got == [""] and not want):
            bad(f"strip:{x}:{y}", f"{p.path} stripped of {r.path} is {got}, must be {want}")
        if y and p.root(r).rparts != [*y, *x]:
            bad(f"root:{x}:{y}", f"{p.path} rooted at {r.path} is {p.root(r).path}")
        if front and not p.startswith(r):
            bad(f"starts:{x}:{y}", f"{p.path} does not start with {r.path}")
        res.add("transitions")


def versions(res, spec):
    for proto, maj, low in spec:
        v = kering.Versionage(maj, low)
        for g in (None, kering.Versionage(low & 63, maj), kering.Versionage(2, 0)):
            m = coring.Verser(proto=proto, pvrsn=v, gvrsn=g)
            for w in wires(m):
                if tuple(w.versage) != (proto, v, g):
                    bad(f"version:{proto}:{v}", f"Verser of {proto} {v} {g} reads {w.versage}")
            res.add("transitions", 4)
        res.add("states")


def nonces(res, spec):
    for code in spec:
        n = coring.Matter._rawSize(code)
        for raw in {bytes(n), b"\xff" * n, bytes(range(n))}:
            m = coring.Noncer(raw=raw, code=code)
            for w in wires(m) + [coring.Noncer(nonce=m.nonce), coring.Noncer(nonce=m.nonceb)]:
                if (w.raw, w.code, w.nonce, w.nonceb) != (raw, code, m.nonce, m.nonce.encode()):
                    bad(f"nonce:{code}", f"Noncer of {code} {raw.hex()} reads {w.code} {w.raw.hex()} {w.nonce}")
            if m.nonce != (m.qb64 if n else ""):
                bad(f"nonce:{code}", f"Noncer of {code} says {m.nonce!r}")
            res.add("states")
            res.add("transitions", 6)


KINDS = dict(n=numbers, d=decimals, t=dates, s=texts, p=paths, r=trees, v=versions, o=nonces)


def part(res, spec):
    KINDS[spec[0]](res, spec[1])


def main(res):
    jobs = []

    def cut(kind, items, n=16):
        items = list(items)
        jobs.extend((kind, items[i::n]) for i in range(n) if items[i::n])
    ns = set(range(pick(300, 70000)))
    for k in range(1, 18):
        ns |= {256 ** k + d for d in range(-2, 3)} | {16 ** (2 * k - 1) + d for d in (-1, 0)}
    cut("n", sorted(ns))
    ds = {*range(-pick(1100, 12000), pick(1100, 12000))} | {s * (10 ** e + d) for e in range(25) for d in (-1, 0, 1) for s in (1, -1)}
    fl = [s * m * 10.0 ** e for s in (1, -1) for m in (1.0, 1.5, 2.25, 9.999, 1.2345678901234567, 7e-9)
          for e in range(-300, 301, pick(7, 1))]
    fl += [s * 10.0 ** e for e in range(-30, 31) for s in (1, -1)] + [0.0, -0.0, float("inf"), -float("inf"), 5e-324, 1.7976931348623157e308]
    fl += [i / 8 for i in range(-400, 400)]
    cut("d", [d for d in ds if len(str(d)) < 4000] + fl)
    base = datetime.datetime(2021, 1, 1)
    dts = [datetime.datetime(y, mo, d, h, mi, s, us, datetime.timezone(datetime.timedelta(minutes=off)))
           for y, mo, d in ((1, 1, 1), (1999, 12, 31), (2000, 2, 29), (2026, 10, 9), (9999, 12, 31))
           for h, mi, s in itertools.product((0, 1, 12, 23), (0, 30, 59), (0, 59)) for us in (0, 1, 10, 999999, 100000, 233257)
           for off in (0, 60, -60, 345, -570, 840, -1439, 1439)]
    cut("t", [d for d in dts if THOROUGH or d.second == 0 or d.year == 2026])
    al = ["A", "-", "_", "b", "7", "é", " ", "\n", "/"]
    words = ["".join(x) for n in range(pick(6, 7)) for x in itertools.product(al, repeat=n)]
    words += ["".join(x) for n in range(1, pick(3, 4)) for x in itertools.product(cesr.B64, repeat=n)]
    words += [h + "b" * n + t for n in range(14) for h in al for t in ("", *al)] + [h + "A" * n for n in range(14) for h in ("", *al)]
    words += [a + b + "x" * n for a in al for b in al for n in range(6, 12)] + ["b" * 5000, "é" * 4000, "A" * 4098, "b" * 16380, "-" * 16384]
    cut("s", dict.fromkeys(words), 32)
    pieces = ["", "a", "A", "AA", "0", "bc", "é", "x y", "-", "_", "a\n", "AbcdE"]
    cut("p", [x for n in range(pick(4, 5)) for x in itertools.product(pieces, repeat=n)])
    small = [x for n in range(pick(4, 5)) for x in itertools.product(("a", "b", "ab"), repeat=n)]
    jobs.append(("r", small))
    cut("v", itertools.product([kering.Protocols.keri, kering.Protocols.acdc], range(64) if THOROUGH else (0, 1, 2, 10, 62, 63),
                               (0, 1, 2, 63, 64, 65, 4094, 4095)))
    jobs.append(("o", list(coring.NonceDex)))
    explore_jobs(res, part, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["states"]


def check():
    return run("C03", "model_checking", main)
