"""CESR primitives: every code, in text and binary, whole, cut short and damaged, against the specified encoding."""

import itertools

from .. import cesr
from ..lib import THOROUGH, Violation, boot, explore_jobs, pick, run

boot()
from keri import kering  # noqa: E402
from keri.core import coring, counting, indexing  # noqa: E402

TAIL = {"txt": ["", "A", "-AAB", "0AAA"], "bny": [b"", b"\0", b"\xff\x00\x01"]}


def raws(n):
    """byte strings of length n that exercise every position"""
    if n == 0:
        return [b""]
    out = [bytes(n), b"\xff" * n, bytes((7 * i + 1) & 255 for i in range(n)), b"\xfb\xef\xbe" * (n // 3) + b"\x01" * (n % 3)]
    return list(dict.fromkeys(out))


def softs(n):
    return list(dict.fromkeys([("A" * n), ("_" * n), ("-" + "z" * n)[:n], ("9aZ0-_bY8" * 2)[:n]])) if n else [""]


def values():
    """(code, soft, raw) of every code"""
    for name, (code, ss, xs, fs, lead) in cesr.MATTER.items():
        if fs is None:
            sizes = [n for n in range(0, 12) if -n % 3 == lead]
            for n in sizes:
                for raw in raws(n):
                    yield code, None, raw
        else:
            n = (fs - len(code) - ss) * 3 // 4 - lead
            for raw in raws(n):
                for soft in softs(ss - xs):
                    yield code, soft, raw


def expected(code, soft, raw):
    _, ss, xs, fs, lead = cesr.MCODES[code]
    if fs is None:
        soft = cesr.int64((len(raw) + lead) // 3, ss)
    return (code, soft, raw), *cesr.encode(code + "_" * xs + soft, lead, raw)


def sees(m):
    return (m.code, m.soft, bytes(m.raw))


def want(name, what, got, should):
    if got != should:
        raise Violation(name, f"{what}: {got!r}, must be {should!r}")


def read(klas, **kwa):
    """('ok', object) | ('short', ) | ('bad', )"""
    try:
        return "ok", klas(**kwa)
    except kering.ShortageError:
        return "short", None
    except Exception:
        return "bad", None


def matter(res, spec):
    """one value, every way"""
    for code, soft, raw in spec:
        me, text, binary = expected(code, soft, raw)
        name = f"matter:{code}:{soft}:{raw[:6].hex()}:{len(raw)}"
        m = coring.Matter(raw=raw, code=code, soft=soft or "")
        res.add("states")
        want(name, "made from parts, is", sees(m), me)
        want(name, "text is", (m.qb64, m.qb64b), (text, text.encode()))
        want(name, "binary is", bytes(m.qb2), binary)
        want(name, "full size is", m.fullSize, len(text))
        for tail in TAIL["txt"]:
            for given in (dict(qb64=text + tail), dict(qb64b=(text + tail).encode()),
                          dict(qb64b=memoryview((text + tail).encode()))):
                n = coring.Matter(**given)
                want(name, f"read from text with {tail!r} after it, is", sees(n), me)
                want(name, "read from text, is in binary", bytes(n.qb2), binary)
                res.add("transitions")
            ims = bytearray((text + tail).encode())
            n = coring.Matter(qb64b=ims, strip=True)
            want(name, "stripped from text leaves", bytes(ims), tail.encode())
        for tail in TAIL["bny"]:
            n = coring.Matter(qb2=binary + tail)
            want(name, f"read from binary with {tail!r} after it, is", sees(n), me)
            want(name, "read from binary, is in text", n.qb64, text)
            ims = bytearray(binary + tail)
            n = coring.Matter(qb2=ims, strip=True)
            want(name, "stripped from binary leaves", bytes(ims), tail)
            res.add("transitions", 2)
        prefixes(res, name, coring.Matter, {}, text, binary)
        damaged(res, name, coring.Matter, {}, text, binary, cesr.split,
                lambda m: (*sees(m), m.fullSize))


def prefixes(res, name, klas, extra, text, binary):
    """what has not fully arrived is waited for"""
    for i in range(len(text)):
        for given in (dict(qb64=text[:i]), dict(qb64b=bytearray(text[:i].encode()))):
            want(name, f"first {i} of {len(text)} characters", read(klas, **given, **extra)[0], "short")
            res.add("transitions")
    for i in range(len(binary)):
        want(name, f"first {i} of {len(binary)} bytes", read(klas, qb2=bytearray(binary[:i]), **extra)[0], "short")
        res.add("transitions")


BADCHARS = "+/=!~ \n\x00\u00e9"


def damaged(res, name, klas, extra, text, binary, split, view):
    """every other character at every place: it is read as what it then says, or refused"""
    for i in range(len(text)):
        for c in cesr.B64 + BADCHARS:
            if c == text[i]:
                continue
            t = text[:i] + c + text[i + 1:]
            try:
                ok = split(t)
            except (cesr.Short, cesr.Bad):
                ok = None
            except cesr.Unsaid:
                continue
            how, got = read(klas, qb64b=t.encode(), **extra)
            got = view(got) if how == "ok" else None
            res.add("transitions")
            if got != ok:
                raise Violation(f"{name}:chr{i}:{c!r}", f"text {t!r} is read as {got}, must be {ok or 'refused'}")
    for i in range(len(binary)):
        for c in range(256) if THOROUGH else {binary[i] ^ 1 << k for k in range(8)} | {0, 255}:
            if c == binary[i]:
                continue
            b = bytearray(binary)
            b[i] = c
            try:
                ok = split(cesr.totext(b))
            except (cesr.Short, cesr.Bad):
                ok = None
            except cesr.Unsaid:
                continue
            how, got = read(klas, qb2=bytes(b), **extra)
            got = view(got) if how == "ok" else None
            res.add("transitions")
            if got != ok:
                raise Violation(f"{name}:byte{i}:{c}", f"binary {b.hex()} is read as {got}, must be {ok or 'refused'}")


def big(res, spec):
    """variable sizes around the places where a larger code takes over"""
    for code, n in spec:
        c = code[-1]
        lead = -n % 3
        size = (n + lead) // 3
        hard = "456"[lead] + c if code[0] in "456" and size < 64 ** 2 else "789"[lead] + "AA" + c
        raw = bytes((i * 31 + n) & 255 for i in range(n))
        text, binary = cesr.encode(hard + cesr.int64(size, 2 if len(hard) == 2 else 4), lead, raw)
        name = f"big:{code}:{n}"
        m = coring.Matter(raw=raw, code=code)
        want(name, "code", m.code, hard)
        for how, got in (("text", m.qb64 == text), ("binary", m.qb2 == binary),
                         ("from text", coring.Matter(qb64=text + "A").raw == raw),
                         ("from binary", coring.Matter(qb2=binary + b"\0").raw == raw),
                         ("from text in binary", coring.Matter(qb64b=text.encode()).qb2 == binary)):
            want(name, how + " as specified", got, True)
        for cut in (len(text) - 1, len(text) // 2, 5, 3, 1):
            want(name, f"first {cut} characters", read(coring.Matter, qb64=text[:cut])[0], "short")
            want(name, f"first {cut} bytes", read(coring.Matter, qb2=binary[:min(cut, len(binary) - 1)])[0], "short")
        res.add("states")
        res.add("transitions", 16)


def indexer(res, spec):
    for code, index, other, raw in spec:
        _, ss, os, fs, lead = cesr.ICODES[code]
        both = code[-1] not in "BDF"
        name = f"indexer:{code}:{index}:{other}:{raw[:6].hex()}"
        legal = index < 64 ** (ss - os) and (
            other is None or both and (other < 64 ** os if os else other == index))
        given = dict(raw=raw, code=code, index=index) | ({} if other is None else dict(ondex=other))
        how, m = read(indexing.Indexer, **given)
        res.add("states")
        if not legal or not 0 <= index:
            if how == "ok":
                raise Violation(name, f"accepted index {index} other {other} for code {code}")
            continue
        see = None if not both else index if other is None else other
        if os and both and see >= 64 ** os:
            continue                   # default of other index does not fit
        if how != "ok":
            raise Violation(name, f"refused index {index} other {other} for code {code}")
        head = code + cesr.int64(index, ss - os) + (cesr.int64(see or 0, os) if os else "")
        text, binary = cesr.encode(head, 0, raw)
        me = (code, index, see, raw)

        def view(x):
            return (x.code, x.index, x.ondex, bytes(x.raw))
        want(name, "made from parts, is", view(m), me)
        want(name, "text and binary are", (m.qb64, bytes(m.qb2)), (text, binary))
        for tail in TAIL["txt"]:
            ims = bytearray((text + tail).encode())
            want(name, "read from text, is", view(indexing.Indexer(qb64b=ims, strip=True)), me)
            want(name, "stripped from text leaves", bytes(ims), tail.encode())
            want(name, "read from text, is", view(indexing.Indexer(qb64=text + tail)), me)
        for tail in TAIL["bny"]:
            ims = bytearray(binary + tail)
            n = indexing.Indexer(qb2=ims, strip=True)
            want(name, "read from binary, is", (view(n), n.qb64), (me, text))
            want(name, "stripped from binary leaves", bytes(ims), tail)
            res.add("transitions", 3)
        if index in (0, 1, 63, 64):
            prefixes(res, name, indexing.Indexer, {}, text, binary)
            damaged(res, name, indexing.Indexer, {}, text, binary,
                    lambda t: cesr.isplit(t), lambda x: (*view(x), len(x.qb64)))


def counter(res, spec):
    v, name_, code, ss, counts = spec
    ver = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
    table = cesr.COUNTER_1 if v == 1 else cesr.COUNTER_2
    codes = {c for c, _ in table.values()}
    for n in counts:
        name = f"counter:{v}:{code}:{n}"
        hard, width = code, ss
        if n >= 64 ** ss and ss == 2 and n < 64 ** 5 and "-" + code in codes:
            hard, width = "-" + code, 5
        for key in (code, name_):
            how, m = read(counting.Counter, code=key, count=n, version=ver)
            res.add("states")
            if n < 0 or n >= 64 ** width:
                if how == "ok":
                    raise Violation(name, f"accepted count {n} for {code}")
                continue
            text, binary = cesr.encode(hard + cesr.int64(n, width), 0, b"")
            if how != "ok":
                raise Violation(name, f"refused count {n} for {code}")
            want(name, "made from parts", (m.code, m.count, m.qb64, bytes(m.qb2), m.fullSize, m.byteSize("txt"),
                                           m.byteSize("bny"), m.byteCount("txt"), m.byteCount("bny")),
                 (hard, n, text, binary, len(text), len(text), len(binary), 4 * n, 3 * n))
        if n < 0 or n >= 64 ** width:
            continue
        for tail in TAIL["txt"]:
            ims = bytearray((text + tail).encode())
            m = counting.Counter(qb64b=ims, strip=True, version=ver)
            want(name, "read from text", (m.code, m.count, bytes(m.qb2), bytes(ims)), (hard, n, binary, tail.encode()))
        for tail in TAIL["bny"]:
            ims = bytearray(binary + tail)
            m = counting.Counter(qb2=ims, strip=True, version=ver)
            want(name, "read from binary", (m.code, m.count, m.qb64, bytes(ims)), (hard, n, text, tail))
            res.add("transitions", 2)
        if n in (0, 1, 64, 4095, 4096):
            prefixes(res, name, counting.Counter, dict(version=ver), text, binary)
            damaged(res, name, counting.Counter, dict(version=ver), text, binary,
                    lambda t: cesr.csplit(t, v), lambda m: (m.code, m.count, m.fullSize))


def pairs(res, spec):
    """primitives one after another: the whole converts between the domains, and splits again in both"""
    picks, firsts = spec
    for a in firsts:
        for b in picks:
            (_, ta, ba), (_, tb, bb) = expected(*a), expected(*b)
            name = f"pair:{a[0]}:{b[0]}"
            for klas, how, whole in ((dict, "qb64b", (ta + tb).encode()), (dict, "qb2", ba + bb)):
                ims = bytearray(whole)
                x = coring.Matter(**{how: ims}, strip=True)
                y = coring.Matter(**{how: ims}, strip=True)
                want(name, f"{how}: two in a row are", (x.qb64, y.qb64, bytes(x.qb2 + y.qb2), bytes(ims)),
                     (ta, tb, ba + bb, b""))
            res.add("states")
            res.add("transitions", 2)


def part(res, spec):
    dict(m=matter, b=big, i=indexer, c=counter, p=pairs)[spec[0]](res, spec[1])


def main(res):
    vs = list(values())
    if not THOROUGH:                    # every code with its first and last pattern, short ones with all
        seen, few = {}, []
        for v in vs:
            seen.setdefault(v[0], []).append(v)
        for code, group in seen.items():
            few += group if len(expected(*group[-1])[1]) < 40 else [group[0], group[-1]][:2]
        vs = few
    jobs = [("m", vs[i::64]) for i in range(64)]
    edge = [64 ** 2 * 3 + d for d in range(-7, 4)]
    jobs += [("b", [(c, n)]) for c in ("4A", "4B", "5B", "6B", "4C", "7AAB", "9AAA") for n in edge[::pick(2, 1)]]
    if THOROUGH:
        jobs += [("b", [("4B", 64 ** 3 * 3 + d)]) for d in range(3)]
    ind = []
    for name, (code, ss, os, fs, lead) in cesr.INDEXER.items():
        if name.startswith("TBD"):
            continue
        n = (fs - len(code) - ss) * 3 // 4
        marks = sorted({0, 1, 2, 63, 64, 65, 4095, 4096, 262143, 262144, 64 ** (ss - os) - 1, 64 ** (ss - os)})
        for index, other in itertools.product(marks, [None, *marks] if THOROUGH else [None, 0, 1, 63, 64, 4095, 4096]):
            for raw in raws(n)[1:3] if THOROUGH or index == 1 else raws(n)[2:3]:
                ind.append((code, index, other, raw))
        ind.append((code, -1, None, raws(n)[0]))
    jobs += [("i", ind[i::64]) for i in range(64)]
    for v, table in ((1, cesr.COUNTER_1), (2, cesr.COUNTER_2)):
        for name, (code, ss) in table.items():
            counts = [-1, *range(0, 64 ** 2 + 2, pick(37, 1)), 1, 63, 64, 4095, 4096, 64 ** 3 - 1, 64 ** 3, 64 ** 5 - 1, 64 ** 5]
            jobs.append(("c", (v, name, code, ss, counts)))
    one = {}
    for v in values():
        one[v[0]] = v
    picks = list(one.values())
    jobs += [("p", (picks, picks[i::16])) for i in range(16)]
    explore_jobs(res, part, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["states"]
    if set(coring.Matter.Sizes) != set(cesr.MCODES) or set(indexing.Indexer.Sizes) != set(cesr.ICODES):
        res.notes.append("code tables have codes this check does not know")


def check():
    return run("C01", "model_checking", main)
