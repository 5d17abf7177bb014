"""Self-addressing messages: every message type, version, serialization and digest.  A message is read exactly when its
bytes are the one canonical serialization of its fields, in the prescribed order and number, with the said that is the
digest of just these bytes; everything else, from single bit errors to carefully recomputed forgeries, is refused."""

import base64
import copy
import hashlib
import json
import struct

from .. import cesr
from ..kel import dig, icp, key, wit, S
from ..lib import THOROUGH, Violation, explore_jobs, pick, run
from keri import kering
from keri.core import coring, serdering
import blake3

DT = "2021-06-27T21:26:21.233257+00:00"
NONCE = "0AAxyHwW6htOZ_rANOaZb2N2"

# the fields of each message, in order: specified, not taken from the code ("?" optional, "|" one of the two)
KERI1 = dict(
    icp="v t d i s kt k nt n bt b c a", rot="v t d i s p kt k nt n bt br ba a", ixn="v t d i s p a",
    dip="v t d i s kt k nt n bt b c a di", drt="v t d i s p kt k nt n bt br ba a", rct="v t d i s",
    qry="v t d dt r rr q", rpy="v t d dt r a", pro="v t d dt r rr q", bar="v t d dt r a",
    exn="v t d i rp p dt r q a e", vcp="v t d i ii s c bt b n", vrt="v t d i p s bt br ba", iss="v t d i s ri dt",
    rev="v t d i s ri p dt", bis="v t d i ii s ra dt", brv="v t d i s p ra dt")
KERI2 = dict(
    icp="v t d i s kt k nt n bt b c a", rot="v t d i s p kt k nt n bt br ba c a", ixn="v t d i s p a",
    dip="v t d i s kt k nt n bt b c a di", drt="v t d i s p kt k nt n bt br ba c a", rct="v t d i s",
    qry="v t d i dt r rr q", rpy="v t d i dt r a", pro="v t d i dt r rr q", bar="v t d i dt r a",
    xip="v t d u i ri dt r q a", exn="v t d i ri x p dt r q a")
ACDC1 = {None: "v d u? i ri? s a|A e? r?"}
ACDC2 = {None: "v d u? i rd? s a|A e? r?", "acm": "v t? d u? i rd? s a|A e? r?", "act": "v t d u i rd s a e r",
         "acg": "v t d u i rd s A e r", "sch": "v t d s", "att": "v t d a", "agg": "v t d A", "edg": "v t d e",
         "rul": "v t d r", "rip": "v t d u i n dt", "bup": "v t d rd n p dt b", "upd": "v t d rd n p dt td ts"}
TABLES = {("KERI", 1): KERI1, ("KERI", 2): KERI2, ("ACDC", 1): ACDC1, ("ACDC", 2): ACDC2}
DIGESTS = dict(E=lambda b: blake3.blake3(b).digest(), F=lambda b: hashlib.blake2b(b, digest_size=32).digest(),
               G=lambda b: hashlib.blake2s(b, digest_size=32).digest(), H=lambda b: hashlib.sha3_256(b).digest(),
               I=lambda b: hashlib.sha256(b).digest())
DIGESTS.update({"0D": lambda b: blake3.blake3(b).digest(length=64), "0E": lambda b: hashlib.blake2b(b).digest(),
                "0F": lambda b: hashlib.sha3_512(b).digest(), "0G": lambda b: hashlib.sha512(b).digest()})
SIZE = {c: 44 if len(c) == 1 else 88 for c in DIGESTS}


def fields(proto, v, ilk):
    """[(label, optional, alternative)]"""
    out = []
    for f in TABLES[proto, v][ilk].split():
        if "|" in f:
            a, b = f.split("|")
            out += [(a, True, b), (b, True, a)]
        else:
            out.append((f.rstrip("?"), f.endswith("?"), None))
    return out


def saidive(proto, v, ilk):
    if (proto, ilk) == ("KERI", "rct"):
        return ()
    if proto == "KERI" and ilk in ("icp", "dip", "vcp"):
        return ("d", "i")
    return ("d",)


def value(proto, v, ilk, label, code):
    est = ilk in ("icp", "rot", "dip", "drt")
    if label == "t":
        return ilk
    if label in saidive(proto, v, ilk):
        return "#" * SIZE[code]
    vals = dict(
        d=dig(1), i=dig(2), s="1f", p=dig(3), kt=["1/2", "1/2", "1"], nt="1", k=[key(1), key(2), key(3)], n=[dig(4)],
        bt="2", b=[wit(0), wit(1), wit(2)], br=[wit(0)], ba=[wit(3), wit(4)], c=["EO", "DND"], di=dig(5), dt=DT,
        r="ksn/x", rr="back", ri=dig(6), ii=dig(7), u=NONCE, x=dig(8), rp=dig(9), n2="a")
    if label == "s" and ilk in ("icp", "dip", "vcp"):
        return "0"
    if label == "n" and ilk in ("vcp",):
        return NONCE
    if proto == "ACDC":
        vals.update(s=dig(10), a=dig(11), A=dig(12), e=dig(13), r=dig(14), rd=dig(15), n="1f", b=dig(16), td=dig(17), ts="issued")
        if ilk == "sch" or ilk is None:
            vals["s"] = dig(10)
        if v == 1:
            vals["a"] = dict(d=dig(11), i=dig(2), x=1)
    elif label == "a":
        if est or ilk == "ixn":
            return [dict(i=dig(20), s="1", d=dig(21)), dict(d=dig(22))]
        return {"x": 1, "y": ["p", True, None], "z": {"q": "w w", "d": dig(3)}} if v == 2 else \
            ([{"é": 1.5}, ["b", None]] if ilk != "exn" else {"é": 1.5, "b": None})
    elif label == "q":
        return {"i": dig(2), "s": "0"}
    elif label == "e":
        return {"d": dig(9)}
    elif label == "ra":
        return dict(i=dig(2), s="0", d=dig(3))
    if proto == "KERI" and label == "rr":
        return "back"
    return vals[label]


# ------------------------------------------------------------ serializing by hand
class Raw(bytes):
    """already serialized"""


def enc(kind, x, style=None):
    """x with maps as lists of pairs in a Map"""
    if isinstance(x, Raw):
        return bytes(x)
    if isinstance(x, dict):
        x = Map(x.items())
    if kind == "JSON":
        if isinstance(x, Map):
            c, k = (b", ", b": ") if style == "spaced" else (b",", b":")
            return b"{" + c.join(enc(kind, a) + k + enc(kind, b) for a, b in x) + b"}"
        if isinstance(x, (list, tuple)):
            return b"[" + b",".join(enc(kind, a) for a in x) + b"]"
        return json.dumps(x, ensure_ascii=False).encode()
    if kind == "CBOR":
        def head(major, n):
            if n < 24:
                return bytes([major << 5 | n])
            for k, f in ((24, ">B"), (25, ">H"), (26, ">I"), (27, ">Q")):
                if n < 256 ** struct.calcsize(f):
                    return bytes([major << 5 | k]) + struct.pack(f, n)
        if isinstance(x, Map):
            return head(5, len(x)) + b"".join(enc(kind, y) for p in x for y in p)
        if isinstance(x, (list, tuple)):
            return head(4, len(x)) + b"".join(enc(kind, y) for y in x)
        if isinstance(x, str):
            return head(3, len(x.encode())) + x.encode()
        if x is None or isinstance(x, bool):
            return {None: b"\xf6", True: b"\xf5", False: b"\xf4"}[x]
        if isinstance(x, int):
            return head(0, x) if x >= 0 else head(1, -1 - x)
        return b"\xfb" + struct.pack(">d", x)
    if kind == "MGPK":
        if isinstance(x, (Map, list, tuple)):
            m, n = isinstance(x, Map), len(x)
            h = bytes([(0x80 if m else 0x90) | n]) if n < 16 else (b"\xde" if m else b"\xdc") + struct.pack(">H", n)
            return h + b"".join(enc(kind, y) for y in (sum(map(list, x), []) if m else x))
        if isinstance(x, str):
            b = x.encode()
            n = len(b)
            return (bytes([0xa0 | n]) if n < 32 else b"\xd9" + bytes([n]) if n < 256 else b"\xda" + struct.pack(">H", n)) + b
        if x is None or isinstance(x, bool):
            return {None: b"\xc0", True: b"\xc3", False: b"\xc2"}[x]
        if isinstance(x, int):
            assert 0 <= x < 128
            return bytes([x])
        return b"\xcb" + struct.pack(">d", x)
    raise ValueError(kind)


class Map(list):
    pass


def version(proto, v, kind, size):
    if v == 1:
        return f"{proto}10{kind}{size:06x}_"
    return f"{proto}CAACAA{kind}{cesr.int64(size, 4)}."


def digest(code, raw):
    return cesr.encode(code, {1: 1, 2: 2}[len(code)] * 0, DIGESTS[code](raw))[0]


def seal_up(raw, marks, code):
    """put the digest of raw in place of the dummies"""
    dummy = b"#" * SIZE[code]
    if raw.count(dummy) != marks:
        raise AssertionError((raw, marks))
    return raw.replace(dummy, digest(code, raw).encode())


def forge(kind, pairs, proto, v, code, style=None, whole=None, size=None):
    """the message of these fields, whatever they are, sized and digested as if it were good"""
    def build(n):
        p = Map((lab, version(proto, v, kind, n) if lab == "v" and val == "" else val) for lab, val in pairs)
        return whole(p) if whole else enc(kind, p, style)
    marks = sum(val == "#" * SIZE[code] for _, val in pairs)
    raw = build(len(build(0)) if size is None else size)
    return seal_up(raw, marks, code) if marks else raw


def items(text):
    """the top level items of a native body"""
    c, n, fs = cesr.csplit(text, 2)
    head, rest, out = text[:fs], text[fs:], []
    assert len(rest) == 4 * n
    while rest:
        if rest[0] == "-":
            c, n, fs = cesr.csplit(rest, 2)
            fs += 4 * n
        elif rest[0] == "#":
            fs = 44 if not rest.startswith("#" * 88) or rest.startswith("#" * 176) is None else 88
        else:
            fs = cesr.split(rest)[3]
        out.append(rest[:fs])
        rest = rest[fs:]
    return head, out


def refit(head, parts):
    body = "".join(parts)
    n = len(body) // 4
    letter = head.lstrip("-")[0]
    return (f"-{letter}{cesr.int64(n, 2)}" if n < 4096 else f"--{letter}{cesr.int64(n, 5)}") + body


# ------------------------------------------------------------ the check
def klass(proto):
    return serdering.SerderKERI if proto == "KERI" else serdering.SerderACDC


def load(proto, raw, **kwa):
    try:
        return klass(proto)(raw=raw, **kwa)
    except Exception:
        return None


def refused(res, proto, raw, name, why):
    res.add("transitions")
    s = load(proto, raw)
    if s is not None:
        raise Violation(f"{name}:{why}", f"{name} {why}: accepted {bytes(raw)[:900]!r}", {"raw": bytes(raw)})


def refusedsad(res, proto, sad, name, why, same=None):
    res.add("transitions")
    try:
        t = klass(proto)(sad=copy.deepcopy(sad))
    except Exception:
        return
    if t.raw == same:       # another way of giving the same value
        return
    raise Violation(f"{name}:{why}", f"{name} with {why} accepted from fields {sad}", {"sad": sad})


def sample(proto, v, ilk, kind, code, drop=()):
    """the fields of a good message, dummied"""
    return {lab: "" if lab == "v" else value(proto, v, ilk, lab, code)
            for lab, opt, alt in fields(proto, v, ilk) if lab not in drop}


def made(proto, v, ilk, kind, code, sad):
    """the message as the code makes it"""
    vrsn = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
    return klass(proto)(sad=copy.deepcopy(sad), makify=True, proto=proto, pvrsn=vrsn,
                        gvrsn=None if v == 1 else kering.Vrsn_2_0, kind=kind, ilk=ilk,
                        saids={lab: code for lab in saidive(proto, v, ilk)})


def job(res, spec):
    proto, v, ilk, kind, code, drop = spec
    name = f"{proto}{v}:{ilk}:{kind}:{code}" + (f"-{'-'.join(drop)}" if drop else "")
    sad = sample(proto, v, ilk, kind, code, drop)
    s = made(proto, v, ilk, kind, code, sad)
    raw = s.raw
    res.add("states")
    res.add("traces_validated_against_impl")
    marks = saidive(proto, v, ilk)
    # it is what the specification says
    if list(s.sad) != list(sad):
        raise Violation(f"{name}:labels", f"{name}: made with fields {list(s.sad)}, must be {list(sad)}")
    for lab in marks:
        if s.sad[lab] != s.said:
            raise Violation(f"{name}:made", f"{name}: {lab} is {s.sad[lab]}, the said {s.said}")
    if kind != "CESR":
        want = forge(kind, list(sad.items()), proto, v, code)
        if raw != want:
            raise Violation(f"{name}:serialized", f"{name}: made {raw!r}, must be {want!r}")
    elif marks:
        dummied = raw.replace(s.said.encode(), b"#" * SIZE[code])
        if dummied.count(b"#" * SIZE[code]) != len(marks) or digest(code, dummied) != s.said:
            raise Violation(f"{name}:said", f"{name}: said is {s.said}, the digest is {digest(code, dummied)}")
    # it is read back
    tails = [b"", b"{", b"-AAB", raw, b"\xf8\x00"]
    forms = [raw]
    if kind == "CESR":
        forms.append(base64.urlsafe_b64decode(raw))
    for form in forms:
        for tail in tails:
            if form is not raw and tail == raw:
                tail = form
            for strip in (False, True):
                res.add("transitions")
                ims = bytearray(form + tail)
                t = load(proto, ims, strip=strip)
                if t is None or (t.raw, t.sad, t.said, t.size, t.kind, t.ilk) != (raw, s.sad, s.said, len(raw), kind, ilk):
                    raise Violation(f"{name}:read", f"{name}: made as {raw!r}, followed by {tail[:12]!r} "
                                                    f"({'binary' if form is not raw else 'as is'}) reads as {t and t.raw!r}")
                if bytes(ims) != (tail if strip else form + tail):
                    raise Violation(f"{name}:consumed", f"{name}: reading it{' with strip' * strip} leaves {bytes(ims)!r}")
    for given in (s.sad,):
        t = klass(proto)(sad=copy.deepcopy(given))
        if (t.raw, t.said, t.sad) != (raw, s.said, s.sad):
            raise Violation(f"{name}:resad", f"{name}: fields {given} give {t.raw!r}, must be {raw!r}")
    if "fresh" in READERS:
        READERS["fresh"](res, name, s, sad)
    # cut short
    for n in range(0, len(raw), pick(5, 1)):
        refused(res, proto, raw[:n], name, f"cut to {n} bytes")
    # single bytes changed
    flips = pick((1 << 5, 1 << 2), tuple(1 << b for b in range(8)) + (0x03, 0x60, 0xFF))
    bits = bytearray(raw)
    if code == "E" or THOROUGH:
        for n in range(len(raw)):
            for x in ((1 << ((n + q) % 8)) for q in pick((0, 3), (0,))) if not THOROUGH else flips:
                bits[n] ^= x
                if not marks and loose(raw, bits, kind, v):
                    bits[n] ^= x
                    continue
                refused(res, proto, bytes(bits), name, f"byte {n} changed by {x:#x}")
                bits[n] ^= x
    # fields changed without the said, in the fields given
    if marks:
        for lab in sad:
            if lab == "v":
                continue
            for new in others(s.sad[lab]):
                bad = dict(copy.deepcopy(s.sad))
                bad[lab] = new
                refusedsad(res, proto, bad, name, f"{lab}={str(new)[:60]}", raw if kind == "CESR" else None)
    # carefully recomputed forgeries
    if kind == "CESR":
        forgenative(res, spec, name, s, sad)
    else:
        forgeother(res, spec, name, s, sad)


READERS = {}


def loose(raw, bits, kind, v):
    """receipts carry no said of their own: only changes that leave no message are to be refused"""
    return True


def others(x):
    """other values of the same kind, and of others"""
    if isinstance(x, str):
        out = [x[:-1] + ("A" if x[-1:] != "A" else "B"), "", x + "A", x.lower(), x.upper(), " " + x, [x], {"d": x}]
    elif isinstance(x, list):
        out = [[], x[:-1], x + x[:1], x[::-1], [x], "".join(map(str, x)), {str(i): y for i, y in enumerate(x)}]
    elif isinstance(x, dict):
        out = [{}, {**x, "zz": "1"}, dict(list(x.items())[1:]), [x], "x"] + \
            ([dict(reversed(list(x.items())))] if len(x) > 1 else [])
    else:
        out = []
    return [y for y in out if json.dumps(y) != json.dumps(x)] + [None, 0]


def allowed(proto, v, ilk, labels):
    """these labels in this order make a message of this type"""
    if ilk not in TABLES[proto, v]:
        return None
    spec = fields(proto, v, ilk)
    if any(lab not in [f[0] for f in spec] for lab in labels):
        return False
    want = [lab for lab, opt, alt in spec if lab in labels]
    if want != list(labels) or any(lab not in labels for lab, opt, alt in spec if not opt):
        return False
    return not any(alt and lab in labels and alt in labels for lab, opt, alt in spec)


def arranged(sad, ilk):
    """every removal, addition, repetition, renaming and exchange of fields: [(name, pairs)]"""
    pairs = list(sad.items())
    n = len(pairs)
    for i in range(1, n):
        yield f"without {pairs[i][0]}", pairs[:i] + pairs[i + 1:]
        yield f"{pairs[i][0]} twice", pairs[:i] + [pairs[i]] + pairs[i:]
        yield f"{pairs[i][0]} renamed", pairs[:i] + [(pairs[i][0] + "x", pairs[i][1])] + pairs[i + 1:]
        yield f"{pairs[i][0]} in capitals", pairs[:i] + [(pairs[i][0].swapcase(), pairs[i][1])] + pairs[i + 1:]
        for j in range(i + 1, n):
            if THOROUGH or j == i + 1 or j == n - 1:
                new = list(pairs)
                new[i], new[j] = new[j], new[i]
                yield f"{pairs[i][0]} and {pairs[j][0]} exchanged", new
    for i in range(1, n + 1):
        for extra in (("zz", "x"), ("A", dig(1)), ("a", dig(1)), ("di", dig(1)), ("x", ""), ("", ""), ("e", {}), ("t", ilk)):
            if extra[0] not in sad:
                yield f"{extra[0] or 'empty label'} added at {i}", pairs[:i] + [extra] + pairs[i:]


def forgeother(res, spec, name, s, sad):
    proto, v, ilk, kind, code, drop = spec
    raw = s.raw
    marks = saidive(proto, v, ilk)
    for what, pairs in arranged(sad, ilk):
        labels = [lab for lab, _ in pairs]
        if len(set(labels)) == len(labels) and allowed(proto, v, dict(pairs).get("t"), labels):
            continue
        try:
            new = forge(kind, pairs, proto, v, code)
        except AssertionError:
            continue
        refused(res, proto, new, name, what)
        if len(set(labels)) == len(labels) and "v" in labels:
            d = dict(pairs)
            d["v"] = version(proto, v, kind, len(new))
            for lab in marks:
                if lab in d:
                    d[lab] = new_said(new, kind, lab)
            refusedsad(res, proto, d, name, what + " in fields")
    # other digests, other sizes, other versions
    if marks:
        for other in DIGESTS:
            if other != code and SIZE[other] == SIZE[code]:
                dummied = raw.replace(s.said.encode(), b"#" * SIZE[code])
                wrong = other + s.said[len(other):]
                refused(res, proto, dummied.replace(b"#" * SIZE[code], wrong.encode()), name, f"digest named {other}")
        for wrong in ("B", "D", "A", "C", "J", "Q"):
            fake = digest("E", raw)
            refused(res, proto, raw.replace(s.said.encode(), (wrong + fake[1:]).encode()) if SIZE[code] == 44 else raw[:-1],
                    name, f"said of code {wrong}")
            dummied = raw.replace(s.said.encode(), b"#" * SIZE[code])
            if SIZE[code] == 44:
                refused(res, proto, dummied.replace(b"#" * 44, (wrong + digest("E", dummied)[1:]).encode()), name,
                        f"digest as code {wrong}")
        if len(marks) == 2 and proto == "KERI" and ilk != "vcp":
            other = [(lab, dig(40) if lab == "i" else val) for lab, val in sad.items()]
            refused(res, proto, forge(kind, other, proto, v, code), name, "another digest as identifier")
            for wrong in ("A", "C", "J"):
                other = [(lab, wrong + dig(40)[1:] if lab == "i" else val) for lab, val in sad.items()]
                refused(res, proto, forge(kind, other, proto, v, code), name, f"identifier of code {wrong}")
            if ilk == "icp":
                keyed(res, spec, name, sad)
        other = [(lab, "" if lab == "d" else val) for lab, val in sad.items()]
        if len(marks) == 1:
            refused(res, proto, forge(kind, other, proto, v, code), name, "no said")
    for n in (0, 1, len(raw) - 1, len(raw) + 1, 0xffffff):
        new = forge(kind, list(sad.items()), proto, v, code, size=n)
        for tail in (b"", b"0" * 2, b" "):
            refused(res, proto, new + tail, name, f"size {n}")
    vs = version(proto, v, kind, len(raw))
    for new in ("XXXX" + vs[4:], vs.lower(), vs[:4] + "30" + vs[6:], vs[:-1] + "-", vs + "A", vs[1:],
                vs.replace(kind, {"JSON": "CBOR", "CBOR": "MGPK", "MGPK": "JSON"}[kind]),
                vs.replace("CAACAA", "CAABAA"), vs.replace("CAACAA", "CAADAA"), vs.replace("CAACAA", "DAACAA"),
                {"KERI": "ACDC", "ACDC": "KERI"}[proto] + vs[4:], vs.replace("10", "11") if v == 1 else vs.replace("CAACAA", "CAQCAA")):
        if new != vs:
            pairs = [(lab, new if lab == "v" else val) for lab, val in sad.items()]
            refused(res, proto, forge(kind, pairs, proto, v, code), name, f"version {new}")
    # other type
    for t in [x for x in {*KERI1, *KERI2, *ACDC2, None, "xxx", ""} if x != ilk]:
        if "t" in sad:
            pairs = [(lab, t if lab == "t" else val) for lab, val in sad.items()]
            if t in TABLES[proto, v] and t is not None and allowed(proto, v, t, [p[0] for p in pairs]) or (v, t) in ((1, "ace"), (2, "ace")):
                continue
            refused(res, proto, forge(kind, pairs, proto, v, code), name, f"type {t}")
    # other serializations of the same fields
    def whole(p, how):
        lab = [enc(kind, a) for a, _ in p]
        val = [enc(kind, b) for _, b in p]
        if kind == "JSON":
            body = lambda c, k: c.join(a + k + b for a, b in zip(lab, val))
            if how == "spaced":
                return b"{" + body(b", ", b": ") + b"}"
            if how == "space at end":
                return b"{" + body(b",", b":") + b" }"
            if how == "newline":
                return b"{" + body(b",\n", b":") + b"}"
            if how == "escaped label":
                lab[-1] = b'"' + b"".join(b"\\u%04x" % c for c in lab[-1][1:-1]) + b'"'
                return b"{" + body(b",", b":") + b"}"
            if how == "escaped value":
                val[-1] = val[-1].replace(b'":"', b'":"', 1)
                val[1] = b'"' + b"".join(b"\\u%04x" % c for c in val[1][1:-1]) + b'"'
                return b"{" + body(b",", b":") + b"}"
            if how == "other before":
                return b"{" + lab[-1] + b":null," + body(b",", b":") + b"}"
        if kind == "CBOR":
            flat = b"".join(a + b for a, b in zip(lab, val))
            if how == "long head":
                return bytes([0xb8, len(p)]) + flat
            if how == "endless":
                return b"\xbf" + flat + b"\xff"
            if how == "long text":
                return bytes([0xa0 | len(p)]) + flat[:-len(lab[-1] + val[-1])] + b"\x78\x01" + lab[-1][1:] + val[-1]
            if how == "bytes":
                return bytes([0xa0 | len(p)]) + flat[:-len(lab[-1] + val[-1])] + b"\x41" + lab[-1][1:] + val[-1]
        if kind == "MGPK":
            flat = b"".join(a + b for a, b in zip(lab, val))
            if how == "long head":
                return b"\xde\x00" + bytes([len(p)]) + flat
            if how == "longer head":
                return b"\xdf\x00\x00\x00" + bytes([len(p)]) + flat
            if how == "long text":
                return enc(kind, p)[:1] + flat[:-len(lab[-1] + val[-1])] + b"\xd9\x01" + lab[-1][1:] + val[-1]
            if how == "bytes":
                return enc(kind, p)[:1] + flat[:-len(lab[-1] + val[-1])] + b"\xc4\x01" + lab[-1][1:] + val[-1]
    hows = dict(JSON=("spaced", "space at end", "newline", "escaped label", "escaped value", "other before"),
                CBOR=("long head", "endless", "long text", "bytes"), MGPK=("long head", "longer head", "long text", "bytes"))
    if len(sad) >= 24 or (kind != "JSON" and len(list(sad)[-1]) != 1):
        hows["CBOR"], hows["MGPK"] = ("long head", "endless"), ("long head", "longer head")
    if len(sad) >= 16:
        hows["MGPK"] = ("longer head",)
    for how in hows[kind]:
        try:
            new = forge(kind, list(sad.items()), proto, v, code, whole=lambda p: whole(p, how))
        except AssertionError:
            continue
        if new == raw:
            raise RuntimeError(how)
        refused(res, proto, new, name, f"serialized with {how}")


def new_said(raw, kind, lab):
    return json.loads(raw)[lab] if kind == "JSON" else dig(1)


def keyed(res, spec, name, sad):
    """identifiers that are a key, not a digest: allowed with that one key only, and if it cannot be rotated with nothing else"""
    proto, v, ilk, kind, code, drop = spec
    for pre in (key(1), key(2), S(1).signer.verfer.qb64 if hasattr(S(1), "signer") else key(1), wit(0), wit(1)):
        for kt, keys in (("1", [key(1)]), ("2", [key(1)]), ("0", [key(1)]), ("1", [key(1), key(2)]), ("1", [wit(0)]),
                         ("1", [wit(0), wit(1)]), ("1", []), (["1"], [key(1)])):
            for n, b, a in (([], [], []), ([dig(4)], [], []), ([], [wit(2)], []), ([], [], [dict(d=dig(22))])):
                d = dict(sad, i=pre, kt=kt, k=keys, nt="1" if n else "0", n=n, bt="1" if b else "0", b=b, a=a, c=[])
                good = keys == [pre] and kt == "1" and (pre[0] == "D" or not (n or b or a))
                raw = forge(kind, list(d.items()), proto, v, code)
                res.add("transitions")
                if (load(proto, raw) is not None) != good:
                    raise Violation(f"{name}:keyed:{pre}:{kt}:{keys}:{n}:{b}:{a}",
                                    f"{name}: inception of {pre} with {kt} of {keys}, next {n}, witnesses {b}, seals {a} "
                                    f"{'refused' if good else 'accepted'}", {"raw": raw})


def forgenative(res, spec, name, s, sad):
    proto, v, ilk, kind, code, drop = spec
    marks = saidive(proto, v, ilk)
    head, parts = items(s.raw.decode())
    mapped = head.lstrip("-")[0] == "G"
    step = 2 if mapped else 1
    if mapped:
        units = [tuple(parts[i:i + 2]) for i in range(0, len(parts), 2)]
    else:
        units = [(p,) for p in parts]
    if len(units) != len(sad):
        raise Violation(f"{name}:native", f"{name}: {len(units)} fields serialized of {len(sad)}: {s.raw!r}")
    dummy = "#" * SIZE[code]

    def send(us, what):
        text = refit(head, ["".join(u) for u in us])
        if marks:
            d = text.replace(s.said, dummy)
            text = d.replace(dummy, digest(code, d.encode()))
        if text.encode() != s.raw:
            refused(res, proto, text.encode(), name, what)
    labs = list(sad)
    for i in range(len(units)):
        if not (mapped and allowed(proto, v, ilk, [x for x in labs if x != labs[i]])):
            send(units[:i] + units[i + 1:], f"without {labs[i]}")
        send(units[:i] + [units[i]] + units[i:], f"{labs[i]} twice")
        for j in range(i + 1, len(units)):
            if THOROUGH or j == i + 1 or j == len(units) - 1:
                us = list(units)
                us[i], us[j] = us[j], us[i]
                if not mapped and (not marks or swappable(labs[i], labs[j], us[i][0], us[j][0])):
                    continue
                send(us, f"{labs[i]} and {labs[j]} exchanged")
    for extra in ("1AAK", "MAAB", "-JAA", dig(50), "-IAA"):
        if mapped:
            send(units + [("0J_z", extra)], f"{extra} added")
            send(units + [(extra,)], f"{extra} without label added")
        else:
            send(units + [(extra,)], f"{extra} added")
    # wrong sizes and frames
    t = s.raw.decode()
    c, n, fs = cesr.csplit(t, 2)
    for m in (0, n - 1, n + 1):
        refused(res, proto, (t[:2] + cesr.int64(m, 2) + t[4:]).encode() if fs == 4 else b"", name, f"count {m}")
    for letter in "ABCFGHIJK":
        if letter != t[1]:
            refused(res, proto, (t[0] + letter + t[2:]).encode(), name, f"frame {letter}")
    refused(res, proto, (f"--{t[1]}{cesr.int64(n, 5)}" + t[fs:]).encode(), name, "big frame")


def swappable(a, b, x, y):
    """two fields of one kind: exchanging their values gives another good message"""
    for kind in ("i di ri p x b rd td a A e r s", "s bt n", "kt nt bt s", "k n b br ba c", "r rr", "u rd td", "q a"):
        if a in kind.split() and b in kind.split():
            return True
    return False


def main(res):
    jobs = []
    for (proto, v), table in TABLES.items():
        for ilk in table:
            for kind in ("JSON", "CBOR", "MGPK") + (("CESR",) if v == 2 else ()):
                opts = [f[0] for f in fields(proto, v, ilk) if f[1]]
                alts = [f[0] for f in fields(proto, v, ilk) if f[2]]
                if not opts:
                    drops = [()]
                else:
                    free = [o for o in opts if o not in alts]
                    drops = [("A",), ("a",), ("a", "A"), tuple(free) + ("A",)] + [(f, "A") for f in free]
                    drops += [tuple(free[:k]) + ("a",) for k in range(1, len(free))] if THOROUGH else []
                    if ilk:
                        drops = [d for d in drops if "t" not in d]
                for drop in drops:
                    for code in DIGESTS if saidive(proto, v, ilk) else ("E",):
                        if code != "E" and not THOROUGH and (drop != drops[0] or (len(jobs) + len(code)) % 4):
                            continue
                        jobs.append((proto, v, ilk, kind, code, drop))
    explore_jobs(res, job, jobs)


def check():
    return run("C02", "model_checking", main)
