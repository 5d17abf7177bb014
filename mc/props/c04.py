"""Graduated disclosure.  A credential, its sections and their blocks have one said each, whatever of it is disclosed;
every disclosure verifies, and none that says something else, anywhere, does."""

import copy
import itertools

from .. import cesr
from ..kel import dig
from ..lib import THOROUGH, Violation, explore_jobs, pick, run
from .c02 import DIGESTS, Map, digest, enc, refit, version
from keri import kering
from keri.core import mapping, serdering

NONCE = "0AAxyHwW6htOZ_rANOaZb2N2"
KINDS = ("JSON", "CBOR", "MGPK", "CESR")
V2 = kering.Vrsn_2_0


# ------------------------------------------------------------ the reference
def word(t):
    """native text of up to four Base64 characters, or of others"""
    if all(c in cesr.B64 for c in t):
        if 1 <= len(t) <= 4:
            return ["0J_" + t, "0K" + t, "X" + t, "1AAF" + t][len(t) - 1]
    raise ValueError(t)


def native(x):
    if isinstance(x, dict):
        body = "".join(word(k) + (v if v[:1] == "#" else native(v)) if isinstance(v, str) else word(k) + native(v)
                       for k, v in x.items())
        return refit("-I", [body])
    if isinstance(x, list):
        return refit("-J", [y if isinstance(y, str) and y[0] == "#" else native(y) for y in x])
    if isinstance(x, bool) or x is None:
        return {None: "1AAK", True: "1AAM", False: "1AAL"}[x]
    if isinstance(x, int):
        t = str(x)
        raise ValueError(x)
    if len(x) in (44, 88, 24):
        return x
    return word(x)


def ser(kind, x):
    return native(x).encode() if kind == "CESR" else enc(kind, x)


def dummied(block, label="d"):
    return {k: "#" * len(v) if k == label else v for k, v in block.items()}


def says(kind, block, code="E", label="d"):
    """said of a block whose nested blocks are compact"""
    d = {k: "#" * (44 if len(code) == 1 else 88) if k == label else v for k, v in block.items()}
    return digest(code, ser(kind, d))


def code_of(v):
    return "E" if not v else v[:2] if v[0] == "0" else v[0]


def saidive(x):
    return isinstance(x, dict) and ("d" in x or any(saidive(v) for v in x.values()))


def compact(kind, block):
    """the block with all blocks in it compact, and itself with its said"""
    new = {}
    for k, v in block.items():
        if isinstance(v, dict) and saidive(v):
            v = compact(kind, v)
            if "d" in v:
                v = v["d"]
        new[k] = v
    if "d" in new:
        new["d"] = says(kind, new, code_of(block["d"]))
    return new


def forms(kind, block, top=True):
    """every disclosure of the block, with the right saids in it"""
    keys = list(block)
    said = compact(kind, block).get("d")
    opts = []
    for k in keys:
        v = block[k]
        if isinstance(v, dict) and saidive(v):
            opts.append(list(forms(kind, v, False)))
        else:
            opts.append([said if k == "d" else v])
    for combo in itertools.product(*opts):
        yield dict(zip(keys, combo))
    if not top and "d" in block:
        yield said


def unfilled(x):
    return {k: "" if k == "d" else unfilled(v) for k, v in x.items()} if isinstance(x, dict) else x


def blocks(x, path=""):
    """(path, block) of every block with a said"""
    if "d" in x:
        yield path, x
    for k, v in x.items():
        if isinstance(v, dict):
            yield from blocks(v, path + "." + k)


def leaves(x, path=()):
    for k, v in x.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,)


# ------------------------------------------------------------ shapes
def shapes():
    """blocks of up to three levels, with and without saids in between"""
    low = [{"d": "", "x": "p"}, {"x": "p"}]
    mid = list(low)
    for d in (True, False):
        for a in low:
            for b in [None] + low:
                m = {"d": ""} if d else {}
                m["x"] = "q"
                m["m"] = a
                if b:
                    m["n"] = dict(b, x="r")
                mid.append(m)
    for a in mid:
        for b in [None] + mid:
            t = {"d": "", "u": NONCE, "m": a}
            if b:
                t["n"] = dict(b, y="s")
            yield t
    yield {"d": "", "x": "p"}
    yield {"x": "p", "d": "", "m": {"y": "p", "d": ""}}                         # said not first
    yield {"d": "", "m": {"n": {"o": {"d": "", "m": {"d": "", "x": "p"}}}}}     # deep, said below blocks without
    yield {"d": "", "m": {"d": "", "m": {"d": "", "m": {"d": "", "m": {"d": "", "x": "p"}}}}}
    yield {"d": "", "m": {"d": "", "x": "p"}, "n": {"d": "", "x": "p"}}         # equal blocks
    yield {"d": "", "m": ["p", "q", {"x": "p", "d": dig(60)}], "n": {}}         # lists are values
    yield {"d": "", "m": {"d": "", "x": None, "y": True, "z": [False, []]}}
    for code in ("F", "H", "I", "0D", "0G"):
        n = 44 if len(code) == 1 else 88
        fake = code + "A" * (n - len(code))
        norm = "E" + "A" * 43       # codes given for all, as those not filled in may take one used before
        yield {"d": norm, "m": {"d": fake, "x": "p"}}
        yield {"d": fake, "m": {"d": norm, "x": "p"}, "n": {"d": fake, "x": "p", "m": {"d": norm, "x": "p"}}}


SHAPES = list(shapes())


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    x = copy.deepcopy(x)
    get(x, path[:-1])[path[-1]] = v
    return x


def drop(x, path):
    x = copy.deepcopy(x)
    del get(x, path[:-1])[path[-1]]
    return x


# ------------------------------------------------------------ blocks
def bad(key, what, **kwa):
    raise Violation(key, what[:1500], kwa)


def sector(res, spec):
    kind, n = spec
    shape = SHAPES[n]
    name = f"{kind}:{n}"
    res.add("states")
    comp = compact(kind, shape)
    c = mapping.Compactor(mad=copy.deepcopy(shape), makify=True, compactify=True, kind=kind)
    res.add("traces_validated_against_impl")
    if (c.said, c.mad) != (comp["d"], comp) or not c.iscompact:
        bad(f"{name}:compact", f"{shape} compacts to {c.mad}, must be {comp}")
    want = {p: compact(kind, b)["d"] for p, b in blocks(shape)}
    got = {p: leaf.said for p, leaf in c.leaves.items()}
    if got != want:
        bad(f"{name}:leaves", f"{shape}: saids of its blocks {got}, must be {want}")
    allforms = list(forms(kind, shape))
    for idx, part in c.partials.items():
        if part.mad not in allforms + [comp]:
            bad(f"{name}:partial", f"{shape}: partial {idx} is {part.mad}, no disclosure of it")
    if allforms[0] not in [p.mad for p in c.partials.values()]:
        bad(f"{name}:full", f"{shape}: full disclosure {allforms[0]} not among {list(c.partials)}")
    for form in allforms:
        for given in (form,) if shape["d"] else (form, unfilled(form)):
            res.add("transitions")
            c = mapping.Compactor(mad=copy.deepcopy(given), makify=True, kind=kind)
            c.compact()
            if c.said != comp["d"] or c.mad != comp:
                bad(f"{name}:form", f"disclosure {given} of {comp['d']} compacts to {c.mad}")


# ------------------------------------------------------------ credentials
def acdc(kind, ilk, sections):
    """the expected said of the credential with these sections, and its fields"""
    labels = ("v", "t", "d", "u", "i", "rd", "s", "a", "A", "e", "r")
    sad = dict(v="", t=ilk, d="", u=NONCE, i=dig(2), rd=dig(15), s=dig(10))
    if not ilk:
        del sad["t"]
    sad.update(sections)
    return {k: sad[k] for k in labels if k in sad}


def top(kind, sad):
    """said of a credential with all its sections compact"""
    sad = dict(sad, d="#" * 44)
    if kind == "CESR":
        ilk = sad.get("t")
        parts = []
        for k, v in sad.items():
            if not ilk or ilk in ("acm",):
                parts.append(word(k))
            if k == "v":
                parts.append("0OACDCCAACAA")
            elif k == "t":
                parts.append("X" + v)
            elif k == "u" or k == "rd":
                parts.append(v)
            elif isinstance(v, str):
                parts.append(v)
            else:
                parts.append(native(v))
        return digest("E", refit("-F" if ilk in ("act", "acg") else "-G", parts).encode())
    sad["v"] = version("ACDC", 2, kind, len(enc(kind, dict(sad, v="#" * 19))))
    return digest("E", enc(kind, sad))


def build(kind, ilk, sad, **kwa):
    return serdering.SerderACDC(sad=copy.deepcopy(sad), makify=True, proto="ACDC", pvrsn=V2, gvrsn=V2, kind=kind, ilk=ilk, **kwa)


def reads(raw):
    try:
        return serdering.SerderACDC(raw=raw)
    except Exception:
        return None


def aslist(kind, elements):
    """an aggregate list: (list with saids, its said)"""
    atoms = [compact(kind, e) if isinstance(e, dict) else e for e in elements]
    agid = digest("E", ser(kind, ["#" * 44] + [a["d"] if isinstance(a, dict) else a for a in atoms]))
    return [agid] + atoms, agid


def settings(n, deep):
    """(ilk, sections expanded, their compact forms): the n-th shape in each section it can be in"""
    shape = SHAPES[n]
    out = []
    for lab in ("a", "e", "r"):
        for ilk in (None, "acm", "act", "acg"):
            if ilk == "acg" and lab == "a" or (not deep and (ilk, lab) not in ((None, "a"), ("acm", "e"), ("act", "r"), ("acg", "e"))):
                continue
            rest = {"a": dig(11), "A": dig(12), "e": dig(13), "r": dig(14)}
            rest.pop("a" if ilk == "acg" else "A")
            out.append((ilk, lab, rest))
    return out


def credential(res, spec):
    kind, n, deep = spec
    shape = SHAPES[n]
    comp = compact(kind, shape)
    allforms = list(forms(kind, shape)) + [comp["d"]]
    for ilk, lab, rest in settings(n, deep):
        name = f"{kind}:{ilk}:{lab}:{n}"
        want = top(kind, acdc(kind, ilk, {**rest, lab: comp["d"]}))
        for m, form in enumerate(allforms):
            res.add("states")
            res.add("traces_validated_against_impl")
            sad = acdc(kind, ilk, {**rest, lab: form})
            s = build(kind, ilk, sad)
            if s.said != want:
                bad(f"{name}:said", f"credential with {lab} disclosed as {form} has said {s.said}, must be {want}")
            t = reads(s.raw)
            if t is None or (t.said, t.sad, t.raw) != (s.said, s.sad, s.raw) or t.sad[lab] != form:
                bad(f"{name}:read", f"credential with {lab} disclosed as {form} is made as {s.raw!r} but not read as that")
            c = build(kind, ilk, sad, compactify=True)
            if c.said != want or c.sad[lab] != comp["d"]:
                bad(f"{name}:compactify", f"credential with {lab}={form} compactifies to {c.sad}, must be {want} with {comp['d']}")
            if isinstance(form, dict) and (deep or m in (0, len(allforms) // 2)):
                tamper(res, name, kind, ilk, s, lab, form)
            if (deep or m == 0) and n % pick(40, 12) == 0:
                raw = bytearray(s.raw)
                for i in range(0, len(raw), pick(3, 2)):
                    for x in pick((1 << (i % 7),), (1, 2, 4, 8, 16, 32, 64)):
                        res.add("transitions")
                        raw[i] ^= x
                        t = reads(bytes(raw))
                        if t is not None:
                            bad(f"{name}:flip", f"credential {s.raw!r} with byte {i} changed by {x:#x} accepted: {bytes(raw)!r}")
                        raw[i] ^= x


def tamper(res, name, kind, ilk, s, lab, form):
    """every value and said in the disclosed block changed, removed or added to, the said of all kept"""
    for path in leaves(form):
        old = get(form, path)
        news = [dig(70), "q" if old != "q" else "p", ["p"], {"x": "p"}, {"d": "", "x": "p"}]
        if isinstance(old, str) and old:
            news.append(old[:-1] + ("A" if old[-1] != "A" else "B"))
        if path[-1] == "d":     # not filled in yet is allowed
            news = [x for x in news if x and isinstance(x, str)] + ["Z", "BAAA"]
        for new in news:
            if right(kind, put(form, path, new), compact(kind, form)["d"]):
                continue
            refuse(res, name, kind, ilk, s, lab, put(form, path, new), f"{'.'.join(path)} replaced by {new}")
        if path[-1] != "d" or len(path) == 1:
            refuse(res, name, kind, ilk, s, lab, drop(form, path), f"{'.'.join(path)} removed")
        refuse(res, name, kind, ilk, s, lab, put(form, path[:-1] + ("zz",), "p"), f"value added at {'.'.join(path[:-1])}")
        refuse(res, name, kind, ilk, s, lab, put(form, path[:-1] + ("zd",), {"d": dig(71)}), f"block added at {'.'.join(path[:-1])}")


def right(kind, new, said):
    """this is a disclosure of the section with this said"""
    if not isinstance(new, dict) or "d" not in new:
        return new == said
    try:
        comp = compact(kind, new)
    except (ValueError, KeyError, TypeError, IndexError):
        return False
    return comp["d"] == said and all(b["d"] in ("", compact(kind, b)["d"]) for _, b in blocks(new))


def refuse(res, name, kind, ilk, s, lab, new, what):
    """the same credential with the section replaced, serialized by the code but not verified by it"""
    res.add("transitions")
    sad = dict(s.sad)
    sad[lab] = copy.deepcopy(new)
    try:
        raw = serdering.SerderACDC(sad=copy.deepcopy(sad), verify=False).raw
        if kind != "CESR":      # with its right size
            sad["v"] = version("ACDC", 2, kind, len(raw))
            raw = serdering.SerderACDC(sad=copy.deepcopy(sad), verify=False).raw
    except Exception:
        return
    t = reads(raw)
    if t is not None:
        bad(f"{name}:{what}", f"credential {s.said} with {lab} {what}: {t.sad[lab]} accepted as {t.said}", raw=raw)
    try:
        t = serdering.SerderACDC(sad=copy.deepcopy(sad))
    except Exception:
        return
    bad(f"{name}:{what}:fields", f"credential {s.said} with {lab} {what}: {t.sad[lab]} accepted from fields")


# ------------------------------------------------------------ two sections at once, schema, aggregates
def several(res, spec):
    kind, ilk, na, ne, nr = spec
    secs = {"a": SHAPES[na], "e": SHAPES[ne], "r": SHAPES[nr]}
    schema = {"$id": "", "x": "p", "m": {"y": ["p"]}} if kind != "CESR" else None
    comps = {k: compact(kind, v)["d"] for k, v in secs.items()}
    opts = {k: [next(iter(forms(kind, v))), comps[k]] for k, v in secs.items()}
    if schema:
        comps["s"] = digest("E", enc(kind, dict(schema, **{"$id": "#" * 44})))
        opts["s"] = [dict(schema, **{"$id": comps["s"]}), comps["s"]]
    want = top(kind, acdc(kind, ilk, comps))
    for combo in itertools.product(*opts.values()):
        res.add("states")
        res.add("transitions")
        sad = acdc(kind, ilk, dict(zip(opts, combo)))
        s = build(kind, ilk, sad)
        t = reads(s.raw)
        name = f"{kind}:{ilk}:several"
        if s.said != want or t is None or t.sad != s.sad:
            bad(f"{name}:{[isinstance(x, str) for x in combo]}", f"disclosing {sad} gives {s.said}, must be {want}, and reads as {t}")
        if schema and isinstance(sad["s"], dict):
            for new in (dict(sad["s"], x="q"), dict(sad["s"], **{"$id": dig(72)}), dict(sad["s"], z="p"),
                        {k: v for k, v in sad["s"].items() if k != "x"}, dict(sad["s"], m={"y": ["q"]})):
                refuse(res, name, kind, ilk, s, "s", new, f"schema {new}")


def aggregate(res, spec):
    kind, n = spec
    pool = [{"d": "", "u": NONCE, "x": "p"}, {"d": "", "x": "q", "m": {"y": "p"}}, dig(80), {"d": "", "x": "p"}]
    for size in range(n + 1):
        for elements in itertools.product(pool, repeat=size):
            name = f"{kind}:agg:{[pool.index(e) for e in elements]}"
            full, agid = aslist(kind, elements)
            res.add("states")
            res.add("traces_validated_against_impl")
            a = mapping.Aggor(ael=[""] + copy.deepcopy(list(elements)), makify=True, kind=kind)
            if (a.agid, a.ael) != (agid, full):
                bad(f"{name}:made", f"aggregate of {elements} is {a.ael}, must be {full}")
            for how in ("list", "raw"):
                b = mapping.Aggor(ael=copy.deepcopy(full), kind=kind) if how == "list" else mapping.Aggor(raw=a.raw, kind=kind)
                if (b.agid, b.ael, b.raw) != (agid, full, a.raw):
                    bad(f"{name}:read", f"aggregate {full} reads from {how} as {b.ael}")
            sections = {"A": full, "e": dig(13), "r": dig(14)}
            comp = acdc(kind, "acg", {**sections, "A": agid})
            want = top(kind, comp)
            for shown in itertools.product((False, True), repeat=size):
                ids = [i + 1 for i, x in enumerate(shown) if x]
                ael, k = a.disclose(ids)
                exp = [agid] + [(e if ids.count(i + 1) or isinstance(e, str) else e["d"]) for i, e in enumerate(full[1:])]
                res.add("transitions")
                if ael != exp or k != kind or not mapping.Aggor.verifyDisclosure(ael, kind):
                    bad(f"{name}:disclose:{ids}", f"aggregate {full} disclosing {ids} gives {ael}")
                s = build(kind, "acg", acdc(kind, "acg", {**sections, "A": ael}))
                t = reads(s.raw)
                if s.said != want or t is None or t.sad != s.sad:
                    bad(f"{name}:acdc:{ids}", f"credential with aggregate disclosed as {ael} has said {s.said}, must be {want}")
                for i in range(len(ael)):
                    for new in (dig(81), dict(full[i], x="z") if isinstance(full[i], dict) else None,
                                dict(full[i], d=dig(82)) if isinstance(full[i], dict) else None, pool[0], compact(kind, pool[3])):
                        if new is None or new == full[i] or (isinstance(full[i], dict) and new == full[i]["d"]):
                            continue
                        fake = ael[:i] + [new] + ael[i + 1:]
                        if isinstance(new, dict) and not new["d"]:
                            continue
                        if isinstance(new, dict) and i and new["d"] == (full[i]["d"] if isinstance(full[i], dict) else full[i]) \
                                and new == compact(kind, new):
                            continue
                        if mapping.Aggor.verifyDisclosure(copy.deepcopy(fake), kind):
                            bad(f"{name}:fake:{ids}:{i}", f"disclosure {fake} of {full} accepted")
                        refuse(res, name, kind, "acg", s, "A", fake, f"aggregate {fake}")
                for fake in (ael[:-1], ael + [dig(83)], ael[::-1], ael[:1] + ael[2:] + ael[1:2]):
                    if fake and fake != ael and len(fake) > 0 and not same(fake, ael):
                        if mapping.Aggor.verifyDisclosure(copy.deepcopy(fake), kind):
                            bad(f"{name}:fake:{ids}:{len(fake)}", f"disclosure {fake} of {full} accepted")
                        refuse(res, name, kind, "acg", s, "A", fake, f"aggregate {fake}")


def same(a, b):
    f = lambda x: [e["d"] if isinstance(e, dict) else e for e in x]
    return f(a) == f(b)


def part(res, spec):
    {"s": sector, "c": credential, "m": several, "a": aggregate}[spec[0]](res, spec[1:])


def main(res):
    jobs = [("a", kind, pick(1, 3)) for kind in KINDS]
    for kind in KINDS:
        for n in range(len(SHAPES)):
            jobs.append(("s", kind, n))
            if THOROUGH or ((n + 7 * KINDS.index(kind)) % 24 == 0 or n >= len(SHAPES) - 17):
                jobs.append(("c", kind, n, THOROUGH))
        for ilk in (None, "acm", "act"):
            for na, ne, nr in ((0, 30, -1 % len(SHAPES)), (40, 3, 100), (120, 210, 211)):
                jobs.append(("m", kind, ilk, na, ne, nr))
    explore_jobs(res, part, jobs)


def check():
    return run("C04", "model_checking", main)
