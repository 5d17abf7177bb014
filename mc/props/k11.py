"""The stream parser.  Streams framed by hand from known bodies and known attachments; whatever the way they are cut
into pieces on arrival, the processors must be handed exactly the messages that were sent, each once, in order, with
exactly its attachments; and a damaged message costs no more than its own frame."""

import base64
import json

from ..kel import Clock, S, W, b64n, cig, dig, huge, icp, ixn, key, make, rct, sig, wig, wit, kering, coring, serdering
from ..lib import THOROUGH, Violation, explore_jobs, pick, run
from keri.core import parsing

V1, V2 = kering.Vrsn_1_0, kering.Vrsn_2_0
DT = "1AAG2021-06-27T21c26c21d233257p00c00"

CODES = {1: dict(sigers="A", wigers="B", cigars="C", rsgs="D", frcs="E", tsgs="F", sscs="G", lsgs="H", ssts="I",
                 ptds="L", essrs="Z", generic="T", message="U", attach="V", texted="W"),
         2: dict(generic="A", message="B", attach="C", fixed="F", mapped="G", texted="H", sigers="K", wigers="L",
                 cigars="M", rsgs="N", frcs="O", ptds="P", sscs="S", ssts="T", tdcs="W", tsgs="X", lsgs="Y",
                 essrs="Z", bsqs="a", bsss="b", tmqs="c")}
BYCOUNT = {"sigers", "wigers", "cigars", "frcs", "tsgs", "sscs", "lsgs", "ssts", "essrs"}      # of version 1
BIG1 = {"ptds", "essrs", "generic", "message", "attach", "texted"}


def ctr(v, name, n, big=False):
    return f"--{CODES[v][name]}{b64n(n, 5)}" if big else f"-{CODES[v][name]}{b64n(n, 2)}"


def genus(v):
    return "-_AAA" + b64n(v, 1) + b64n(0, 2)


def bny(text):
    return base64.urlsafe_b64decode(text)


def group(v, name, items, big=False):
    """items: texts of the elements"""
    body = "".join(items)
    n = len(items) if v == 1 and name in BYCOUNT else len(body) // 4
    return ctr(v, name, n, big) + body


def frame(v, name, content, big=False):
    return ctr(v, name, len(content) // 4, big) + content


def text(b):
    """as variable length bytes primitive"""
    b = b.encode() if isinstance(b, str) else b
    lead = -len(b) % 3
    sel = {0: "4B", 1: "5B", 2: "6B"}[lead]
    return sel + b64n((len(b) + lead) // 3, 2) + base64.urlsafe_b64encode(bytes(lead) + b).decode()


# ------------------------------------------------------------ bodies
def body(n, kind="JSON", v=1, ilk="ixn"):
    """message body number n"""
    pv = "10" if v == 1 else "CAA"
    vs = f"KERI10{kind}000000_" if v == 1 else f"KERICAACAA{kind}AAAA."
    pre, dt = icp([n + 1], [n + 2]).pre, "2021-06-27T21:26:21.233257+00:00"
    if ilk == "ixn":
        sad = dict(v=vs, t="ixn", d="", i=pre, s="%x" % (n + 1), p=dig(n + 3), a=[])
    elif ilk == "rct":
        sad = dict(v=vs, t="rct", d=dig(n), i=pre, s="%x" % n)
    elif ilk == "rpy":
        sad = dict(v=vs, t="rpy", d="", dt=dt, r="/x", a=dict(n=n))
    elif ilk == "qry":
        sad = dict(v=vs, t="qry", d="", dt=dt, r="logs", rr="", q=dict(i=pre))
    elif ilk == "exn":
        sad = dict(v=vs, t="exn", d="", i=pre, rp="", p="", dt=dt, r="/x", q={}, a=dict(n=n), e={})
    elif ilk == "iss":
        sad = dict(v=vs, t="iss", d="", i=dig(n), s="0", ri=dig(n + 5), dt=dt)
    elif ilk == "acdc":
        sad = dict(v=vs.replace("KERI", "ACDC"), d="", i=pre, ri=dig(n + 5), s=dig(n + 6), a=dict(d=dig(7), x=n))
        return serdering.SerderACDC(sad=sad, makify=True)
    if v == 2 and ilk in ("rpy", "qry", "exn"):
        sad.pop("rp", None)
        sad = {k: sad[k] for k in ("v", "t", "d")} | dict(i=pre) | {k: x for k, x in sad.items() if k not in "vtd"}
        if ilk == "exn":
            sad = dict(v=vs, t="exn", d="", i=pre, ri=wit(1), x=dig(n + 8), p=dig(n + 9), dt=dt, r="/x", q={}, a=dict(n=n))
    return make(**sad)


TAKES = dict(ixn=("kvy", "processEvent"), rct=("kvy", "processReceipt"), rpy=("rvy", "processReply"),
             qry=("kvy", "processQuery"), exn=("exc", "processEvent"), iss=("tvy", "processEvent"),
             acdc=("vry", "processACDC"))


def takes(v, ilk):
    return ("kvy", "processMsg") if v == 2 and ilk in ("rpy", "qry", "exn") else TAKES[ilk]


# ------------------------------------------------------------ attachments: text of elements and what they mean
def elements(v, name, ev, n):
    """n elements: [(text, meaning)]"""
    out = []
    nonce, label = huge(98765), "Xabc"
    for i in range(n):
        sg = sig(ev, 5 + i, i).qb64
        two = [sig(ev, 7 + i, 0).qb64, sig(ev, 8 + i, 1).qb64]
        grp = (ctr(1, "sigers", 2) if v == 1 else frame(2, "sigers", "".join(two)).split(two[0])[0]) + "".join(two)
        pre, sn, d = dig(20 + i), huge(i + 1), dig(21 + i)
        if name == "sigers":
            out.append((sg, sg))
        elif name == "wigers":
            wg = wig(ev, 5 + i, i).qb64
            out.append((wg, wg))
        elif name == "cigars":
            c = cig(ev, 5 + i)
            out.append((c.verfer.qb64 + c.qb64, (c.verfer.qb64, c.qb64)))
        elif name in ("rsgs", "tsgs"):
            out.append((pre + sn + d + grp, (pre, sn, d, tuple(two))))
        elif name == "lsgs":
            out.append((pre + grp, (pre, tuple(two))))
        elif name == "frcs":
            out.append((sn + DT, (sn, DT)))
        elif name == "sscs":
            out.append((sn + d, (sn, d)))
        elif name == "ssts":
            out.append((pre + sn + d, (pre, sn, d)))
        elif name == "tdcs":
            vr = coring.Verser(proto=kering.Protocols.keri, pvrsn=V2).qb64
            out.append((vr + d, (vr, d)))
        elif name == "essrs":
            t = text("payload" + "x" * i)
            out.append((t, t))
        elif name == "ptds":
            t = text("path" + "y" * i) + sg
            out.append((t, t))
        elif name == "bsqs":
            out.append((d + nonce + pre + label, (d, nonce, pre, label)))
        elif name == "bsss":
            out.append((d + nonce + pre + label + sn + d, (d, nonce, pre, label, sn, d)))
        elif name == "tmqs":
            t = text("media" + "z" * i)
            out.append((d + nonce + label + t, (d, nonce, label, t)))
    return out


FIELDS = ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss",
          "tmqs", "essrs", "ptds")


def plain(name, x):
    if isinstance(x, (list, tuple)):
        return tuple(plain("", y) for y in x)
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if name == "cigars":
        return (x.verfer.qb64, x.qb64)
    return x.qb64


class Taker:
    """stands in for a processor and notes what it is handed"""

    def __init__(self, name, calls):
        self.name, self.calls = name, calls

    def __getattr__(self, method):
        if method.startswith("__"):
            raise AttributeError(method)

        def take(**kwa):
            kwa = kwa.get("kwa", kwa)
            sd = kwa.get("serder") or kwa.get("creder")
            self.calls.append((self.name, method, bytes(sd.raw), kwa.get("local"),
                               {f: [plain(f, x) for x in kwa[f]] for f in FIELDS if kwa.get(f)}))
        return take


class Msg:
    """one message as sent, and the call it must lead to"""

    def __init__(self, ev, v, ilk, atts, domain="txt", wrap=None, big=False, inner=False, form="plain", kind="JSON",
                 pv=None):
        """atts: [(name, count)]; wrap: how it is framed; pv: version around the outermost frame"""
        pv = pv or v
        self.ev, self.v, self.ilk = ev, v, ilk
        self.want = {}
        groups = []
        for name, n in atts:
            els = elements(v, name, ev, n)
            if els and name == "ptds":
                self.want.setdefault(name, []).append("".join(t for t, _ in els))
            else:
                self.want.setdefault(name, []).extend(m for _, m in els)
            groups.append(group(v, name, [t for t, _ in els], big and (v == 2 or name in BIG1)))
        enc = bny if domain == "bny" else (lambda t: t.encode())
        att = "".join(groups)
        bodytext = None
        if form == "texted":         # body as text primitive within a group
            bodytext = frame(v, "texted", text(ev.raw), big)
        elif form == "native":
            bodytext = ev.raw.decode()
        if inner and wrap and wrap.endswith("attach"):       # version stated within the frame
            att = genus(v) + att
        if wrap in ("attach", "generic+attach", "message+attach"):
            att = frame(pv if wrap == "attach" else v, "attach", att, big)
        if wrap in ("message", "generic+message", "message+attach"):
            self.text = frame(pv if not wrap.startswith("generic") else v, "message",
                              (genus(v) if inner else "") + bodytext + att, big)
            self.wire = enc(self.text)
        else:
            self.text = bodytext and bodytext + att
            self.wire = enc(bodytext + att) if bodytext else bytes(ev.raw) + enc(att)
        if wrap in ("generic+attach", "generic+message"):
            self.wire = enc(frame(pv, "generic", (genus(v) if inner else "") + self.text, big))
        self.domain = domain
        self.inside = 0              # where the content of its outermost frame begins, if there is one
        if wrap:
            b = 0 if wrap != "attach" else len(ev.raw) if bodytext is None else len(enc(bodytext))
            c = (8 if big else 4) if wrap == "attach" or domain == "txt" else (6 if big else 3)
            self.inside = b + (c if domain == "txt" else c * 3 // 4 if wrap == "attach" else c)

    def call(self, local):
        if self.v == 1 and self.ilk == "qry" and self.want.get("lsgs"):      # of the last one
            self.want["sigers"] = list(self.want["lsgs"][-1][1])
        want = {k: [x.encode() if k == "ptds" and self.domain == "txt" else bny(x) if k == "ptds" else x for x in v]
                for k, v in self.want.items() if v}
        return (*takes(self.v, self.ilk), bytes(self.ev.raw), local, want)


class Line:
    """a parser with processors, fed piece by piece"""

    def __init__(self, v, framed, local=False):
        self.calls = []
        t = {n: Taker(n, self.calls) for n in ("kvy", "tvy", "exc", "rvy", "vry")}
        self.p = parsing.Parser(ims=bytearray(), framed=framed, local=local, version=V1 if v == 1 else V2, **t)
        self.gen = None

    def whole(self, stream, local=False):
        self.p.ims.extend(stream)
        self.p.parse(local=local)
        return self.mine()

    def mine(self):
        """the calls for messages, not the ones for attached receipts"""
        return [c for c in self.calls if not c[1].startswith("processAttached")]

    def pieces(self, stream, cuts, local=False):
        if self.gen is None:
            self.gen = self.p.parsator(local=local)
        at = 0
        for c in list(cuts) + [len(stream)]:
            self.p.ims.extend(stream[at:c])
            at = c
            idle, before = 0, None
            while idle < 3:
                next(self.gen)
                now = (len(self.p.ims), len(self.calls))
                idle = idle + 1 if now == before else 0
                before = now
        return self.mine()


def diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            for n, x, y in zip(("processor", "method", "body", "local", "attachments"), a, b):
                if x != y:
                    return f"call {i + 1}: {n} is {x!r}, must be {y!r}"
    return f"{len(got)} calls, must be {len(want)}"


NEED = dict(ixn=[("sigers", 1)], rct=[("cigars", 1)], rpy=[("cigars", 1)], qry=[("lsgs", 1)], exn=[("tsgs", 1)],
            iss=[("sscs", 1)], acdc=[("ssts", 1)])


def configs():
    """every kind of message and attachment in every framing"""
    out = []
    for v in (1, 2):
        for name in CODES[v]:
            if name in ("generic", "message", "attach", "texted", "fixed", "mapped"):
                continue
            for n in (1, 2):
                out.append(dict(v=v, ilk="ixn", atts=[("sigers", 1), (name, n)] if name != "sigers" else [(name, n)]))
            out.append(dict(v=v, ilk="ixn", atts=[(name, 1), ("sigers", 2), (name, 1)], big=True))
        for ilk in TAKES:
            if v == 1 or ilk in ("ixn", "rct", "qry", "rpy", "exn"):
                out.append(dict(v=v, ilk=ilk, atts=NEED[ilk]))
        out.append(dict(v=v, ilk="ixn", atts=[("sigers", 1), ("wigers", 2), ("cigars", 1), ("sscs", 1), ("frcs", 1)]))
        out.append(dict(v=v, ilk="iss" if v == 1 else "rpy", atts=[]))
    frames = []
    for c in out:
        for domain in ("txt", "bny"):
            for wrap in (None, "attach"):
                for kind in ("JSON", "CBOR", "MGPK") if c["atts"] == NEED.get(c["ilk"]) else ("JSON",):
                    frames.append(c | dict(domain=domain, wrap=wrap, form="plain", kind=kind))
            frames.append(c | dict(domain=domain, wrap="attach", form="plain", inner=True))
            for wrap in (None, "attach", "message", "message+attach", "generic+attach", "generic+message"):
                frames.append(c | dict(domain=domain, wrap=wrap, form="texted"))
                if c["v"] == 2 and c["ilk"] in ("ixn", "rct", "qry", "rpy", "exn"):
                    frames.append(c | dict(domain=domain, wrap=wrap, form="native"))
            frames.append(c | dict(domain=domain, wrap="generic+message", form="texted", inner=True))
            frames.append(c | dict(domain=domain, wrap="message", form="texted", inner=True))
            if not c.get("big") and max([n for _, n in c["atts"]], default=1) == 1:
                other = c | dict(domain=domain, inner=True, pv=3 - c["v"])
                if c["v"] == 1:      # a stream may hold bodies of its own and of lower versions
                    frames.append(other | dict(wrap="attach", form="plain"))
                for wrap in ("message", "generic+message"):
                    frames.append(other | dict(wrap=wrap, form="texted"))
                    if c["v"] == 2 and c["ilk"] in ("ixn", "rct", "qry", "rpy", "exn"):
                        frames.append(other | dict(wrap=wrap, form="native"))
    return frames


def build(c, n=0):
    kind = "CESR" if c.get("form") == "native" else c.get("kind", "JSON")
    ev = body(n, kind, c["v"], c["ilk"])
    return Msg(ev, c["v"], c["ilk"], c["atts"], c.get("domain", "txt"), c.get("wrap"), c.get("big", False),
               c.get("inner", False), c.get("form", "plain"), kind, c.get("pv"))


def show(c):
    return f"v{c['v']} {c['ilk']} {c['form']} {c.get('kind', '')} attachments {c['atts']} in {c['domain']}" \
           f" framed {c['wrap']}{' big' if c.get('big') else ''}{' versioned' if c.get('inner') else ''}{' in stream of v%d' % c['pv'] if c.get('pv') else ''}"


def whole(res, spec):
    """framed streams of one, and of three messages, of every kind"""
    Clock().install()
    for c in spec:
        for around in (False, True):
            for local in (False, True):
                ms = [build(c, 0)]
                if around:
                    side = dict(v=c.get("pv") or c["v"], ilk="ixn", atts=[("sigers", 1)], form="plain", wrap=None)
                    ms = [build(side, 3), *ms, build(c, 5), build(side, 4)]
                got = Line(c.get("pv") or c["v"], True).whole(b"".join(m.wire for m in ms), local)
                want = [m.call(local) for m in ms]
                res.add("states")
                res.add("transitions", len(ms))
                if got != want:
                    raise Violation(f"whole:{show(c)}:{around}", f"{show(c)}, {len(ms)} messages: {diff(got, want)}")


def hollow(res, spec):
    """groups with nothing inside cost no more than themselves"""
    Clock().install()
    for v, kind, domain, feed in spec:
        side = dict(v=v, ilk="ixn", atts=[("sigers", 1)], form="plain", wrap="attach")
        m1, m2 = build(side, 3), build(side, 4)
        kind, _, inside = kind.partition("+")
        empty = frame(v, kind, genus(v) if inside else "")
        empty = bny(empty) if domain == "bny" else empty.encode()
        for n in (1, 2):
            stream = m1.wire + empty * n + m2.wire
            line = Line(v, feed == "whole")
            got = line.whole(stream) if feed == "whole" else line.pieces(stream, range(1, len(stream)))
            res.add("states")
            res.add("transitions", 2)
            if got != [m1.call(False), m2.call(False)]:
                raise Violation(f"hollow:{v}:{kind}:{domain}:{feed}", f"{n} empty {kind} groups of version {v} in "
                                f"{domain} between two messages: {diff(got, [m1.call(False), m2.call(False)])}")


def cutting(res, spec):
    """streams in pieces"""
    Clock().install()
    for c, cuts in spec:
        side = dict(v=c.get("pv") or c["v"], ilk="ixn", atts=[("sigers", 1)], form="plain", wrap="attach")
        ms = [build(c, 0), build(side, 3)]
        stream = b"".join(m.wire for m in ms)
        want = [m.call(False) for m in ms]
        if cuts == "bytes":
            plans = [range(1, len(stream))]
        elif cuts == "singles":
            plans = [(i,) for i in range(1, len(stream))]
        elif cuts == "coarse":
            plans = [(i,) for i in range(1, len(stream), 11)] + [range(1, len(stream))]
        else:
            plans = [(i, j) for i in range(2, len(stream), cuts) for j in range(i + 1, len(stream), cuts)]
        for plan in plans:
            got = Line(c.get("pv") or c["v"], False).pieces(stream, plan)
            res.add("states")
            res.add("transitions", len(plan) + 1)
            if got != want:
                where = list(plan)[:3]
                raise Violation(f"pieces:{show(c)}", f"{show(c)}, arriving in pieces cut at {where}"
                                f"{'...' if len(plan) > 3 else ''} of {len(stream)}: {diff(got, want)}")


def spoil(domain, b):
    if domain == "txt":
        return [x for x in (b"A"[0], b"_"[0], b"{"[0], b"="[0]) if x != b]
    return [b ^ 1, b ^ 0x80, b ^ 0xff]


def damage(res, spec):
    """one damaged byte, anywhere in the second of three messages"""
    Clock().install()
    for c, step, nbad, feed in spec:
        side = dict(v=c.get("pv") or c["v"], ilk="ixn", atts=[("sigers", 1)], form="plain", wrap="attach")
        m1, x, m3, m4 = build(side, 3), build(c, 0), build(side, 4), build(side, 5)
        good = {bytes(x.ev.raw): x.call(False)[:4]}
        for at in range(0, len(x.wire), step):
            for bad in spoil(x.domain, x.wire[at])[:nbad]:
                wire = bytearray(x.wire)
                wire[at] = bad
                line = Line(c.get("pv") or c["v"], feed == "whole")
                name = f"damage:{show(c)}:{at}:{bad}"
                what = f"{show(c)}, byte {at} of {len(wire)} is {bad:#x}, {feed}"
                res.add("states")
                if feed == "whole":
                    got = line.whole(m1.wire + bytes(wire) + m3.wire)
                else:
                    stream = m1.wire + bytes(wire) + m3.wire
                    got = line.pieces(stream, range(1, len(stream)))
                if not got or got[0] != m1.call(False):
                    raise Violation(name, f"{what}: the message before it is not processed")
                for g in got[1:]:
                    if g[:4] != good.get(g[2]) and g not in (m1.call(False), m3.call(False)):
                        raise Violation(name, f"{what}: processed {g}, which was not sent")
                for m, n in ((m1, "before"), (m3, "after"), (x, "damaged")):
                    if len([g for g in got if g[2] == m.ev.raw]) > 1:
                        raise Violation(name, f"{what}: the message {n} it is processed twice")
                if x.inside and at >= x.inside and got[-1] != m3.call(False):
                    raise Violation(name, f"{what}: damage within a counted group loses the message after the group")
                if feed == "whole":
                    if line.p.ims:
                        raise Violation(name, f"{what}: {len(line.p.ims)} bytes are left")
                    n = len(line.mine())
                    if c.get("inner") and at < x.inside:
                        continue         # a smaller count turns the version inside into that of the whole stream
                    if line.whole(m4.wire)[n:] != [m4.call(False)]:
                        raise Violation(name, f"{what}: afterwards the parser does not process a good message")
                res.add("transitions", len(got) + 1)


def main(res):
    cs = configs()
    one = [c for c in cs if c["atts"] in ([("sigers", 1)], [("sigers", 1), ("tsgs", 1)], [("sigers", 1), ("tmqs", 1)],
                                          [("lsgs", 1)]) and c["ilk"] in ("ixn", "qry")]
    step = pick(7, 1)
    jobs = [("w", cs[i:i + 8]) for i in range(0, len(cs), 8)]
    enclosed = [c for c in cs if c["wrap"] is not None]

    if not THOROUGH:
        enclosed = [c for c in enclosed if not c.get("big") and [n for _, n in c["atts"]] in ([], [1], [1, 1])]
    jobs += [("h", [(v, kind, domain, feed)]) for v in (1, 2) for domain in ("txt", "bny") for feed in ("whole", "bytes")
             for kind in ("generic", "message", "generic+v", "message+v")]
    jobs += [("c", [(c, "singles" if THOROUGH else "coarse")]) for c in enclosed]
    jobs += [("d", [(c, step, pick(2, 3), "whole")]) for c in one]
    jobs += [("d", [(c, pick(31, 7), 1, "bytes")]) for c in one if c["wrap"] and c["domain"] == "txt"]
    explore_jobs(res, part, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def part(res, spec):
    dict(w=whole, h=hollow, c=cutting, d=damage)[spec[0]](res, spec[1])


def check():
    return run("K11", "model_checking", main)
