"""Credentials.  Chained credentials, registry events, schemas and forgeries reach a real validator in every order up to a depth,
with escrow passes and restarts; whenever a credential is taken as valid, an independent statement of the rules must agree; from
every state the rest must complete; dying at any commit changes neither.  And every combination of edge operator, issuers,
issuees, edge schema and revocation is judged one by one."""

import datetime
import itertools

from ..kel import Clock, ctr, huge, ixn, sigs, wire
from ..lib import Violation, explore_jobs, pick, run
from ..tel import Telling, acdc, credwire, iss, rev, tseal, vcp
from keri.core import scheming
from keri.core import coring
from . import r01


def schema(n, need=()):
    sed = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": f"S{n}", "type": "object",
           "properties": {"a": {"type": "object", "required": list(need)}}, "required": ["v", "d", "i", "ri", "s", "a"]}
    _, sed = coring.Saider.saidify(sad=sed, label="$id")
    return scheming.Schemer(sed=sed, typ=scheming.JSONSchema(), kind="JSON")


class Pool(r01.Pool):
    """messages that include credentials and schemas"""

    def __init__(self):
        super().__init__()
        self.creds, self.schemas, self.valid, self.good = {}, {}, [], set()

    def registry(self, who, given=True):
        return self.genuine(f"vcp{self.keys[who]}", vcp(who), who, given=given).pre

    def knows(self, s, given=True, label="schema"):
        self.schemas[s.said] = s
        self.put(label + s.said[1:4], s, given)
        return s.said

    def cred(self, label, c, by=None, valid=True, given=False, reg=None, wire_=None, split=None, **dt):
        """a credential, issued in its registry (or reg) by its maker"""
        self.creds[c.said] = c
        by = by or c.israid
        e = iss(c.said, reg or c.regid, **dt)
        if by:
            self.genuine("iss:" + label, e, by, given=not split or given)
        at = self.kel[by][-1]
        self.put(label, wire_ or credwire(c, at), given)
        if valid:
            self.valid.append(c.said)
        return c

    def revoked(self, label, c, given=False):
        e = rev(c.said, c.regid, self.want[c.said][0])
        self.genuine("rev:" + label, e, c.israid, given=given)


def prepared(mk):
    p = mk()
    p.right = set()
    for x, log in p.kel.items():
        for e in log:
            p.right.add(bytes(wire(e, sigs(e, [p.keys[x]]))))
    for label, msg, said, backers in p.setup + p.list:
        if said and any(said in v for v in p.want.values()) or not said and not label.startswith(("ixn", "icp", "forged")):
            p.right.add(msg)
    return p


# ---------------------------------------------------------------- reference
KNOWN = ("I2I", "NI2I", "DI2I", "E1E", "NOT")


def allowed(o, near, far):
    """does the edge operator permit this edge"""
    ops = [x for x in (o if isinstance(o, list) else [o]) if x in KNOWN]
    deleg = [x for x in ops if x in ("I2I", "NI2I", "DI2I")][-1:]
    if not ops:
        deleg = ["I2I" if far.iseaid is not None else "NI2I"]
    if "NOT" in ops or deleg == ["DI2I"]:
        return False
    if "E1E" in ops and (far.iseaid is None or near.iseaid != far.iseaid):
        return False
    if deleg == ["I2I"] and (far.iseaid is None or near.israid != far.iseaid):
        return False
    return True


def fits(s, c):
    """is the body what the schema asks for"""
    need = s.sed["properties"]["a"]["required"]
    return all(n in c.attrib for n in need)


def status(p, tels, c):
    """"iss", "rev" or None, by the registry of the credential"""
    log = tels.get(c.said)
    reg = tels.get(c.regid)
    if not log or not reg or p.evs[reg[0][1]].ked["ii"] != c.israid:
        return None
    if p.evs[log[0][1]].ked["ri"] != c.regid:
        return None
    return p.evs[log[-1][1]].ilk


def verdict(p, c, tels, saved, have):
    """is this credential valid in view of what is here; saved: the credentials taken as valid"""
    if status(p, tels, c) is None:
        return "it is not issued in a registry of its issuer"
    if c.schema not in have or not fits(p.schemas[c.schema], c):
        return "it does not satisfy its schema"
    edges = c.edge if isinstance(c.edge, list) else [c.edge] if c.edge else []
    for block in edges:
        for label, node in block.items():
            if label in ("d", "o"):
                continue
            far = p.creds.get(node["n"])
            if far is None or far.said not in saved:
                return f"edge {label} leads to no valid credential"
            if not allowed(node.get("o"), c, far):
                return f"edge {label} operator {node.get('o')} does not permit it"
            if status(p, tels, far) != "iss":
                return f"edge {label} leads to a credential that is revoked"
            s = node.get("s")
            if s and s != far.schema and (s not in have or not fits(p.schemas[s], far)):
                return f"edge {label} leads to a credential that does not satisfy the schema of the edge"
    return None


# ---------------------------------------------------------------- pools
def chain():
    """three credentials in a chain over three issuers, and those who try to join in"""
    p = Pool()
    A, B, D = p.person(1), p.person(11), p.person(21)
    s = p.knows(schema(1), given=False)
    t = p.knows(schema(2, ["x"]))
    ra, rb, rd = p.registry(A, given=False), p.registry(B), p.registry(D)
    c1 = p.cred("c1", acdc(A, ra, s, issuee=B))
    c2 = p.cred("c2", acdc(B, rb, s, issuee=D, e=dict(up=dict(n=c1.said, s=s))))
    p.cred("c3", acdc(D, rd, t, a=dict(x=1), e=dict(up=dict(n=c2.said, o="I2I"))))
    p.cred("not-issuee", acdc(D, rd, s, e=dict(up=dict(n=c1.said))), valid=False)
    p.cred("as-B", acdc(B, rd, s, a=dict(y=2), e=dict(up=dict(n=c1.said))), by=D, valid=False)
    p.cred("no-x", acdc(D, rd, t, e=dict(up=dict(n=c2.said))), valid=False)
    return p


def late():
    """everything arrives on its own"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    s = p.knows(schema(1), given=False)
    t = p.knows(schema(3), given=False)
    ra = p.registry(A, given=False)
    rb = p.registry(B)
    c1 = p.cred("c1", acdc(A, ra, s, issuee=B), split=True)
    c2 = p.cred("c2", acdc(B, rb, s, e=dict(up=dict(n=c1.said, s=t))), split=True)
    return p


def revoked():
    """the far credential is revoked at some moment"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    s = p.knows(schema(1))
    ra, rb = p.registry(A), p.registry(B)
    c1 = p.cred("c1", acdc(A, ra, s, issuee=B), split=True)
    c2 = p.cred("c2", acdc(B, rb, s, e=dict(up=dict(n=c1.said))), split=True, valid=False)
    p.revoked("c1", c1)
    p.cred("c3", acdc(B, rb, s, a=dict(z=1), e=dict(up=dict(n=c2.said, o="NI2I"))), valid=False)
    return p


def several():
    """more than one edge: all must hold"""
    p = Pool()
    A, B = p.person(1), p.person(11)
    s = p.knows(schema(1))
    ra, rb = p.registry(A), p.registry(B)
    c1 = p.cred("c1", acdc(A, ra, s, issuee=B))
    d1 = p.cred("d1", acdc(A, ra, s, a=dict(k=1)))
    p.cred("both", acdc(B, rb, s, e=dict(up=dict(n=c1.said), too=dict(n=d1.said))))
    p.cred("list", acdc(B, rb, s, a=dict(m=1), e=[dict(up=dict(n=c1.said)), dict(too=dict(n=d1.said, o="NI2I"))]))
    p.cred("second-bad", acdc(B, rb, s, a=dict(m=2), e=dict(up=dict(n=c1.said), too=dict(n=d1.said, o="I2I"))), valid=False)
    p.cred("list-bad", acdc(B, rb, s, a=dict(m=3), e=[dict(up=dict(n=c1.said)), dict(too=dict(n=d1.said, o="E1E"))]), valid=False)
    return p


POOLS = dict(chain=chain, late=late, revoked=revoked, several=several)


def combos():
    """one far credential and one near: every combination"""
    ops = (None, "I2I", "NI2I", "E1E", "DI2I", "NOT", "XYZ", [], ["XYZ"], ["E1E", "NI2I"], ["I2I", "E1E"], ["I2I", "NI2I"],
           ["NI2I", "I2I"], ["DI2I", "I2I"], ["I2I", "DI2I"], ["NOT", "I2I"], ["NI2I", "NOT"])
    for o, fi, ni, ne, es, rv in itertools.product(ops, (None, "B"), "BD", (None, "B", "D"), (None, "same", "fit", "unfit"), (0, 1)):
        yield o, fi, ni, ne, es, rv


# ---------------------------------------------------------------- exploration
def give(w, p, msg):
    if isinstance(msg, scheming.Schemer):
        w.db.schema.pin(msg.said, msg)
    else:
        w.get(msg)


def audit(p, w, was=None, key="", how=""):
    """saved credentials; those that are new must be valid"""
    tels = w.tels()
    saved = set(w.saved())
    have = {s for s in p.schemas if w.db.schema.get(s) is not None}
    for x in saved - (was if was is not None else set()):
        c = p.creds.get(x)
        if c is None:
            raise Violation(key, f"{how}: {x} is taken as valid, but it is none of the credentials")
        bad = verdict(p, c, tels, saved, have)
        if bad:
            raise Violation(key, f"{how}: credential {name(p, x)} is taken as valid, but {bad}")
        got = w.reger.creds.get(keys=x)
        if got is None or got.raw != c.raw:
            raise Violation(key, f"{how}: credential {name(p, x)} is taken as valid but not kept as it came")
    if was and was - saved:
        raise Violation(key, f"{how}: credential {name(p, min(was - saved))} is forgotten")
    return saved


def name(p, x):
    for label, msg, _, _ in p.setup + p.list:
        if isinstance(msg, bytes) and x.encode() in msg and msg.startswith(p.creds[x].raw):
            return label
    return x


def indexed(p, w, saved):
    """every credential that is valid still is found by issuer, subject and schema"""
    tels = w.tels()
    for x in saved:
        c = p.creds[x]
        if verdict(p, c, tels, saved, set(p.schemas)):
            continue     # no longer valid; when its taking was interrupted it stays unlisted
        for db, k in ((w.reger.issus, c.israid), (w.reger.schms, c.schema), (w.reger.subjs, c.iseaid)):
            if k and x not in [s.qb64 for s in db.get(keys=k)]:
                return name(p, x)
    return None


def finish(p, w, was, res, how, key, path):
    rest = [m for n, m in enumerate(p.list) if n not in path and m[1] in p.right]
    snap = w.save()
    for n, order in enumerate((rest, rest[::-1])):
        w.restore(snap)
        saved = was
        for m in order:
            give(w, p, m[1])
            saved = audit(p, w, saved, key + ":finish", f"{how}, then the rest up to {m[0]}")
        w.settle()
        saved = audit(p, w, saved, key + ":finish", f"{how}, then the rest")
        res.add("transitions", len(order))
        lost = [x for x in p.valid if x not in saved]
        if lost:
            raise Violation(key + ":lost", f"{how}, then all the rest {'in order' if n == 0 else 'in reverse'}: valid credential "
                            f"{name(p, lost[0])} is not taken as valid")
        bad = indexed(p, w, saved)
        if bad:
            raise Violation(key + ":index", f"{how}, then all the rest: credential {bad} is not found by issuer, subject or schema")
    w.restore(snap)


def job(res, spec):
    mode, nm, lead, limit = spec
    Clock().install()
    if mode == "times":
        return times(res, lead)
    if mode == "combos":
        return table(res, lead, limit)
    p = prepared(POOLS[nm])
    w = Telling()
    try:
        for label, msg, said, backers in p.setup:
            give(w, p, msg)
        acts = list(range(len(p.list))) + ["escrows", "restart"]

        def act(a):
            if a == "escrows":
                w.kvy.processEscrows()
                w.tvy.processEscrows()
                w.vry.processEscrows()
            elif a == "restart":
                w.reboot()
            else:
                give(w, p, p.list[a][1])

        def show(path):
            return f"pool {nm}, history {[p.list[a][0] if isinstance(a, int) else a for a in path]}"
        saved, path = audit(p, w, None, nm, show([])), []
        for a in lead:
            act(a)
            path.append(a)
            saved = audit(p, w, saved, f"{nm}:{show(path)}", show(path))
        res.add("transitions", len(lead))
        if mode == "deaths":
            for a in acts[:-1]:
                snap = w.save()
                at = 0
                while True:
                    w.restore(snap)
                    if not w.dies(at, act, a):
                        break
                    w.reboot()
                    res.add("deaths")
                    res.add("states")
                    how = f"{show(path)}, dies at commit {at} of {p.list[a][0] if isinstance(a, int) else a}, restarts"
                    now = audit(p, w, saved, f"{nm}:{how}", how)
                    finish(p, w, now, res, how, f"{nm}:{how}", [b for b in path if b != a])
                    at += 1
                w.restore(snap)
            return
        todo, seen = [(w.save(), saved, path)], set()
        while todo:
            snap, saved, path = todo.pop(0)
            w.restore(snap)
            finish(p, w, saved, res, show(path), f"{nm}:{show(path)}", path)
            if len(path) >= limit:
                continue
            for a in acts:
                if path and a == path[-1] or (a == "restart" and path and path[-1] == "escrows"):
                    continue
                w.restore(snap)
                act(a)
                here = path + [a]
                res.add("transitions")
                now = audit(p, w, saved, f"{nm}:{show(here)}", show(here))
                k = (r01.ident(w), frozenset(a for a in here if isinstance(a, int)))
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((w.save(), now, here))
    finally:
        w.close()


def table(res, part, parts):
    for n, (o, fi, ni, ne, es, rv) in enumerate(combos()):
        if n % parts != part:
            continue
        p = Pool()
        who = dict(A=p.person(1), B=p.person(11), D=p.person(21))
        s, fit, unfit = schema(1), schema(2), schema(3, ["nothing"])
        for x in (s, fit, unfit):
            p.knows(x)
        regs = {k: p.registry(v) for k, v in who.items()}
        far = p.cred("far", acdc(who["A"], regs["A"], s.said, issuee=who.get(fi)))
        node = dict(n=far.said)
        if o is not None:
            node["o"] = o
        if es:
            node["s"] = dict(same=s, fit=fit, unfit=unfit)[es].said
        near = p.cred("near", acdc(who[ni], regs[ni], s.said, issuee=who.get(ne), e=dict(up=node)))
        if rv:
            p.revoked("far", far)
        w = Telling()
        try:
            for label, msg, _, _ in p.setup + [m for m in p.list if m[0] == "far"] + [m for m in p.list if m[0] == "rev:far"]:
                give(w, p, msg)
            saved = audit(p, w, None, "combo", "combo")
            tels = w.tels()
            bad = verdict(p, near, tels, saved, set(p.schemas))
            for m in p.list:
                if m[0] == "near":
                    give(w, p, m[1])
            w.settle()
            how = (f"edge operator {o}, far issuee {fi}, near issuer {ni}, near issuee {ne}, edge schema {es}, "
                   f"far {'revoked' if rv else 'issued'}")
            if far.said not in w.saved():
                raise Violation("combo:far", f"{how}: the far credential is not taken as valid")
            got = near.said in w.saved()
            res.add("states")
            res.add("transitions", 2)
            if got != (bad is None):
                raise Violation(f"combo:{o}:{fi}:{ni}:{ne}:{es}:{rv}", f"{how}: the near credential is "
                                f"{'taken as valid, but ' + str(bad) if got else 'not taken as valid'}")
        finally:
            w.close()


WAITS = (0, 3599, 3600, 3601, 7200, 86399, 86400, 86405, 90001, 30 * 86400 + 5)
AGES = (0, 99, 100, 101, 3600, 86400, 86405, 86501, 400 * 86400 + 5)


def times(res, part):
    """a credential waits for what is missing, for an hour and no longer; and one whose state is too old is not taken"""
    clock = Clock().install()
    start = clock.now

    def at(s):
        clock.now = start + datetime.timedelta(seconds=s)
    res.add("states")
    if part[0] == "waits":
        _, lack, wait, mids = part
        p = late()
        c = p.valid[1]
        lack = p.list[lack][0] if isinstance(lack, int) else lack
        how = f"credential waiting {wait} s for {lack}, {mids} passes on the way"
        w = Telling()
        try:
            for label, msg, _, _ in p.setup:
                give(w, p, msg)
            missing, rest = [], []
            for label, msg, _, _ in p.list:
                if label == lack:
                    missing.append(msg)
                elif label != "c2":
                    rest.append(msg)
                else:
                    own = msg
                if label == "c1":
                    its = msg
            for m in rest:
                give(w, p, m)
            w.settle()
            give(w, p, own)
            for i in range(mids):
                at(wait * (i + 1) // (mids + 1))
                w.settle()
            if c in w.saved():
                raise Violation("times:early", f"{how}: taken before that is there")
            at(wait)
            w.settle()
            for m in missing:
                give(w, p, m)
            w.settle()
            res.add("transitions", 3 + mids)
            audit(p, w, None, "times", how)
            if (c in w.saved()) != (wait <= 3600):
                raise Violation(f"times:{lack}:{wait}", f"{how}: {'taken' if c in w.saved() else 'not taken'} when that arrives")
            give(w, p, its)     # may have waited too
            give(w, p, own)
            w.settle()
            if c not in w.saved():
                raise Violation(f"times:again:{lack}:{wait}", f"{how}: not taken when it arrives again")
        finally:
            w.close()
        return
    _, far, near, age = part
    p = Pool()
    A, B = p.person(1), p.person(11)
    s = p.knows(schema(1))
    ra, rb = p.registry(A), p.registry(B)
    when = lambda x: (start - datetime.timedelta(seconds=x)).isoformat(timespec="microseconds")
    c1 = p.cred("c1", acdc(A, ra, s, issuee=B), dt=when(far))
    c2 = p.cred("c2", acdc(B, rb, s, e=dict(up=dict(n=c1.said))), dt=when(near))
    w = Telling()
    w.vry.CredentialExpiry = 100
    try:
        for label, msg, _, _ in p.setup + p.list:
            if label == "c2":
                at(age)
            give(w, p, msg)
        w.settle()
        res.add("transitions", len(p.list))
        old = [x + age > 100 for x in (far, near)]
        how = f"states of age {far + age} and {near + age} s where 100 s are allowed"
        if (c1.said in w.saved()) != (far <= 100):
            raise Violation(f"times:far:{far}", f"{how}: far credential {'taken' if c1.said in w.saved() else 'not taken'} at {far} s")
        if (c2.said in w.saved()) != (far <= 100 and not any(old)):
            raise Violation(f"times:near:{far}:{near}:{age}", f"{how}: credential {'taken' if c2.said in w.saved() else 'not taken'}")
    finally:
        w.close()


def main(res):
    jobs = [("times", None, ("waits", lack, x, n), 0) for lack in ("iss:c2", 0, 1, "c1", "vcp1") for x in WAITS for n in (0, 1, 3)]
    jobs += [("times", None, ("ages", far, near, x), 0) for far in AGES for near in AGES for x in (0, 1, 90)]
    jobs += [("combos", None, k, 16) for k in range(16)]
    for nm in POOLS:
        n = len(prepared(POOLS[nm]).list)
        jobs += [("bfs", nm, (a,), pick(3, 5)) for a in list(range(n)) + ["escrows", "restart"]]
        jobs += [("deaths", nm, tuple(range(k)), 0) for k in range(n)]
        jobs += [("deaths", nm, tuple(range(n))[::-1][:k], 0) for k in range(1, n + 1)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("V01", "model_checking", main)
