"""A controller whose process may end at any moment.  Every sequence of operations on a real Habery and its identifiers, the
keystore and the database dying at every commit of the last ones, against what the controller was told and what a
validator elsewhere, who sees only the messages, accepts."""

import functools
import itertools
import traceback

from ..kel import Died, World, kstate, lmdb, basing, coring, kering, wig, wit       # boots the package
from ..lib import THOROUGH, Violation, explore_jobs, pick, run
import pysodium
from keri import core
from keri.core import parsing
from keri.app import configing, habbing, keeping

for fn in ("crypto_scalarmult_curve25519_base", "crypto_sign_pk_to_box_pk", "crypto_sign_sk_to_box_sk", "crypto_pwhash",
           "crypto_sign_detached", "crypto_sign_verify_detached", "crypto_sign_seed_keypair"):
    setattr(pysodium, fn, functools.lru_cache(1 << 16)(getattr(pysodium, fn)))     # functions of their arguments only

SALT = core.Salter(raw=b"0123456789abcdef").qb64
OTHER = core.Salter(raw=b"fedcba9876543210").qb64
SECRETS = [[core.Signer(raw=bytes([60 + n]) * 32).qb64] for n in range(3)]
WITS = {wit(n): n for n in (1, 2, 3)}
SER = b"to be signed"

MAKES = dict(
    plain=dict(),
    pair=dict(icount=2, isith="2"),
    more=dict(icount=2, isith="1", ncount=3, nsith="2"),
    randy=dict(algo="randy"),
    fixed=dict(transferable=False),
    estonly=dict(estOnly=True),
    wits=dict(wits=[wit(1), wit(2)], toad=1),
    told=dict(secrecies=SECRETS),
    nonext=dict(ncount=0, nsith="0"),
)
ROTS = dict(
    plain=dict(),
    more=dict(ncount=2, nsith="2"),
    less=dict(ncount=1, nsith="1"),
    last=dict(ncount=0, nsith="0"),
    witness=dict(toad=1, adds=[wit(3)]),
)
FIXED = {("told", "more"), ("told", "last")}    # keys told in advance come in their own number
BADS = dict(toad=dict(toad=9), nsith=dict(nsith="9"), cuts=dict(toad=0, cuts=[wit(9)]), isith=dict(isith="7"))


def bad(key, what, **kwa):
    raise Violation(key, str(what)[:1500], kwa)


class Home:
    """keystore, database and configuration of one controller"""

    def __init__(self, bran):
        self.bran = bran
        self.ks = keeping.Keeper(name="mc", temp=True, reopen=True)
        self.db = basing.Baser(name="mc", temp=True, reopen=True)
        self.cf = configing.Configer(name="mc", temp=True, reopen=True)
        self.far = World()                      # a validator elsewhere
        self.far0 = self.far.save()
        self.base = (dict(self.ks.env._disk.dbs), dict(self.db.env._disk.dbs))

    def fresh(self):
        self.ks.env._disk.dbs, self.db.env._disk.dbs = dict(self.base[0]), dict(self.base[1])
        self.told = {}                          # name -> what its user was told
        self.boot()

    def boot(self):
        """a new process on the same files"""
        dict.clear(self.db.kevers)
        self.db.prefixes.clear()
        self.db.groups.clear()
        self.db.reload()
        self.hby = habbing.Habery(name="mc", temp=True, ks=self.ks, db=self.db, cf=self.cf, salt=SALT, bran=self.bran)

    def dies(self, at, act):
        left = [at]

        def before(env, txn):
            if env is self.ks.env or env is self.db.env:
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
        lmdb.CONTROL.before_commit = before
        try:
            act()
            return False
        except Died:
            return True
        finally:
            lmdb.CONTROL.before_commit = None

    def close(self):
        for x in (self.ks, self.db):
            env = x.env
            x.close(clear=True)
            lmdb.disk_drop(env)
        self.cf.close(clear=True)
        self.far.close()


class Told:
    """what the user of one identifier knows"""

    def __init__(self, pre, kind):
        self.pre, self.kind, self.msgs, self.dead = pre, kind, [], False


def make(h, name, kind, retry=None):
    hab = h.hby.makeHab(name=name, **{**MAKES[kind], **(retry or {})})
    t = h.told[name] = Told(hab.pre, kind)
    t.msgs.append(hab.kever.serder.said)
    t.dead = not hab.kever.ndigers


def rotate(h, name, kind):
    hab, t = h.hby.habByName(name), h.told[name]
    if t.dead:
        try:
            hab.rotate(**ROTS[kind])
        except (kering.ValidationError, ValueError):
            return
        bad("rotate:dead", f"identifier without next keys rotated ({t.kind})")
    msg = hab.rotate(**ROTS[kind])
    said(h, name, msg, "rot")
    t.dead = not hab.kever.ndigers


def interact(h, name):
    hab, t = h.hby.habByName(name), h.told[name]
    if t.kind == "estonly" or not hab.kever.prefixer.transferable:
        try:
            hab.interact(data=[])
        except (kering.ValidationError, ValueError):
            return
        bad("interact:refuse", f"{t.kind} identifier has an interaction event")
    if t.dead:
        try:
            msg = hab.interact(data=[])
        except (kering.ValidationError, ValueError):
            return
    else:
        msg = hab.interact(data=[])
    said(h, name, msg, "ixn")


def said(h, name, msg, ilk):
    serder = core.SerderKERI(raw=bytes(msg))
    hab, t = h.hby.habByName(name), h.told[name]
    if serder.ilk != ilk or serder.pre != t.pre or serder.sn != len(t.msgs) or hab.kever.serder.said != serder.said:
        bad(f"{ilk}:message", f"{name} at {len(t.msgs)} gives event {serder.ked}, its own state is at {hab.kever.serder.ked}")
    t.msgs.append(serder.said)


def wrong(h, name, kind):
    """a rotation that cannot be"""
    hab = h.hby.habByName(name)
    before = kstate(hab.kever)
    try:
        hab.rotate(**BADS[kind])
    except (kering.ValidationError, ValueError):
        pass
    else:
        bad(f"wrong:{kind}", f"rotation with {BADS[kind]} went through")
    if kstate(hab.kever) != before:
        bad(f"wrong:{kind}:state", f"refused rotation changed the state from {before} to {kstate(hab.kever)}")


def restart(h):
    h.boot()


def delete(h, name):
    if not h.hby.deleteHab(name):
        bad("delete", f"{name} is not deleted")
    t = h.told.pop(name)
    if h.hby.habByName(name) is not None or t.pre in h.hby.habs or t.pre in h.db.prefixes:
        bad("delete:still", f"deleted {name} is still there")


OPS = dict(make=make, rotate=rotate, interact=interact, wrong=wrong, restart=restart, delete=delete)


def options(h, last):
    if not h.told:
        for kind in MAKES:
            yield "make", "a", kind
        return
    if len(h.told) == 1:
        yield "make", "b", "plain"
        if last:
            if h.told.get("a", Told("", "")).kind != "told":
                yield "make", "b", "told"
            yield "delete", "a"
    for name, t in h.told.items():
        for kind in ROTS if name == "a" else ("plain",):
            if (not last or THOROUGH or kind in ("plain", "more")) and (t.kind, kind) not in FIXED:
                yield "rotate", name, kind
        yield "interact", name
        if name == "a":
            for kind in BADS:
                if not last or THOROUGH or kind == "toad":
                    yield "wrong", name, kind
    yield "restart",


def do(h, op):
    OPS[op[0]](h, *op[1:])


# ------------------------------------------------------------ what must hold
def verify(h, name, hab, where):
    """keys sign, and the validator who gets all messages sees the same"""
    kever = hab.kever
    sigers = hab.sign(ser=SER)
    pairs = [(g.index, g.raw) for g in sigers]
    if [i for i, _ in pairs] != list(range(len(kever.verfers))) or \
            not all(v.verify(r, SER) for v, (_, r) in zip(kever.verfers, pairs)):
        bad(f"{where}:sign", f"signatures of {name} do not verify under its keys {[v.qb64 for v in kever.verfers]}")
    h.far.restore(h.far0)
    if kever.wits:
        return witnessed(h, name, hab, where)
    parsing.Parser(framed=True, kvy=h.far.kvy, local=False, version=kering.Version).parse(ims=bytearray(hab.replay()))
    there = h.far.state(hab.pre)
    if there != kstate(kever):
        bad(f"{where}:validator", f"validator sees {there}, {name} itself {kstate(kever)}")


def witnessed(h, name, hab, where):
    """the same, with signatures of all witnesses"""
    for said in hab.db.kels.getAllIter(keys=hab.pre):
        said = said if isinstance(said, str) else bytes(said).decode()
        ev = hab.db.evts.get(keys=(hab.pre, said))
        if ev.sn > hab.kever.sn:
            break
        if ev.ilk != "ixn":
            wits = [p.qb64 for p in hab.db.wits.get(keys=(hab.pre, said))]
        got = h.far.event(ev, hab.db.sigs.get(keys=(hab.pre, said)), [wig(ev, WITS[w], i) for i, w in enumerate(wits)])
        if got != "ok":
            bad(f"{where}:validator", f"event {ev.ked} of {name} at the validator: {got}")
    if h.far.state(hab.pre) != kstate(hab.kever):
        bad(f"{where}:validator", f"validator sees {h.far.state(hab.pre)}, {name} itself {kstate(hab.kever)}")


def audit(h, where, died=None):
    """died: operation whose process ended"""
    habs = h.hby.habs
    for name, t in h.told.items():
        hab = h.hby.habByName(name)
        if died is not None and died[0] == "delete" and died[1] == name:
            continue
        if hab is None or hab.pre != t.pre or habs.get(t.pre) is None:
            bad(f"{where}:lost", f"{name} with {t.pre} is gone: {list(habs)}")
        kel = h.db.kels.getAllIter(keys=t.pre)
        kel = [d if isinstance(d, str) else bytes(d).decode() for d in kel]
        kel = kel[:hab.kever.sn + 1]            # an event that was about to be accepted is not
        more = 1 if died is not None and died[0] in ("rotate", "interact") and died[1] == name else 0
        if kel[:len(t.msgs)] != t.msgs or len(kel) > len(t.msgs) + more:
            bad(f"{where}:kel", f"{name} was told of {t.msgs}, its log has {kel}")
        if hab.kever.serder.said != kel[-1]:
            bad(f"{where}:state", f"state of {name} is of event {hab.kever.serder.said}, log {kel}")
        t.msgs[:] = kel
        t.dead = not hab.kever.ndigers
        verify(h, name, hab, where)
    extra = set(habs) - {t.pre for t in h.told.values()}
    if extra and not (died is not None and died[0] == "make" and len(extra) == 1):
        bad(f"{where}:extra", f"identifiers nobody made: {extra}")
    if extra:                                  # the one being made is whole
        name, kind = died[1:]
        hab = h.hby.habByName(name)
        if hab is None or hab.pre not in extra:
            bad(f"{where}:half", f"{name} of {extra} is half there")
        t = h.told[name] = Told(hab.pre, kind)
        t.msgs = [hab.kever.serder.said]
        t.dead = not hab.kever.ndigers
        verify(h, name, hab, where)


def later(res, h, where, died=None):
    """everything goes on from here"""
    if died is not None:
        if died[0] == "make" and died[1] not in h.told:
            try:
                make(h, died[1], died[2])
            except ValueError:                  # its keys may be used up, like those of a deleted one
                make(h, died[1], died[2], dict(salt=OTHER, secrecies=None))
        elif died[0] == "delete" and h.hby.habByName(died[1]) is None:
            h.told.pop(died[1])
        elif died[0] in ("rotate", "wrong", "interact", "delete"):
            if died[0] == "delete":
                delete(h, died[1])
            elif died[0] != "wrong" and h.told[died[1]].msgs and not h.told[died[1]].dead:
                do(h, died)                     # asked again
    for name, t in list(h.told.items()):
        if not t.dead:
            rotate(h, name, "plain")
        interact(h, name)
    audit(h, f"{where}:later")
    h.boot()
    for name, t in list(h.told.items()):
        if not t.dead:
            rotate(h, name, "plain")
    audit(h, f"{where}:reopened")


def lead(h, path):
    h.fresh()
    for op in path:
        do(h, op)


def tag(path):
    return " ".join(".".join(op) for op in path)


def explore(res, job):
    h = Home(job[0])
    at = [""]
    try:
        walk(res, h, at, *job[1:])
    except (ValueError, kering.KeriError) as ex:
        bad(f"raised:{at[0]}", f"{type(ex).__name__}: {ex} in {traceback.format_exc()[-900:]}")
    finally:
        h.close()


def walk(res, h, here, first, depth, twice):
    todo = [first]
    while todo:
        path = todo.pop()
        where = here[0] = tag(path)
        res.add("transitions")
        lead(h, path)
        audit(h, where)
        res.add("states")
        if len(path) < depth:
            for op in list(options(h, len(path) + 1 == depth)):
                todo.append(path + (op,))
        later(res, h, where)
        res.add("traces_validated_against_impl")
        op = path[-1]
        if op[0] == "restart":
            pass
        for at in itertools.count():
            lead(h, path[:-1])
            if not h.dies(at, lambda: do(h, op)):
                break
            w = here[0] = f"{where} dies before {at}"
            h.boot()
            audit(h, w, op)
            later(res, h, w, op)
            res.add("deaths")
            res.add("states")
            if twice and len(path) <= twice and op[0] == "rotate":
                for again in itertools.count():
                    lead(h, path[:-1])
                    h.dies(at, lambda: do(h, op))
                    h.boot()
                    audit(h, w, op)
                    if h.told[op[1]].dead or not h.dies(again, lambda: do(h, op)):
                        break
                    here[0] = f"{w} and before {again}"
                    h.boot()
                    audit(h, f"{w} twice", op)
                    later(res, h, f"{w} twice", op)
                    res.add("deaths")
                    res.add("states")


def jobs():
    depth = pick(3, 4)
    for bran in (None, "0123456789abcdefghijk"):
        for kind in MAKES:
            first = ("make", "a", kind)
            d = depth if bran is None else depth - 1
            yield bran, (first,), 1, 0
            if kind not in ("plain", "told") and not THOROUGH:
                d = min(d, 2)
            for op in seconds(kind):
                yield bran, (first, op), d, (pick(2, 3) if kind in pick(("plain", "randy", "told"), MAKES) and not bran else 0)


def seconds(kind):
    yield "make", "b", "plain"
    for r in ROTS:
        if (kind, r) not in FIXED:
            yield "rotate", "a", r
    yield "interact", "a"
    for b in BADS:
        yield "wrong", "a", b
    yield "restart",


def main(res):
    explore_jobs(res, explore, jobs())


def check():
    return run("M02", "model_checking", main)
