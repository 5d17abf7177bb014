"""The keystore.  Every sequence of key operations on a real Manager, its keystore dying at every commit, against a
reference that knows only what was promised to the caller: which keys sign now, which were committed to as next."""

import copy
import functools
import itertools

from ..kel import Died, World, lmdb, coring, kering             # boots the package
from ..lib import THOROUGH, Violation, explore_jobs, pick, run
import pysodium
from keri import core
from keri.app import keeping

for fn in ("crypto_box_seal_open", "crypto_scalarmult_curve25519_base", "crypto_sign_pk_to_box_pk", "crypto_pwhash",
           "crypto_sign_detached", "crypto_sign_verify_detached", "crypto_sign_seed_keypair", "crypto_sign_sk_to_box_sk"):
    setattr(pysodium, fn, functools.lru_cache(1 << 16)(getattr(pysodium, fn)))     # functions of their arguments only

SALT = core.Salter(raw=b"0123456789abcdef").qb64
SER = b"to be signed"
SEEDS = {n: core.Signer(raw=bytes([n]) * 32, transferable=False) for n in (1, 2, 3)}   # 1, 2: in use; 3: an intruder's
SECRET = {n: core.Signer(raw=bytes([40 + n]) * 32) for n in range(24)}


def bad(key, what, **kwa):
    raise Violation(key, what[:1500], kwa)


def dig(pub):
    return coring.Diger(ser=pub.encode(), code=coring.MtrDex.Blake3_256).qb64


class Id:
    """what the user of one identifier was told"""
    def __init__(self, pre, sets, at, alive, trans=True, rand=False, gen=True):
        self.pre, self.sets, self.at, self.alive, self.trans, self.rand, self.gen = pre, sets, at, set(alive), trans, rand, gen

    def __deepcopy__(self, memo):
        return Id(self.pre, list(self.sets), self.at, self.alive, self.trans, self.rand, self.gen)


class Store:
    """a keystore with its manager, and what its users know"""
    N = 0

    def __init__(self, seed=None, salt=SALT, pidx=None):
        Store.N += 1
        self.ks = keeping.Keeper(name=f"ks{Store.N}", temp=True, reopen=True)
        self.seed = seed                            # number of the one in force
        self.ids = []
        self.mgr = self.start(seed, salt=salt, pidx=pidx)

    def start(self, seed, **kwa):
        s = SEEDS[seed] if seed else None
        return keeping.Manager(ks=self.ks, seed=s.qb64 if s else None, aeid=s.verfer.qb64 if s else None, **kwa)

    def save(self):
        return dict(self.ks.env._disk.dbs), copy.deepcopy(self.ids), self.seed, dict(self.mgr.__dict__)

    def restore(self, snap):
        self.ks.env._disk.dbs = dict(snap[0])
        self.ids, self.seed = copy.deepcopy(snap[1]), snap[2]
        self.mgr.__dict__.clear()
        self.mgr.__dict__.update(snap[3])

    def reboot(self, seed):
        self.mgr = self.start(seed)
        self.seed = seed

    def dies(self, at, act):
        left = [at]

        def before(env, txn):
            if env is self.ks.env:
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
        lmdb.CONTROL.before_commit = before
        try:
            act()
            return False
        except Died:
            return True
        finally:
            lmdb.CONTROL.before_commit = None

    def close(self):
        env = self.ks.env
        self.ks.close(clear=True)
        lmdb.disk_drop(env)

    def blob(self):
        out = []
        for name, table in self.ks.env._disk.dbs.items():
            for k, v in items(table):
                out += [bytes(k), v if isinstance(v, bytes) else b"".join(v)]
        return b"\n".join(out)


def items(table):
    for k in table:
        v = table[k]
        yield k, (bytes(v) if isinstance(v, (bytes, bytearray, memoryview)) else b"\n".join(bytes(x) for x in v))


# ------------------------------------------------------------ operations
def incept(s, algo, icount, ncount, trans=True, erase=None):
    verfers, digers = s.mgr.incept(icount=icount, ncount=ncount, algo=algo, transferable=trans, temp=True)
    pubs = [v.qb64 for v in verfers]
    nxt = s.mgr.ks.sits.get(pubs[0]).nxt.pubs
    if len(pubs) != icount or len(digers) != ncount or [d.qb64 for d in digers] != [dig(p) for p in nxt]:
        bad(f"incept:{icount}:{ncount}", f"incept of {icount} and {ncount} keys gives {pubs} and digests {[d.qb64 for d in digers]} of {nxt}")
    if any(v.transferable != trans for v in verfers):
        bad("incept:transferable", f"keys not of the asked kind: {pubs}")
    s.ids.append(Id(pubs[0], [pubs, list(nxt)], 0, pubs + nxt, trans, algo == "randy"))


def rotate(s, i, ncount, erase=True):
    x = s.ids[i]
    if x.at + 2 < len(x.sets):          # next keys after these are known already: the caller replays
        return replay(s, i, erase)
    if not x.sets[x.at + 1]:
        try:
            s.mgr.rotate(x.pre, ncount=ncount, temp=True, erase=erase)
        except ValueError:
            return "refused"
        bad("rotate:dead", f"identifier {x.pre} without next keys rotated")
    verfers, digers = s.mgr.rotate(x.pre, ncount=ncount, temp=True, erase=erase)
    moved(s, x, verfers, digers, erase, s.mgr.ks.sits.get(x.pre).nxt.pubs)
    if len(digers) != ncount:
        bad("rotate:count", f"{len(digers)} next keys instead of {ncount}")


def moved(s, x, verfers, digers, erase, nxt):
    pubs = [v.qb64 for v in verfers]
    if pubs != x.sets[x.at + 1]:
        bad("rotate:committed", f"rotation of {x.pre} to {pubs}, committed were {x.sets[x.at + 1]}")
    x.at += 1
    if x.at + 1 == len(x.sets):
        x.sets.append(list(nxt))
        x.alive |= set(nxt)
        if x.gen:
            lot = s.mgr.ks.sits.get(x.pre).nxt
            if (lot.ridx, lot.kidx) != (len(x.sets) - 1, sum(len(y) for y in x.sets[:-1])):
                bad("rotate:place", f"key set {len(x.sets) - 1} of {x.pre} after {[len(y) for y in x.sets[:-1]]} keys recorded "
                    f"as set {lot.ridx} from key {lot.kidx}, from which its path is made")
    if [d.qb64 for d in digers] != [dig(p) for p in x.sets[x.at + 1]]:
        bad("rotate:digests", f"digests {[d.qb64 for d in digers]} are not of the next keys {x.sets[x.at + 1]}")
    if erase and x.at >= 2:
        x.alive -= set(x.sets[x.at - 2])


def replay(s, i, erase=True):
    x = s.ids[i]
    if x.at + 2 >= len(x.sets):
        try:
            s.mgr.replay(x.pre, erase=erase)
        except IndexError:
            return "refused"
        bad("replay:beyond", f"replay of {x.pre} beyond its last keys")
    verfers, digers = s.mgr.replay(x.pre, erase=erase)
    moved(s, x, verfers, digers, erase, [])


def again(s, i):
    """the current keys once more"""
    x = s.ids[i]
    verfers, digers = s.mgr.replay(x.pre, advance=False)
    if [v.qb64 for v in verfers] != x.sets[x.at] or [d.qb64 for d in digers] != [dig(p) for p in x.sets[x.at + 1]]:
        bad("replay:current", f"current keys of {x.pre} are {x.sets[x.at]} with next {x.sets[x.at + 1]}, told {[v.qb64 for v in verfers]}")


def move(s, i, n):
    x = s.ids[i]
    new = dig(x.pre)
    s.mgr.move(old=x.pre, new=new)
    x.pre = new


def aeid(s, n):
    k = SEEDS.get(n)
    s.mgr.updateAeid(k.verfer.qb64 if k else None, k.qb64 if k else None)
    s.seed = n


def mistake(s, n, m):
    """another seed than the one of the new aeid"""
    before = s.blob()
    try:
        s.mgr.updateAeid(SEEDS[n].verfer.qb64, SEEDS[m].qb64 if m else None)
    except kering.AuthError:
        pass
    else:
        bad("aeid:mistake", f"aeid of seed {n} accepted with seed {m}")
    if s.blob() != before:
        bad("aeid:mistake:changed", "refused change of aeid changed the keystore")


def restart(s):
    s.reboot(s.seed)


def ingest(s, n, iridx, algo, ncount):
    m = 5 * len(s.ids)
    secrets = [[SECRET[m], SECRET[m + 1]], [SECRET[m + 2]], [SECRET[m + 3], SECRET[m + 4]]][:n]
    pubs = [[x.verfer.qb64 for x in y] for y in secrets]
    ipre, verferies = s.mgr.ingest([[x.qb64 for x in y] for y in secrets], iridx=iridx, ncount=ncount, algo=algo, temp=True)
    if ipre != pubs[0][0] or [[v.qb64 for v in y] for y in verferies] != pubs:
        bad("ingest", f"ingesting {pubs} gives {ipre}, {[[v.qb64 for v in y] for y in verferies]}")
    nxt = s.mgr.ks.pubs.get(keeping.riKey(ipre, n)).pubs
    if len(nxt) != ncount:
        bad("ingest:count", f"{len(nxt)} next keys instead of {ncount}")
    s.ids.append(Id(ipre, pubs + [list(nxt)], iridx, sum(pubs, []) + nxt, True, algo == "randy", False))


def options(s):
    yield "incept", "salty", 1, 1
    if not s.ids:
        yield "incept", "salty", 2, 3
        yield "incept", "salty", 1, 0, False
        yield "incept", "randy", 2, 1
        for n, iridx in ((1, 0), (2, 0), (3, 0), (3, 1), (3, 2)):
            yield "ingest", n, iridx, "salty", 1
        yield "ingest", 2, 1, "randy", 2
    elif len(s.ids) == 1:
        yield "incept", "randy", 1, 2
        yield "ingest", 2, 0, "salty", 2
    for i, x in enumerate(s.ids):
        yield "rotate", i, 1
        yield "rotate", i, 2, False
        yield "replay", i
        if i == 0:
            yield "rotate", i, 0
            yield "again", i
        if x.pre == x.sets[0][0]:
            yield "move", i, len(s.ids)
    for n in (0, 1, 2):
        if s.ids or n != s.seed:
            yield "aeid", n
    if len(s.ids) == 1:
        yield "mistake", 1, 2
        yield "mistake", 2, 0
    yield "restart",


OPS = dict(incept=incept, rotate=rotate, replay=replay, again=again, move=move, aeid=aeid, restart=restart, mistake=mistake, ingest=ingest)


def do(s, op):
    return OPS[op[0]](s, *op[1:])


# ------------------------------------------------------------ what must hold
def signs(s, pubs, indices=None):
    """problem with signatures by these keys, or nothing"""
    try:
        sigers = s.mgr.sign(SER, pubs=pubs)
        cigars = s.mgr.sign(SER, verfers=[coring.Verfer(qb64=p) for p in pubs], indexed=False)
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    for j, (p, g, c) in enumerate(zip(pubs, sigers, cigars)):
        if g.index != j or not coring.Verfer(qb64=p).verify(g.raw, SER) or not coring.Verfer(qb64=p).verify(c.raw, SER) \
                or g.verfer.qb64 != p or c.verfer.qb64 != p:
            return f"signature {g.qb64} or {c.qb64} is not by {p} at {j}"
    if len(sigers) != len(pubs) or len(cigars) != len(pubs):
        return f"{len(sigers)} signatures"


def audit(res, s, name, recovered=False):
    res.add("states")
    res.add("traces_validated_against_impl")
    seen = {}
    for n, x in enumerate(s.ids):
        for k, pubs in enumerate(x.sets):
            gone = [p for p in pubs if p not in x.alive]
            if pubs and not gone:
                if w := signs(s, pubs):
                    bad(f"{name}:sign", f"keys {pubs} (set {k} of {x.pre}, now at {x.at}) do not sign: {w}")
            for p in gone:
                if not recovered and not signs(s, [p]):
                    bad(f"{name}:erased", f"erased key {p} (set {k} of {x.pre}, now at {x.at}) still signs")
            for p in pubs:
                if seen.setdefault(p, (n, k)) != (n, k) or pubs.count(p) > 1:
                    bad(f"{name}:shared", f"key {p} belongs to {seen[p]} and {(n, k)}")
    if s.seed:
        secret(s, name)
    else:
        salt = s.mgr.salt
        if salt != SALT:
            bad(f"{name}:salt", f"root salt is {salt}")


def secret(s, name):
    """nothing of use is in the keystore for who lacks the seed"""
    blob = s.blob()
    if s.mgr.salt != SALT:
        bad(f"{name}:salt", f"root salt is {s.mgr.salt}")
    if SALT.encode() in blob:
        bad(f"{name}:plain:salt", "root salt in plain text in an encrypted keystore")
    for x in s.ids:
        for p in x.alive:
            signer = s.mgr.ks.pris.get(p, decrypter=s.mgr.decrypter)
            if signer.qb64b in blob or signer.raw in blob:
                bad(f"{name}:plain:key", f"private key of {p} in plain text in an encrypted keystore")
    for n in (0, 3, 1, 2):
        if n == s.seed:
            continue
        try:
            other = s.start(n)
        except kering.AuthError:
            continue
        bad(f"{name}:auth", f"keystore opened with {'another' if n else 'no'} seed")
    if s.blob() != blob:
        bad(f"{name}:auth:changed", "refused opening changed the keystore")


def later(res, s, name):
    """whatever happened, everything goes on from here"""
    for i, x in enumerate(s.ids):
        if x.sets[x.at + 1]:
            rotate(s, i, 1)
            if w := signs(s, x.sets[x.at] ):
                bad(f"{name}:later", f"after one more rotation the keys of {x.pre} do not sign: {w}")
    incept(s, "salty", 1, 1)
    audit(res, s, f"{name}:later", True)


def resolve(s, x, name):
    """the user of an identifier comes back after a death: it knows its own keys, and looks where the keystore stands"""
    sit = s.mgr.ks.sits.get(x.pre)
    if sit is None:
        bad(f"{name}:lost", f"keystore no longer knows {x.pre}")
    if sit.new.pubs == x.sets[x.at]:
        return
    if sit.old.pubs != x.sets[x.at] or sit.new.pubs != x.sets[x.at + 1]:
        bad(f"{name}:where", f"keystore stands at {sit}, the user of {x.pre} at {x.sets[x.at]} with {x.sets[x.at + 1]} next")
    verfers, digers = s.mgr.replay(x.pre, advance=False)
    moved(s, x, verfers, digers, False, s.mgr.ks.sits.get(x.pre).nxt.pubs)


def deaths(res, s, snap, op, name):
    for at in itertools.count():
        s.restore(snap)
        seed = s.seed
        if not s.dies(at, lambda: do(s, op)):
            break
        ids, s.ids = s.ids, copy.deepcopy(snap[1])
        res.add("transitions")
        where = f"{name}:died{at}"
        for n in ([seed] if op[0] != "aeid" else [seed, op[1]]):
            try:
                s.reboot(n)
                break
            except kering.AuthError:
                continue
        else:
            bad(f"{where}:locked", f"keystore died at commit {at} of {op} and opens with neither seed")
        for i, x in enumerate(s.ids):
            if op[0] == "move" and op[1] == i:      # never been used: given up
                s.ids.remove(x)
                continue
            if op[0] in ("rotate", "replay") and op[1] == i:
                for old in x.sets[:x.at]:
                    x.alive -= set(old)     # may or may not be erased by now
                resolve(s, x, where)
        audit(res, s, where, True)
        later(res, s, where)
        if op[0] in ("incept", "ingest"):
            s.restore(snap)
            s.dies(at, lambda: do(s, op))
            s.ids = copy.deepcopy(snap[1])
            s.reboot(seed)
            try:
                do(s, op)
            except ValueError as ex:
                bad(f"{where}:again", f"keystore died at commit {at} of {op}, which can never be done now: {ex}")
            audit(res, s, f"{where}:again", True)


def walk(res, s, hist, depth, crash):
    for op in list(options(s)):
        snap = s.save()
        name = ">".join(":".join(str(x) for x in o) for o in hist + [op])
        res.add("transitions")
        try:
            do(s, op)
        except kering.KeriError as ex:
            bad(f"{name}:raised", f"{type(ex).__name__}: {ex}")
        audit(res, s, name)
        if len(hist) + 1 < depth:
            walk(res, s, hist + [op], depth, crash)
        else:
            after = s.save()
            later(res, s, name)
            s.restore(after)
        if crash:
            deaths(res, s, snap, op, name)
        s.restore(snap)


def born(res, spec):
    """dying while a keystore is set up, and mistaken seeds at that time"""
    for seed in (0, 1):
        for at in itertools.count():
            s = Store.__new__(Store)
            Store.N += 1
            s.ks = keeping.Keeper(name=f"ks{Store.N}", temp=True, reopen=True)
            s.ids, s.seed = [], seed
            died = s.dies(at, lambda: s.start(seed, salt=SALT))
            s.mgr = s.start(seed, salt=SALT)
            audit(res, s, f"born:{seed}:{at}")
            later(res, s, f"born:{seed}:{at}")
            restart(s)
            audit(res, s, f"born:{seed}:{at}:again")
            s.close()
            res.add("transitions")
            if not died:
                break


def usage(res, spec):
    """signatures at asked indices, and decryption"""
    for seed in (0, 1):
        s = Store(seed)
        incept(s, "randy", 3, 1)
        x = s.ids[0]
        for pubs in (x.sets[0], x.sets[0][::-1], x.sets[0][1:], x.sets[1]):
            n = len(pubs)
            for indices in [None] + list(itertools.product((0, 1, 5, 63, 64), repeat=n)):
                for ondices in [None] + list(itertools.product((None, 0, 7, 64), repeat=n)):
                    res.add("transitions")
                    want = [(indices[j] if indices else j, (indices[j] if indices else j) if ondices is None else ondices[j]) for j in range(n)]
                    kwa = dict(indices=list(indices) if indices else None, ondices=list(ondices) if ondices else None)
                    got = s.mgr.sign(SER, pubs=pubs, **kwa)
                    if [(g.index, g.ondex) for g in got] != want or [g.verfer.qb64 for g in got] != pubs \
                            or not all(g.verfer.verify(g.raw, SER) for g in got):
                        bad(f"sign:{n}:{kwa}", f"signatures at {kwa} are {[(g.index, g.ondex, g.verfer.qb64) for g in got]}")
            for short in (dict(indices=[0] * (n + 1)), dict(ondices=[0] * (n + 1)), dict(indices=[-1] * n), dict(indices=["0"] * n),
                          dict(ondices=[True] * n), dict(ondices=[-1] * n)):
                try:
                    s.mgr.sign(SER, pubs=pubs, **short)
                except ValueError:
                    continue
                bad(f"sign:{n}:{short}", f"signing at {short} with {n} keys not refused")
        for to in x.sets[0]:
            c = pysodium.crypto_box_seal(SER, pysodium.crypto_sign_pk_to_box_pk(coring.Verfer(qb64=to).raw))
            for by in x.sets[0] + x.sets[1]:
                res.add("transitions")
                for kwa in (dict(pubs=[by]), dict(verfers=[coring.Verfer(qb64=by)])):
                    try:
                        got = s.mgr.decrypt(c, **kwa)
                    except Exception:
                        got = None
                    if got != (SER if to == by else None):
                        bad(f"decrypt:{to == by}", f"what was encrypted to {to} decrypts by {by} as {got}")
        s.close()


def paths(res, spec):
    """identifiers made long apart still have keys of their own"""
    s = Store(0, pidx=1)
    incept(s, "salty", 1, 1)
    for n in range(20):
        rotate(s, 0, 1, False)
    first = {p: (r, 0) for r, pubs in enumerate(s.ids[0].sets) for p in pubs}
    s.close()
    for pidx in [0] + list(range(2, 300)):
        s = Store(0, pidx=pidx)
        incept(s, "salty", 1, 1)
        for n in range(2):
            rotate(s, 0, 1, False)
        res.add("states")
        for r, pubs in enumerate(s.ids[0].sets):
            for p in pubs:
                if p in first:
                    res.violation(f"path:1:{first[p][0]}:{pidx}:{r}", f"identifier 1 after {first[p][0]} rotations and identifier {pidx} "
                                  f"after {r} have the same key {p}")
        s.close()


def part(res, spec):
    if isinstance(spec, str):
        return dict(born=born, usage=usage, paths=paths, kinds=kinds)[spec](res, spec)
    seed, first, depth = spec
    s = Store(seed)
    try:
        hist = []
        for op in first:
            if op not in list(options(s)):
                return
            do(s, op)
            audit(res, s, "start")
            hist.append(op)
        walk(res, s, hist, depth, True)
    finally:
        s.close()


def kinds(res, spec):
    """digests of the asked code and keys of the asked kind, by every call that gives some"""
    D = coring.MtrDex
    codes = (D.Blake3_256, D.Blake3_512, D.Blake2b_256, D.Blake2s_256, D.SHA3_256, D.SHA2_256, D.SHA2_512)

    def expect(how, verfers, digers, nxt, code, trans, ntrans):
        if [d.qb64 for d in digers] != [coring.Diger(ser=p.encode(), code=code).qb64 for p in nxt]:
            bad(f"kinds:digest:{how}", f"{how}: digests {[d.qb64 for d in digers]} are not {code} digests of {nxt}")
        if any(v.transferable != trans for v in verfers) or any(coring.Verfer(qb64=p).transferable != ntrans for p in nxt):
            bad(f"kinds:keys:{how}", f"{how}: keys {[v.qb64 for v in verfers]}, next {nxt}, not transferable as asked {trans}, {ntrans}")
        res.add("states")
        res.add("transitions")
    for algo, one, two, trans, again_ in itertools.product(("salty", "randy"), codes, codes, (True, False), (True, False)):
        s = Store()
        try:
            how = f"{algo} incept {one} {trans}"
            v, d = s.mgr.incept(icount=2, ncount=2, algo=algo, dcode=one, transferable=trans, temp=True)
            pre = v[0].qb64
            nxt = s.mgr.ks.sits.get(pre).nxt.pubs
            expect(how, v, d, nxt, one, trans, trans)
            how += f", rotate {two} {again_}"
            v, d = s.mgr.rotate(pre, ncount=1, dcode=two, transferable=again_, temp=True, erase=False)
            if [x.qb64 for x in v] != list(nxt):
                bad("kinds:next", f"{how}: keys {[x.qb64 for x in v]} instead of {nxt}")
            nxt = s.mgr.ks.sits.get(pre).nxt.pubs
            expect(how, v, d, nxt, two, trans, again_)
            v, d = s.mgr.replay(pre, dcode=one, advance=False)
            expect(how + f", again {one}", v, d, nxt, one, trans, again_)
        finally:
            s.close()
    for algo, one, two, trans in itertools.product(("salty", "randy"), codes, codes, (True, False)):
        s = Store()
        try:
            sec = [[SECRET[0]], [SECRET[1], SECRET[2]]]
            how = f"ingest {algo} {one} {trans}"
            pre, _ = s.mgr.ingest([[x.qb64 for x in y] for y in sec], ncount=2, algo=algo, dcode=one, transferable=trans, temp=True)
            v, d = s.mgr.replay(pre, dcode=two)
            nxt = s.mgr.ks.sits.get(pre).nxt.pubs
            expect(how + f", replay {two}", v, d, nxt, two, trans, trans)
        finally:
            s.close()


def main(res):
    depth = pick(3, 4)
    jobs = ["paths", "usage", "born", "kinds"]
    for seed in (0, 1):
        s = Store(seed)
        jobs.append((seed, (), 1))
        for op in options(s):
            snap = s.save()
            do(s, op)
            if THOROUGH or seed == 1:
                jobs += [(seed, (op, b), depth) for b in options(s)]
            s.restore(snap)
            jobs.append((seed, (op,), 2))
        s.close()
    explore_jobs(res, part, jobs)


def check():
    return run("M01", "model_checking", main)
