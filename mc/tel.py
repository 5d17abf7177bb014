"""A world for credential registries: hand-made registry events and credentials on top of hand-made key events, the real
Tevery, Reger and Verifier, and an independent reference of what they may and must accept."""

import copy
import functools
import types

import pysodium

from .kel import (Clock, Died, World, coring, eventing, icp, ixn, key, lmdb, make, receive, rot, seal, sig, sigs, wig, wire, wit, VS,  # noqa: F401
                  kering, huge, ctr)
from keri.core import serdering
from keri.vdr import eventing as vdr
from keri.vdr import verifying

vdr.print = verifying.print = lambda *pa, **kwa: None    # they print as they go

for fn in ("crypto_sign_detached", "crypto_sign_verify_detached"):
    setattr(pysodium, fn, functools.lru_cache(1 << 16)(getattr(pysodium, fn)))     # functions of their arguments only

AVS = "ACDC10JSON000000_"
DT = "2021-06-27T21:26:21.233257+00:00"


# ---------------------------------------------------------------- events
def vcp(issuer, baks=(), toad=None, cnfg=None, n=0):
    cnfg = (["NB"] if not baks else []) if cnfg is None else cnfg
    sad = dict(v=VS, t="vcp", d="", i="", ii=issuer, s="0", c=cnfg,
               bt="%x" % (len(baks) if toad is None else toad), b=[wit(w) for w in baks], n=f"0A{'ABCDEFGH'[n]}" + "A" * 21)
    return make(**sad)


def vrt(reg, sn, prior, toad, cuts=(), adds=()):
    return make(v=VS, t="vrt", d="", i=reg, p=prior, s="%x" % sn, bt="%x" % toad, br=[wit(w) for w in cuts], ba=[wit(w) for w in adds])


def iss(vc, reg, dt=DT, sn=0):
    return make(v=VS, t="iss", d="", i=vc, s="%x" % sn, ri=reg, dt=dt)


def rev(vc, reg, prior, dt=DT, sn=1):
    return make(v=VS, t="rev", d="", i=vc, s="%x" % sn, ri=reg, p=prior, dt=dt)


def bis(vc, reg, at, dt=DT):
    return make(v=VS, t="bis", d="", i=vc, ii=reg, s="0", ra=dict(i=reg, s=at.ked["s"], d=at.said), dt=dt)


def brv(vc, prior, reg, at, dt=DT):
    return make(v=VS, t="brv", d="", i=vc, s="1", p=prior, ra=dict(i=reg, s=at.ked["s"], d=at.said), dt=dt)


def acdc(issuer, reg, schema, a=None, e=None, issuee=None):
    attrs = dict(d="", **({"i": issuee} if issuee else {}), **(a or {}))
    _, attrs = coring.Saider.saidify(sad=attrs, label="d")
    sad = dict(v=AVS, d="", i=issuer, ri=reg, s=schema, a=attrs)
    if e is not None:
        if isinstance(e, dict):
            _, e = coring.Saider.saidify(sad=dict(d="", **e), label="d")
        sad["e"] = e
    return serdering.SerderACDC(sad=sad, makify=True)


def tseal(ev):
    """seal of a registry event in the issuer's log"""
    return dict(i=ev.ked["i"], s=ev.ked["s"], d=ev.said)


def wired(ev, anchor, wigs=()):
    return wire(ev, wigs=wigs, source=(anchor.sn, anchor.said) if anchor is not None else None)


def credwire(creder, anchor):
    """a credential with the place of its issuance in its issuer's log"""
    return bytes(creder.raw) + (ctr("I", 1) + anchor.pre + huge(anchor.sn) + anchor.said).encode()


# ---------------------------------------------------------------- the world
class Telling(World):
    """one validator of key events, registries and credentials"""

    def __init__(self, local=False):
        super().__init__()
        self.reger = vdr.Reger(name=f"r{World.N}", db=self.db, temp=True, reopen=True)
        self.local = local
        self.start()

    def start(self):
        self.tvy = vdr.Tevery(reger=self.reger, db=self.db, local=self.local)
        hby = types.SimpleNamespace(name="mc", temp=True, db=self.db, kvy=self.kvy, inited=True, version=kering.Vrsn_1_0, habs={})
        self.vry = verifying.Verifier(hby=hby, reger=self.reger)

    def save(self):
        return (super().save(), dict(self.reger.env._disk.dbs), {k: copy.copy(t) for k, t in dict.items(self.reger.tevers)})

    def restore(self, snap):
        super().restore(snap[0])
        self.reger.env._disk.dbs = dict(snap[1])
        dict.clear(self.reger.tevers)
        for k, t in snap[2].items():
            dict.__setitem__(self.reger.tevers, k, copy.copy(t))
        self.tvy.cues.clear()
        self.vry.cues.clear()

    def reboot(self):
        super().reboot()
        self.reger.env._disk.dbs = dict(self.reger.env._disk.dbs)
        dict.clear(self.reger.tevers)
        self.start()

    def dies(self, at, act, *pa):
        left = [at]

        def before(env, txn):
            if env is self.db.env or env is self.reger.env:
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
        lmdb.CONTROL.before_commit = before
        try:
            act(*pa)
            return False
        except Died:
            return True
        finally:
            lmdb.CONTROL.before_commit = None

    def get(self, msg):
        receive(self, msg, tvy=self.tvy, vry=self.vry)

    def settle(self, limit=16):
        for _ in range(limit):
            before = dict(self.db.env._disk.dbs), dict(self.reger.env._disk.dbs)
            self.kvy.processEscrows()
            self.tvy.processEscrows()
            self.vry.processEscrows()
            after = self.db.env._disk.dbs, self.reger.env._disk.dbs
            if all(a[n] is b.get(n) or a[n] == b.get(n) for a, b in zip(after, before) for n in a):
                return
        raise AssertionError("escrow processing does not settle")

    def close(self):
        env = self.reger.env
        self.reger.close(clear=True)
        lmdb.disk_drop(env)
        super().close()

    def tels(self):
        """identifier -> accepted registry events, in order"""
        out = {}
        for keys, on, said in self.reger.tels.getAllItemIter():
            pre = keys[0] if isinstance(keys, tuple) else keys
            pre = pre if isinstance(pre, str) else bytes(pre).decode()
            said = said if isinstance(said, str) else bytes(said).decode()
            out.setdefault(pre, []).append((on, said))
        return out

    def saved(self):
        return sorted(s.qb64 for _, s in self.reger.saved.getTopItemIter())
