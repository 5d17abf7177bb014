"""Independent reference for key event log acceptance (no delegation): who may extend a log with
what.  Works on plain field dicts and on knowledge of which key made which signature; shares no
code with the repository."""

from dataclasses import dataclass, field, replace
from fractions import Fraction


def weights(t):
    """threshold text -> ("n", int) or ("w", [clauses of weights])"""
    if isinstance(t, str) and "/" not in t and not t.startswith("["):
        return "n", int(t, 16)
    if isinstance(t, int):
        return "n", t
    if not isinstance(t[0], (list, tuple)):
        t = [t]
    return "w", t


def flat(clause):
    """leaf count of a clause; a weight may be a mapping {outer: [inner...]}"""
    n = 0
    for w in clause:
        n += len(list(w.values())[0]) if isinstance(w, dict) else 1
    return n


def size(t):
    kind, v = weights(t)
    return v if kind == "n" else sum(flat(c) for c in v)


def satisfied(t, indices):
    """does a set of distinct positions meet the threshold"""
    have = set(indices)
    kind, v = weights(t)
    if kind == "n":
        return v > 0 and len(have) >= v
    if not have:
        return False
    at = 0
    for clause in v:
        total = Fraction(0)
        for w in clause:
            if isinstance(w, dict):
                (outer, inner), = w.items()
                got = sum((Fraction(x) for i, x in enumerate(inner) if at + i in have), Fraction(0))
                at += len(inner)
                if got >= 1:
                    total += Fraction(outer)
            else:
                if at in have:
                    total += Fraction(w)
                at += 1
        if total < 1:
            return False
    return True


@dataclass(frozen=True)
class St:
    """what a validator knows about one log"""
    pre: str
    sn: int
    said: str
    ilk: str
    k: tuple
    kt: object
    n: tuple
    nt: object
    b: tuple
    bt: int
    est: tuple            # (sn, said) of the latest establishment event
    eo: bool = False
    nd: bool = False
    trans: bool = True
    at: dict = field(default_factory=dict)     # sn -> said, latest accepted
    first: tuple = ()                          # first seen order

    def seen(self):
        return dict(sn=self.sn, d=self.said, ilk=self.ilk, k=list(self.k), kt=self.kt, n=list(self.n), nt=self.nt,
                    bt=self.bt, b=list(self.b), ee=self.est, eo=self.eo, nd=self.nd, di=None)


@dataclass(frozen=True)
class Sg:
    """one signature as the test author made it"""
    k: str                 # public key that really signed the delivered event ("" = nobody's)
    index: int
    ondex: object = None   # position in the previous next-list, None when not given
    nontrans: bool = False


def good(keys, sgs):
    return [s for s in sgs if s.k and s.index < len(keys) and keys[s.index] == s.k]


def judge(st, ev, sgs, wgs, commits, nontrans=lambda pre: False):
    """-> (verdict, next state).  verdict one of accept redeliver ooo dup psig pwit reject.
    commits(key) are the digests, one of each kind, that commit to a public key"""
    sad, said, ilk = ev.sad, ev.said, ev.sad["t"]
    sn = int(sad["s"], 16)
    if st is None:
        if ilk not in ("icp", "dip"):
            return "ooo", None
        return begin(ev, sgs, wgs, nontrans)
    if ilk == "icp":
        if st.at[0] == said:
            return "redeliver", st
        return "dup", st
    if sn > st.sn + 1:
        return "ooo", st
    if sn <= st.sn and not (ilk == "rot" and sn > st.est[0]):
        return ("redeliver" if st.at.get(sn) == said else "dup"), st
    if not st.trans or not st.n:
        return "reject", st
    if ilk == "ixn":
        if st.eo or sad["p"] != st.said:
            return "reject", st
        v = quorum(st.k, st.kt, sgs, st.b, st.bt, wgs)
        if v != "accept":
            return v, st
        return "accept", replace(st, sn=sn, said=said, ilk=ilk, at={**st.at, sn: said}, first=st.first + (said,))
    # rotation: in order, or recovery replacing interaction events after the latest establishment
    if sad["p"] != st.at[sn - 1]:
        return "reject", st
    keys, kt = tuple(sad["k"]), sad["kt"]
    if len(keys) < size(kt) or len(sad["n"]) < size(sad["nt"]):
        return "reject", st
    cuts, adds = sad["br"], sad["ba"]
    if (len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds) or not set(cuts) <= set(st.b)
            or set(cuts) & set(adds) or set(adds) & set(st.b)):
        return "reject", st
    wits = tuple(w for w in st.b if w not in cuts) + tuple(adds)
    bt = int(sad["bt"], 16)
    if (wits and not 1 <= bt <= len(wits)) or (not wits and bt):
        return "reject", st
    ok = good(keys, sgs)
    if not ok:
        return "reject", st
    if not satisfied(kt, [s.index for s in ok]):
        return "psig", st
    exposed = [s.ondex for s in ok if s.ondex is not None and s.ondex < len(st.n) and st.n[s.ondex] in commits(s.k)]
    if not satisfied(st.nt, exposed):
        return "psig", st
    if len({w.index for w in good(wits, wgs)}) < bt:
        return "pwit", st
    at = {i: d for i, d in st.at.items() if i < sn}
    return "accept", replace(st, sn=sn, said=said, ilk=ilk, k=keys, kt=kt, n=tuple(sad["n"]), nt=sad["nt"], b=wits,
                             bt=bt, est=(sn, said), at={**at, sn: said}, first=st.first + (said,))


def quorum(keys, kt, sgs, wits, bt, wgs):
    ok = good(keys, sgs)
    if not ok:
        return "reject"
    if not satisfied(kt, [s.index for s in ok]):
        return "psig"
    if len({w.index for w in good(wits, wgs)}) < bt:
        return "pwit"
    return "accept"


def begin(ev, sgs, wgs, nontrans):
    sad, said = ev.sad, ev.said
    keys, wits, bt = tuple(sad["k"]), tuple(sad["b"]), int(sad["bt"], 16)
    if int(sad["s"], 16) != 0 or len(keys) < size(sad["kt"]) or len(sad["n"]) < size(sad["nt"]):
        return "reject", None
    nt = nontrans(sad["i"])
    if nt and (sad["n"] or wits or sad["a"]):
        return "reject", None
    if len(set(wits)) != len(wits):
        return "reject", None
    if (wits and not 1 <= bt <= len(wits)) or (not wits and bt):
        return "reject", None
    v = quorum(keys, sad["kt"], sgs, wits, bt, wgs)
    if v != "accept":
        return v, None
    return "accept", St(pre=sad["i"], sn=0, said=said, ilk=sad["t"], k=keys, kt=sad["kt"], n=tuple(sad["n"]),
                        nt=sad["nt"], b=wits, bt=bt, est=(0, said), eo="EO" in sad["c"], nd="DND" in sad["c"],
                        trans=not nt, at={0: said}, first=(said,))
