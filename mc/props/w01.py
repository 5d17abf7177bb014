"""Watchers: what is made of their reports about a log.  Every own log x every set of reports of the watchers x every threshold."""

import itertools

from ..kel import World, icp, ixn, key, receive, rot, sigs, wire, wit
from ..lib import pick, run, explore_jobs
from keri import kering
from keri.app import watching
from keri.core import coring
from keri.recording import ObservedRecord

ME = wit(30)


def logs(n):
    """two logs of n events, the same up to the first and apart from there on; and one that another identifier has"""
    out = []
    for fork in (0, 1):
        i = icp([1], [2])
        evs = [(i, 1)]
        for k in range(1, n):
            e = evs[-1][0]
            if k == 2:
                evs.append((rot(i.pre, k, e.said, [2], [3 + fork]), 2))
            else:
                evs.append((ixn(i.pre, k, e.said, [dict(i=key(50 + fork))] if fork and k == 1 else []), 1 if k < 2 else 2))
        out.append(evs)
    return out


class Me:
    """the one who asks, as the adjudicator knows it"""

    def __init__(self, w):
        self.pre, self.db = ME, w.db

    @property
    def kevers(self):
        return self.db.kevers


def records(n):
    """{(log, sn): key state there}"""
    out = {}
    for f, evs in enumerate(logs(n)):
        w = World()
        try:
            for e, k in evs:
                receive(w, wire(e, sigs(e, [k])))
                st = w.db.kevers[e.pre].state()
                assert int(st.s, 16) == e.sn
                out[f, e.sn] = st
        finally:
            w.close()
    return out


def judge(own, reports, toad):
    """what reports [(log, sn)] of as many watchers mean to one who has log 0 up to own: (kind, watchers concerned, sn)"""
    answered = {w: r for w, r in reports.items() if r}
    said = {w: (0 if sn == 0 else f, sn) for w, (f, sn) in answered.items()}
    if any(sn == own and f for f, sn in said.values()):
        return "keyStateDuplicitous", {w for w, (f, sn) in said.items() if sn == own and f}, None
    ahead = {w: v for w, v in said.items() if v[1] > own}
    if ahead:
        for n in {sn for _, sn in ahead.values()}:
            if len({f for f, sn in ahead.values() if sn == n}) > 1:
                return "keyStateDuplicitous", set(ahead), None
        for n in sorted({sn for _, sn in ahead.values()}, reverse=True):
            there = {w for w, (f, sn) in ahead.items() if sn == n}
            if len(there) >= toad:
                return "keyStateUpdate", there, n
        return None, set(), None
    behind = {w for w, (f, sn) in said.items() if sn < own}
    if behind:
        return "keyStateLagging", behind, None
    return "keyStateConsistent", set(said), None


CUEFIELD = dict(keyStateDuplicitous="dups", keyStateUpdate="aheads", keyStateLagging="behind", keyStateConsistent="states")


def job(res, j):
    own, count, first = j
    n = own + 3
    recs = records(n)
    w = World()
    try:
        evs = logs(n)[0][:own + 1]
        for e, k in evs:
            receive(w, wire(e, sigs(e, [k])))
        pre = evs[0][0].pre
        other = icp([9], [10]).pre
        assert w.kel(pre) == [e.said for e, _ in evs]
        snap = w.save()
        options = [None, "off", "gone", "else"] + [k for k in sorted(recs) if k[1] or not k[0]]
        seen = set()
        for rest in itertools.product(range(len(options)), repeat=count - 1):
            if list(rest) != sorted(rest):
                continue
            for turn in (0, 1):                             # who of the watchers reports what must not matter
                picks = [options[first]] + [options[i] for i in rest]
                picks = picks[::-1] if turn else picks
                w.restore(snap)
                reports = {}
                for i, p in enumerate(picks):
                    aid = wit(i)
                    on = p not in ("off", "gone")
                    watched = other if p == "else" else pre
                    if p != "gone":
                        w.db.obvs.pin(keys=(ME, aid, watched), val=ObservedRecord(enabled=on))
                    w.db.obvs.pin(keys=(wit(31), aid, pre), val=ObservedRecord(enabled=True))      # watched for someone else
                    if p == "off" or p == "gone" or p == "else":
                        p = (1, own + 1)                    # says what would count if it were asked
                    elif p is not None:
                        reports[aid] = p
                    else:
                        reports[aid] = None
                    if p is not None:
                        said = coring.Diger(ser=f"{aid}{p}".encode())
                        w.db.knas.pin(keys=(pre, aid), val=said)
                        w.db.ksns.pin(keys=(said.qb64,), val=recs[p])
                for toad in [None] + list(range(1, count + 2)):
                    adj = watching.Adjudicator(hby=None, hab=Me(w))
                    adj.msgs.append(dict(oid=pre, toad=toad) if toad else dict(oid=pre))
                    where = f"own log to {own}, watchers say {picks} (log, number), threshold {toad}"
                    res.add("transitions")
                    try:
                        adj.performAdjudications()
                        got = [dict(c) for c in adj.cues]
                    except ValueError as ex:
                        got = ex
                    need = toad or len(reports)
                    bad = None
                    if need > len(reports):
                        bad = None if isinstance(got, ValueError) else f"threshold of {need} with {len(reports)} watchers taken"
                    elif isinstance(got, ValueError):
                        bad = f"refused: {got}"
                    else:
                        kind, who, sn = judge(own, reports, need)
                        kinds = [c["kin"] for c in got]
                        if kinds != ([kind] if kind else []):
                            bad = f"{kinds}, it is {kind}"
                        elif kind:
                            c = got[0]
                            named = {s.wit for s in c[CUEFIELD[kind]]}
                            if named != who or c["oid"] != pre or c["cid"] != ME or set(c["wids"]) != set(reports) or c.get("sn") != sn:
                                bad = f"{kind} of {sorted(named)} at {c.get('sn')} out of {sorted(c['wids'])}, it is {sorted(who)} at {sn} of {sorted(reports)}"
                    if bad:
                        res.violation(f"{own}:{picks}:{toad}", f"{where}: {bad}", dict(own=own, reports=[str(p) for p in picks], toad=toad))
                        if res.full:
                            return
                if w.kel(pre) != [e.said for e, _ in evs]:
                    res.violation(f"{own}:{picks}", f"own log changed by {picks}")
                if tuple(map(str, picks)) not in seen:
                    seen.add(tuple(map(str, picks)))
                    res.add("states")
    finally:
        w.close()


def main(res):
    jobs = []
    for own in (0, 1, 2):
        n = len([k for k in itertools.product((0, 1), range(own + 3)) if k[1] or not k[0]]) + 4
        for count in pick((1, 2, 3), (1, 2, 3, 4)):
            jobs += [(own, count, f) for f in range(n)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("W01", "model_checking", main)
