"""What an agent keeps for its controller: notes on contacts and own identifiers, pictures, notices and mailboxes.  Every sequence
of operations, with restarts and deaths, against a reference of what was told; and every damaged byte of what is signed."""

import datetime
import io

from ..kel import Clock, Died, dig, lmdb
from ..lib import Violation, explore_jobs, pick, run
from .m02 import Home
from keri.app import notifying, organizing, storing

A, B = dig(1), dig(2)
PIC = {n: bytes([n % 251 + 1]) * n for n in (1, 4096, 4097, 9000)}


CLOCK = Clock()
START = CLOCK.now


def at(n):
    return START + datetime.timedelta(seconds=n)


class Bad(Exception):
    pass


class Desk(Home):
    """a controller with all it keeps"""

    def __init__(self):
        super().__init__(None)
        self.noter = notifying.Noter(name="mc", temp=True, reopen=True)
        self.mbx = storing.Mailboxer(name="mc", temp=True, reopen=True)
        self.boot()
        self.envs = [self.db.env, self.noter.env, self.mbx.env]

    def boot(self):
        super().boot()
        self.notifier = notifying.Notifier(hby=self.hby, noter=getattr(self, "noter", None) or object())
        self.orgs = dict(far=organizing.Organizer(self.hby), own=organizing.IdentifierOrganizer(self.hby))

    def save(self):
        return [dict(e._disk.dbs) for e in self.envs]

    def load(self, snap):
        for e, d in zip(self.envs, snap):
            e._disk.dbs = dict(d)

    def dies(self, at, act):
        left = [at]

        def before(env, txn):
            if env in self.envs:
                if left[0] == 0:
                    raise Died()
                left[0] -= 1
        lmdb.CONTROL.before_commit = before
        try:
            act()
            return False
        except Died:
            return True
        finally:
            lmdb.CONTROL.before_commit = None

    def close(self):
        for x in (self.noter, self.mbx):
            env = x.env
            x.close(clear=True)
            lmdb.disk_drop(env)
        super().close()


def same(what, have, want):
    if have != want:
        raise Bad(f"{what} gives {str(have)[:200]}, it is {str(want)[:200]}")


# ---------------------------------------------------------------- notes on contacts
class Contacts:
    """model: {(book, pre): {field: value}}, pictures {(book, pre): (type, size)}"""

    def __init__(self, desk):
        self.d = desk
        self.m = ({}, {})
        acts = []
        for book, pre, n in (("far", A, "a"), ("far", B, "b"), ("own", A, "own a")):
            acts += [(f"{n} update", ("update", book, pre, dict(name="Ann", note="x_y.z"))),
                     (f"{n} update name", ("update", book, pre, dict(name="Annabel"))),
                     (f"{n} replace", ("replace", book, pre, dict(org="Ann"))),
                     (f"{n} set", ("set", book, pre, "name", "Bob")),
                     (f"{n} remove", ("rem", book, pre))]
        acts += [("a set dotted", ("set", "far", A, "name.first", "Bob")), ("a unset", ("unset", "far", A, "name")),
                 ("a update dotted", ("update", "far", A, {"name.first": "Ann", "x": ""})),
                 ("a unset dotted", ("unset", "far", A, "name.first")),
                 ("a update with what cannot be kept", ("update", "far", A, dict(name="Cy", tags=["x"]))),
                 ("a replace with what cannot be kept", ("replace", "far", A, dict(name="Cy", tags=["x"])))]
        for n in PIC:
            acts.append((f"a picture of {n}", ("pic", "far", A, f"image/{n}", n)))
        acts += [("own a picture", ("pic", "own", A, "image/x", 4097)), ("restart", ("restart",))]
        self.acts = acts

    def state(self):
        return tuple(tuple(sorted((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in m.items())) for m in self.m)

    def after(self, a):
        """the model after a"""
        notes, pics = dict(self.m[0]), dict(self.m[1])
        if a[0] in ("update", "replace"):
            if all(isinstance(v, str) for v in a[3].values()):
                notes[a[1:3]] = {**(notes.get(a[1:3], {}) if a[0] == "update" else {}), **a[3]}
        elif a[0] == "set":
            notes[a[1:3]] = {**notes.get(a[1:3], {}), a[3]: a[4]}
        elif a[0] == "unset":
            if a[3] in notes.get(a[1:3], {}):
                notes[a[1:3]] = {k: v for k, v in notes[a[1:3]].items() if k != a[3]}
        elif a[0] == "rem":
            notes.pop(a[1:3], None)
        elif a[0] == "pic":
            pics[a[1:3]] = a[3:5]
        return notes, pics

    def do(self, a):
        if a[0] == "restart":
            return self.d.boot()
        org = self.d.orgs[a[1]]
        if a[0] == "pic":
            return org.setImg(a[2], a[3], io.BytesIO(PIC.get(a[4])))
        may = a[0] == "unset" and a[3] not in self.m[0].get(a[1:3], {}) or \
            a[0] in ("update", "replace") and self.after(a) == self.m
        try:
            getattr(org, dict(rem="rem").get(a[0], a[0]))(*a[2:])
        except Exception:
            if not may:
                raise

    def judge(self, model=None):
        notes, pictures = model or self.m
        for book in ("far", "own"):
            org = self.d.orgs[book]
            mine = {p: f for (k, p), f in notes.items() if k == book}

            def plain(got):
                return None if got is None else {k: v for k, v in got.items() if k != "id"}
            for pre in (A, B):
                got = org.get(pre)
                same(f"get of {book}", plain(got), mine.get(pre))
                if got is not None:
                    same("id", got["id"], pre)
                for f in ("name", "note", "org", "name.first", "x"):
                    same(f"get of {book} {f}", org.get(pre, field=f), mine.get(pre, {}).get(f))
                have = org.getImgData(pre)
                want = pictures.get((book, pre))
                same("picture data", have, want and dict(type=want[0], length=want[1]))
                same("picture", b"".join(org.getImg(pre)), PIC[want[1]] if want else b"")
            same(f"list of {book}", sorted((x["id"], tuple(sorted(plain(x).items()))) for x in org.list()),
                 sorted((p, tuple(sorted(f.items()))) for p, f in mine.items() if f or any(x["id"] == p for x in org.list())))
            for f in ("name", "note", "name.first", "org"):
                vals = [x[f] for x in mine.values() if f in x]
                same(f"values of {f}", sorted(org.values(f)), sorted(set(vals)))
                same(f"values of {f} like bo", sorted(org.values(f, "bo")), sorted({v for v in vals if "bo" in v.lower()}))
                for v in ("Ann", "Annabel", "Bob"):
                    same(f"find {f} {v}", sorted(x["id"] for x in org.find(f, v)),
                         sorted(p for p, x in mine.items() if v.lower() in x.get(f, "").lower()))
                    same(f"find exactly {f} {v}", sorted((x["id"], tuple(sorted(plain(x).items()))) for x in org.findExact(f, v)),
                         sorted((p, tuple(sorted(x.items()))) for p, x in mine.items() if x.get(f) == v))

    def died(self, a):
        for m in (self.m, self.after(a)):
            try:
                self.judge(m)
                return m
            except Bad as b:
                err = b
        raise Bad(f"neither as before nor as after: {err}")

    def kept(self):
        return [(self.d.envs[0], (b"cons.", b"sids."), lambda: [self.d.orgs[b].get(p) for b in ("far", "own") for p in (A, B)])]


# ---------------------------------------------------------------- notices
class Notices:
    """model: list of [rid, time, attrs, read]"""

    def __init__(self, desk):
        self.d, self.m = desk, ()
        self.acts = [("add x", ("add", "x")), ("add y at once", ("add", "y", 0))]
        for i in range(3):
            self.acts += [(f"read {i}", ("mar", i)), (f"remove {i}", ("rem", i))]
        self.acts += [("read unknown", ("mar", None)), ("remove unknown", ("rem", None)), ("restart", ("restart",))]

    def state(self):
        return tuple((t, a, r) for _, t, a, r in self.m)

    def rid(self, i):
        return dig(9) if i is None or i >= len(self.m) else self.m[i][0]

    def do(self, a):
        n = self.d.notifier
        said = n.signaler.signals
        said.clear()
        there = a[0] in ("mar", "rem") and a[1] is not None and a[1] < len(self.m)
        told = [a[0]] if a[0] in ("add", "rem") and (there or a[0] == "add") or a[0] == "mar" and there and not self.m[a[1]][3] else []
        self.op(n, a)
        same("signals", [(s.attrs["action"], s.attrs["note"]["a"]["d"], s.attrs["note"]["r"], s.topic) for s in said],
             [(t, a[1] if t == "add" else self.m[a[1]][2], t == "mar" or t == "rem" and self.m[a[1]][3], "/notification") for t in told])

    def op(self, n, a):
        if a[0] == "restart":
            self.d.boot()
        elif a[0] == "add":
            CLOCK.now = at(0 if not self.m else max(t for _, t, *_ in self.m) + (1 if len(a) == 2 else 0))
            same("add", n.add(dict(d=a[1])), True)
        else:
            i = a[1]
            there = i is not None and i < len(self.m)
            same(a[0], getattr(n, a[0])(self.rid(i)), there and (a[0] == "rem" or not self.m[i][3]))

    def after(self, a):
        if a[0] == "add":
            t = 0 if not self.m else max(t for _, t, *_ in self.m) + (1 if len(a) == 2 else 0)
            return self.m + ((None, t, a[1], False),)
        if a[0] in ("mar", "rem") and a[1] is not None and a[1] < len(self.m):
            n = self.m[a[1]]
            return self.m[:a[1]] + (((n[0], n[1], n[2], True),) if a[0] == "mar" else ()) + self.m[a[1] + 1:]
        return self.m

    def judge(self, model=None):
        """same notices in order of time; those new get their names"""
        model = self.m if model is None else model
        n = self.d.notifier
        have = n.getNotes(0, -1)
        rows = [(x.pad["dt"], x.attrs["d"], x.read) for x in have]
        want = [(at(t).isoformat(), a, r) for _, t, a, r in model]
        same("all notices", sorted(rows), sorted(want))
        same("times", [r[0] for r in rows], sorted(r[0] for r in rows))
        same("count", n.getNoteCnt(), len(model))
        known = {r: (at(t).isoformat(), a, d) for r, t, a, d in model if r}
        for x in have:
            if x.rid in known:
                same("notice", (x.pad["dt"], x.attrs["d"], x.read), known.pop(x.rid))
            got = self.d.noter.get(x.rid)
            same("one notice", (got[0].raw, self.d.hby.signator.verify(got[0].raw, got[1])), (x.raw, True))
        if known:
            raise Bad(f"other notices than told")
        for i in range(len(have)):
            for j in range(i, len(have) + 1):
                same(f"notices {i} to {j}", [x.rid for x in n.getNotes(i, j)], [x.rid for x in have[i:j + 1]])
            same(f"notices from {i}", [x.rid for x in n.getNotes(i, -1)], [x.rid for x in have[i:]])
        same("notices past the last", n.getNotes(len(have), len(have) + 1) + n.getNotes(len(have) + 1, -1), [])
        before = dict(self.d.envs[1]._disk.dbs)
        if have:
            note, cig = self.d.noter.get(have[0].rid)
            same("add of one that is there", self.d.noter.add(note, cig), False)
            note.read = not note.read
            same("add of one that is there, changed", self.d.noter.add(note, cig), False)
        other = notifying.notice(dict(d="z"), dt=at(0))
        same("update of one not there", self.d.noter.update(other, self.d.hby.signator.sign(ser=other.raw)), False)
        same("remove of one not there", self.d.noter.rem(other.rid), False)
        same("what is kept", dict(self.d.envs[1]._disk.dbs), before)
        return tuple((x.rid, round((x_time(x) - at(0)).total_seconds()), x.attrs["d"], x.read) for x in have)

    def died(self, a):
        for m in (self.m, self.after(a)):
            try:
                return self.judge(m)
            except Bad as b:
                err = b
        raise Bad(f"neither as before nor as after: {err}")

    def kept(self):
        return [(self.d.envs[1], (b"nots.",), lambda: [(x.raw,) for x in self.d.notifier.getNotes(0, -1)])]


def x_time(x):
    return datetime.datetime.fromisoformat(x.pad["dt"])


# ---------------------------------------------------------------- mailboxes
class Mail:
    """model: {topic: (messages by number)}"""
    TOPICS = (A + "/credential", A + "/credentials", B + "/credential", A + "/a.b", A + "/a")

    def __init__(self, desk):
        self.d, self.m = desk, {}
        self.acts = [(f"store {m} under {t[-12:]} {t[:4]}", ("store", t, m)) for t in self.TOPICS for m in ("m1", "m2")]
        self.acts += [("take out 0", ("del", self.TOPICS[0], 0)), ("take out 1", ("del", self.TOPICS[0], 1)),
                      ("restart", ("restart",))]

    def state(self):
        return tuple(sorted(self.m.items()))

    def after(self, a):
        m = dict(self.m)
        if a[0] == "store":
            m[a[1]] = m.get(a[1], ()) + (a[2],)
        elif a[0] == "del" and a[2] < len(m.get(a[1], ())) - 1:
            m[a[1]] = m[a[1]][:a[2]] + (None,) + m[a[1]][a[2] + 1:]
        return m

    def do(self, a):
        if a[0] == "restart":
            self.d.boot()
        elif a[0] == "store":
            same("store", self.d.mbx.storeMsg(a[1], a[2].encode() if a[2] == "m1" else a[2]), True)
        elif a[2] < len(self.m.get(a[1], ())) - 1:          # the last one's number is used again
            same("take out", self.d.mbx.delTopic(a[1], a[2]), self.m[a[1]][a[2]] is not None)

    def judge(self, model=None):
        model = self.m if model is None else model
        for t in self.TOPICS:
            row = model.get(t, ())
            for fn in range(len(row) + 2):
                want = [(i, t, m.encode()) for i, m in enumerate(row) if m is not None and i >= fn]
                for top in (t, t.encode()):
                    same(f"topic {t[-12:]} {t[:4]} from {fn}", list(self.d.mbx.cloneTopicIter(top, fn)), [(i, top, m) for i, _, m in want])
                    same(f"messages of {t[-12:]} {t[:4]} from {fn}", self.d.mbx.getTopicMsgs(top, fn), [m for *_, m in want])

    def died(self, a):
        for m in (self.m, self.after(a)):
            try:
                self.judge(m)
                return m
            except Bad as b:
                err = b
        raise Bad(f"neither as before nor as after: {err}")

    def kept(self):
        return []


POOLS = dict(contacts=Contacts, notices=Notices, mail=Mail)


def job(res, spec):
    mode, pool, lead, depth = spec
    CLOCK.install()
    desk = Desk()
    p = POOLS[pool](desk)

    def do(i, path):
        here = path + (p.acts[i][0],)
        res.add("transitions")
        try:
            nxt = p.after(p.acts[i][1])
            p.do(p.acts[i][1])
            p.m = nxt
            named = p.judge()
            if named is not None:
                p.m = named
        except Bad as b:
            raise Violation(f"{pool}: {', '.join(here)}", f"{pool}: {', '.join(here)}: {b}")
        except Exception as ex:
            raise Violation(f"{pool}: {', '.join(here)}", f"{pool}: {', '.join(here)}: fails with {ex!r}"[:600])
        return here
    try:
        path = ()
        for i in lead:
            path = do(i, path)
        if mode == "damage":
            return damage(res, p, path)
        if mode == "deaths":
            snap, model = desk.save(), p.m
            for n, (name, a) in enumerate(p.acts):
                if a[0] == "restart":
                    continue
                cut = 0
                while True:
                    desk.load(snap)
                    p.m = model
                    how = f"{pool}: {', '.join(path)}, death at commit {cut} of {name}"
                    try:
                        if not desk.dies(cut, lambda: p.do(a)):
                            break
                        res.add("deaths")
                        res.add("states")
                        desk.boot()
                        p.m = p.died(a)
                        left, after = desk.save(), p.m
                        for again in range(len(p.acts)):        # then any other, also the same again
                            desk.load(left)
                            p.m = after
                            do(again, (how,))
                            if pool == "contacts" and p.acts[again][1][0] == "pic" or again == n:
                                do(len(p.acts) - 1, (how, p.acts[again][0]))
                    except Bad as b:
                        raise Violation(how, f"{how}: {b}")
                    except Violation:
                        raise
                    except Exception as ex:
                        raise Violation(how, f"{how}: fails with {ex!r}"[:600])
                    cut += 1
            return
        seen, todo = {p.state()}, [(desk.save(), p.m, path)]
        res.add("states")
        for snap, m, path in todo:
            if len(path) >= depth:
                continue
            for i in range(len(p.acts)):
                desk.load(snap)
                p.m = m
                here = do(i, path)
                k = p.state()
                if k not in seen:
                    seen.add(k)
                    res.add("states")
                    todo.append((desk.save(), p.m, here))
    finally:
        desk.close()


def damage(res, p, path):
    """every byte of what is kept under a signature, changed"""
    for env, names, read in p.kept():
        good = read()
        for name in names:
            table = dict(env._disk.dbs).get(name)
            for key, val in dict(table or {}).items():
                for i in range(len(val)):
                    for x in (1, 32):
                        bad = bytes(val[:i]) + bytes([val[i] ^ x]) + bytes(val[i + 1:])
                        before = dict(env._disk.dbs)
                        with env.begin(write=True) as txn:
                            txn.put(key, bad, db=env.open_db(name))
                        res.add("transitions")
                        res.add("states")
                        try:
                            got = read()
                        except Exception:
                            got = None
                        env._disk.dbs = before
                        if got is not None and got != good:
                            raise Violation(f"damage:{i}:{x}", f"{', '.join(path)}: with byte {i} of {name} changed: {got} is told")


def main(res):
    jobs = []
    for name in POOLS:
        d = Desk()
        n = len(POOLS[name](d).acts)
        d.close()
        jobs += [("bfs", name, (i,), pick(dict(contacts=3, notices=5, mail=3)[name], dict(contacts=4, notices=7, mail=4)[name])) for i in range(n)]
        jobs += [("deaths", name, (), 0)] + [("deaths", name, (i,), 0) for i in range(n)]
    jobs += [("damage", "contacts", (0, 6), 0), ("damage", "notices", (0, 1, 2), 0), ("damage", "contacts", (0, 3, 10), 0)]
    jobs += [("deaths", "notices", (0, 1), 0), ("deaths", "notices", (0, 0, 2), 0), ("deaths", "mail", (0, 1, 2), 0), ("deaths", "contacts", (0, 5, 10), 0)]
    explore_jobs(res, job, jobs)
    res.counts["traces_validated_against_impl"] = res.counts["transitions"]


def check():
    return run("N01", "model_checking", main)
