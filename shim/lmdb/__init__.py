# -*- encoding: utf-8 -*-
"""In-memory stand-in for py-lmdb (the C library is not installed here).

Implements the part of py-lmdb's documented API that keri uses, with LMDB's
documented semantics: lexicographic key order, dupsort stores, single writer,
snapshot isolation of read transactions (MVCC), atomic commit / abort, the 511
byte key limit, persistent per-database flags.  The "disk" is a registry in this
process keyed by path, so closing and reopening an environment keeps its data.

Harness interface (not part of py-lmdb):
    CONTROL.before_commit   callable(env, txn) run before a write transaction that
                            changed something commits; raising aborts it (crash)
    CONTROL.commits         number of changing commits so far
    disk_snapshot/disk_restore/disk_clear
"""
import bisect as _bisect
import itertools
import os
from sortedcontainers import SortedDict

__version__ = "2.1.1"
MAXKEY = 511


class Error(Exception):
    pass


class BadValsizeError(Error):
    pass


class MapFullError(Error):
    pass


class DbsFullError(Error):
    pass


class ReadonlyError(Error):
    pass


class BadTxnError(Error):
    pass


class NotFoundError(Error):
    pass


class IncompatibleError(Error):
    pass


class InvalidParameterError(Error):
    pass


class LockError(Error):
    pass


class _Control:
    def __init__(self):
        self.before_commit = None
        self.commits = 0


CONTROL = _Control()
_DISK = {}   # id -> _Disk
_IDS = itertools.count()
_open = open


class _Disk:
    __slots__ = ("dbs", "flags")

    def __init__(self):
        self.dbs = {None: SortedDict()}      # name -> SortedDict
        self.flags = {None: False}           # name -> dupsort


def _diskid(path, create=False):
    """The content of <path>/data.mdb names the registry entry, so that moving or removing
    the directory moves or removes the database."""
    f = os.path.join(path, "data.mdb")
    try:
        with _open(f) as h:
            return h.read()
    except (FileNotFoundError, NotADirectoryError):
        if not create:
            return None
    i = f"{os.getpid()}-{next(_IDS)}"
    with _open(f, "w") as h:
        h.write(i)
    return i


def disk_clear(path=None):
    if path is None:
        _DISK.clear()
    else:
        _DISK.pop(_diskid(path), None)


def disk_drop(env):
    """forget the content of a (closed) environment"""
    _DISK.pop(env._id, None)


def _copydb(items, dup):
    if dup:
        return SortedDict((k, list(v)) for k, v in items.items())
    return items.copy()


def disk_snapshot(path):
    """Deep copy of the durable content at path: {name: (dupsort, {key: val})}"""
    d = _DISK[_diskid(path)]
    return {n: (d.flags[n], {k: (list(v) if d.flags[n] else v) for k, v in s.items()})
            for n, s in d.dbs.items()}


def disk_restore(path, snap):
    d = _Disk()
    d.dbs = {n: SortedDict({k: (list(v) if f else v) for k, v in s.items()}) for n, (f, s) in snap.items()}
    d.flags = {n: f for n, (f, s) in snap.items()}
    _DISK[_diskid(path, True)] = d


class _Database:
    def __init__(self, env, name, dupsort):
        self.env = env
        self.name = name
        self.dupsort = dupsort

    def flags(self, txn=None):
        return dict(reverse_key=False, dupsort=self.dupsort, integer_key=False,
                    dupfixed=False, integer_dup=False, reverse_dup=False)


def _b(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, (memoryview, bytearray)):
        return bytes(x)
    raise TypeError(f"a bytes-like object is required, not {type(x).__name__}")


class Environment:
    def __init__(self, path, map_size=10485760, subdir=True, readonly=False,
                 metasync=True, sync=True, map_async=False, mode=493, create=True,
                 readahead=True, writemap=False, meminit=True, max_readers=126,
                 max_dbs=0, max_spare_txns=1, lock=True):
        self._path = path
        self._readonly = readonly
        self._max_dbs = max_dbs
        self._id = _diskid(path, not readonly)
        if self._id not in _DISK:
            if readonly:
                raise Error(f"{path}: No such file or directory")
            _DISK[self._id] = _Disk()
        self._disk = _DISK[self._id]
        self._handles = {}
        self._writer = None
        self._closed = False
        self._txns = []

    def path(self):
        return self._path

    def max_key_size(self):
        return MAXKEY

    def close(self):
        for t in list(self._txns):
            t.abort()
        self._closed = True

    def flags(self):
        return {}

    def stat(self):
        return dict(entries=len(self._disk.dbs) - 1)

    def info(self):
        return {}

    def sync(self, force=False):
        pass

    def _check(self):
        if self._closed:
            raise Error("Attempt to operate on closed/deleted/dropped object.")

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True,
                integerkey=False, integerdup=False, dupfixed=False):
        self._check()
        if key is None:
            return _Database(self, None, False)
        key = _b(key)
        if key in self._handles:
            return self._handles[key]
        d = self._disk
        if key not in d.dbs:
            if self._readonly or not create:
                raise NotFoundError("mdb_dbi_open: MDB_NOTFOUND")
            if len(self._handles) >= self._max_dbs:
                raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL")
            if self._writer is not None:
                raise LockError("open_db while write transaction open: deadlock in LMDB")
            d.dbs[key] = SortedDict()
            d.flags[key] = bool(dupsort)
            d.dbs[None][key] = b"\x00subdb"
        elif len(self._handles) >= self._max_dbs:
            raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL")
        h = _Database(self, key, d.flags[key])
        self._handles[key] = h
        return h

    def begin(self, db=None, parent=None, write=False, buffers=False):
        self._check()
        return Transaction(self, db, parent, write, buffers)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Transaction:
    def __init__(self, env, db=None, parent=None, write=False, buffers=False):
        if parent is not None:
            raise NotImplementedError("nested transactions")
        self.env = env
        self._db = db
        self._write = write
        self._buffers = buffers
        self._done = False
        self._changed = False
        d = env._disk
        if write:
            if env._readonly:
                raise ReadonlyError("mdb_txn_begin: Permission denied")
            if env._writer is not None:
                raise LockError("second write transaction in one thread: deadlock in LMDB")
            env._writer = self
            self._view = dict(d.dbs)      # name -> items, copy on write
            self._owned = set()
        else:
            self._view = dict(d.dbs)
        env._txns.append(self)

    # -- internals
    def _items(self, db):
        if self._done:
            raise BadTxnError("transaction is finished")
        db = db if db is not None else self._db
        name = db.name if db is not None else None
        if name not in self._view:  # db created after this txn began
            raise BadTxnError("mdb: MDB_BAD_DBI")
        return name, self._view[name], (db.dupsort if db is not None else False)

    def _mut(self, db):
        """items map that may be changed in this txn"""
        if not self._write:
            raise ReadonlyError("mdb_put: Permission denied")
        name, items, dup = self._items(db)
        if name not in self._owned:
            items = _copydb(items, dup)
            self._view[name] = items
            self._owned.add(name)
        self._changed = True
        return items, dup

    def _wrap(self, v):
        return memoryview(v) if self._buffers else v

    def _finish(self):
        if self._done:
            return False
        self._done = True
        if self in self.env._txns:
            self.env._txns.remove(self)
        if self._write:
            if self.env._writer is self:
                self.env._writer = None
        return True

    def commit(self):
        if self._done:
            return
        try:
            if self._write and self._changed and CONTROL.before_commit is not None:
                CONTROL.before_commit(self.env, self)
        except BaseException:
            self._finish()
            raise
        if self._finish() and self._write and self._changed:
            CONTROL.commits += 1
            for name in self._owned:
                self.env._disk.dbs[name] = self._view[name]

    def abort(self):
        self._finish()

    def __enter__(self):
        return self

    def __exit__(self, typ, val, tb):
        if typ is None:
            self.commit()
        else:
            self.abort()
        return False

    def __del__(self):
        try:
            self.abort()
        except Exception:
            pass

    def id(self):
        return 0

    # -- data
    @staticmethod
    def _chk(key):
        key = _b(key)
        if not 0 < len(key) <= MAXKEY:
            raise BadValsizeError("mdb: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size")
        return key

    def get(self, key, default=None, db=None):
        key = self._chk(key)
        _, items, dup = self._items(db)
        v = items.get(key)
        if v is None:
            return default
        return self._wrap(v[0] if dup else v)

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        key = self._chk(key)
        value = _b(value)
        _, items, dup = self._items(db)
        if not self._write:
            raise ReadonlyError("mdb_put: Permission denied")
        if dup:
            if len(value) > MAXKEY:
                raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
            cur = items.get(key)
            if cur is not None:
                if not overwrite:
                    return False
                i = _bisect.bisect_left(cur, value)
                if i < len(cur) and cur[i] == value:
                    return bool(dupdata)
            items, _ = self._mut(db)
            cur = items.get(key)
            if cur is None:
                items[key] = [value]
            else:
                _bisect.insort(cur, value)
            return True
        if not overwrite and key in items:
            return False
        items, _ = self._mut(db)
        items[key] = value
        return True

    def replace(self, key, value, db=None):
        old = self.get(key, db=db)
        self.put(key, value, db=db)
        return old

    def pop(self, key, db=None):
        old = self.get(key, db=db)
        if old is not None:
            self.delete(key, db=db)
        return old

    def delete(self, key, value=b'', db=None):
        key = self._chk(key)
        value = _b(value)
        _, items, dup = self._items(db)
        if not self._write:
            raise ReadonlyError("mdb_del: Permission denied")
        if key not in items:
            return False
        if dup and value:
            if value not in items[key]:
                return False
            items, _ = self._mut(db)
            items[key].remove(value)
            if not items[key]:
                del items[key]
            return True
        items, _ = self._mut(db)
        del items[key]
        return True

    def drop(self, db, delete=True):
        items, _ = self._mut(db)
        items.clear()

    def stat(self, db=None):
        _, items, dup = self._items(db)
        return dict(entries=sum(len(v) for v in items.values()) if dup else len(items))

    def cursor(self, db=None):
        return Cursor(db if db is not None else self._db, self)


class Cursor:
    """Position is (key, dup value) or None"""

    def __init__(self, db, txn):
        self.db = db
        self.txn = txn
        self._pos = None      # (key, val|None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def _st(self):
        _, items, dup = self.txn._items(self.db)
        return items, dup

    def _at(self, key, val=None):
        self._pos = (key, val)
        return True

    def _none(self):
        self._pos = None
        return False

    # -- read current
    def key(self):
        return self.txn._wrap(self._pos[0] if self._pos else b'')

    def value(self):
        if not self._pos:
            return self.txn._wrap(b'')
        items, dup = self._st()
        if dup:
            return self.txn._wrap(self._pos[1])
        return self.txn._wrap(items.get(self._pos[0], b''))

    def item(self):
        return (self.key(), self.value())

    # -- moves
    def first(self):
        items, dup = self._st()
        if not items:
            return self._none()
        k, v = items.peekitem(0)
        return self._at(k, v[0] if dup else None)

    def last(self):
        items, dup = self._st()
        if not items:
            return self._none()
        k, v = items.peekitem(-1)
        return self._at(k, v[-1] if dup else None)

    def first_dup(self):
        items, dup = self._st()
        if not self._pos or self._pos[0] not in items:
            return self._none()
        return self._at(self._pos[0], items[self._pos[0]][0]) if dup else True

    def last_dup(self):
        items, dup = self._st()
        if not self._pos or self._pos[0] not in items:
            return self._none()
        return self._at(self._pos[0], items[self._pos[0]][-1]) if dup else True

    def _ge(self, key, strict):
        items, dup = self._st()
        i = items.bisect_right(key) if strict else items.bisect_left(key)
        if i >= len(items):
            return self._none()
        k, v = items.peekitem(i)
        return self._at(k, v[0] if dup else None)

    def _lt(self, key):
        items, dup = self._st()
        i = items.bisect_left(key)
        if i == 0:
            return self._none()
        k, v = items.peekitem(i - 1)
        return self._at(k, v[-1] if dup else None)

    def next(self):
        if not self._pos:
            return self.first()
        if self.next_dup(_keep=True):
            return True
        return self._ge(self._pos[0], True)

    def prev(self):
        if not self._pos:
            return self.last()
        if self.prev_dup(_keep=True):
            return True
        return self._lt(self._pos[0])

    def next_dup(self, _keep=False):
        items, dup = self._st()
        if self._pos and dup and self._pos[0] in items:
            vs = items[self._pos[0]]
            i = _bisect.bisect_right(vs, self._pos[1])
            if i < len(vs):
                return self._at(self._pos[0], vs[i])
        return False if _keep else self._none()

    def prev_dup(self, _keep=False):
        items, dup = self._st()
        if self._pos and dup and self._pos[0] in items:
            vs = items[self._pos[0]]
            i = _bisect.bisect_left(vs, self._pos[1])
            if i > 0:
                return self._at(self._pos[0], vs[i - 1])
        return False if _keep else self._none()

    def next_nodup(self):
        if not self._pos:
            return self.first()
        return self._ge(self._pos[0], True)

    def prev_nodup(self):
        if not self._pos:
            return self.last()
        return self._lt(self._pos[0])

    def set_range(self, key):
        key = _b(key)
        if not key:
            return self.first()
        return self._ge(key, False)

    def set_key(self, key):
        key = Transaction._chk(key)
        items, dup = self._st()
        if key not in items:
            return self._none()
        return self._at(key, items[key][0] if dup else None)

    def set_key_dup(self, key, value):
        key, value = _b(key), _b(value)
        items, dup = self._st()
        if key not in items or value not in (items[key] if dup else [items[key]]):
            return self._none()
        return self._at(key, value if dup else None)

    def set_range_dup(self, key, value):
        key, value = _b(key), _b(value)
        items, dup = self._st()
        if key in items and dup:
            i = _bisect.bisect_left(items[key], value)
            if i < len(items[key]):
                return self._at(key, items[key][i])
        return self._none()

    def get(self, key, default=None):
        return self.value() if self.set_key(key) else default

    def count(self):
        items, dup = self._st()
        if not self._pos or self._pos[0] not in items:
            raise Error("cursor not positioned")
        return len(items[self._pos[0]]) if dup else 1

    # -- writes
    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        ok = self.txn.put(key, val, dupdata=dupdata, overwrite=overwrite, db=self.db)
        items, dup = self._st()
        k = _b(key)
        self._at(k, (_b(val) if ok else items[k][0]) if dup else None)
        return ok

    def replace(self, key, val):
        old = self.txn.get(key, db=self.db)
        self.put(key, val)
        return old

    def pop(self, key):
        if not self.set_key(key):
            return None
        v = self.value()
        self.delete()
        return v

    def delete(self, dupdata=False):
        if not self._pos:
            return False
        items, dup = self.txn._mut(self.db)
        key, val = self._pos
        if key not in items:
            return False
        if dup and not dupdata:
            vs = items[key]
            if val in vs:
                i = vs.index(val)
                vs.pop(i)
                if not vs:
                    del items[key]
                elif i < len(vs):
                    self._at(key, vs[i])
                    return True
        else:
            del items[key]
        self._ge(key, True)
        return True

    # -- iteration
    def _iter(self, move, start, keys, values):
        if not self._pos:
            ok = start()
        else:
            ok = True
        while ok:
            if keys and values:
                yield self.item()
            elif keys:
                yield self.key()
            else:
                yield self.value()
            ok = move()

    def iternext(self, keys=True, values=True):
        return self._iter(self.next, self.first, keys, values)

    __iter__ = iternext

    def iterprev(self, keys=True, values=True):
        return self._iter(self.prev, self.last, keys, values)

    def iternext_dup(self, keys=False, values=True):
        return self._iter(self.next_dup, lambda: False, keys, values)

    def iterprev_dup(self, keys=False, values=True):
        return self._iter(self.prev_dup, lambda: False, keys, values)

    def iternext_nodup(self, keys=True, values=False):
        return self._iter(self.next_nodup, self.first, keys, values)

    def iterprev_nodup(self, keys=True, values=False):
        return self._iter(self.prev_nodup, self.last, keys, values)


def open(path, **kwa):
    return Environment(path, **kwa)


def version(subpatch=False):
    return (0, 9, 31)
