From a8e20b1e586e0a9eb61751feeb1b10a3ffd5efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 001/122] fix: append at a key skips entries of keys nested
 under it

appendOnVal and appendOnIoSetVals looked only at the one entry just before
the maximum ordinal of key. When that entry belonged to a nested key
(key + sep + ...) the append restarted at ordinal 0, which either failed or
wrote out of order. Walk back to the last entry of key itself.
---
 src/keri/db/dbing.py    | 68 ++++++++++++++++++-----------------------
 src/keri/db/webdbing.py | 37 ++++++++--------------
 2 files changed, 43 insertions(+), 62 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..c3b12f2 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -822,29 +822,25 @@ class LMDBer(filing.Filer):
             on = 0  # unless other cases match then zeroth entry at key
             cursor = txn.cursor()
             if not cursor.set_range(onkey):  # max is past end of database
-                #  so either empty database or last is earlier key or
-                #  last is last entry  at same key
-                if cursor.last():  # not empty db. last entry earlier than max
-                    onkey = cursor.key()
-                    ckey, cn = splitOnKey(onkey, sep=sep)
-                    if ckey == key:  # last is last entry for same key
-                        on = cn + 1  # increment
+                # so either empty database or last is earlier key or
+                # last is last entry  at same key
+                found = cursor.last()  # not empty db. last entry earlier than max
             else:  # not past end so not empty either later key or max entry at key
-                onkey = cursor.key()
-                ckey, cn = splitOnKey(onkey, sep=sep)
+                ckey, cn = splitOnKey(cursor.key(), sep=sep)
                 if ckey == key:  # last entry for key is already at max
                     raise ValueError(f"Number part {cn=} for key part {ckey=}"
                                      f"exceeds maximum size.")
-                else:  # later key so backup once
-                    # either earlier no entry before last or earlier entry
-                    # at same or earlier key
-                    if cursor.prev():  # earlier entry, maybe same or earlier key
-                        onkey = cursor.key()
-                        ckey, cn = splitOnKey(onkey, sep=sep)
-                        if ckey == key:  # earlier entry as same key so increment
-                            on = cn + 1  # increment
-                        # otherwise no earlier entry at same key so create below
-                    # otherwise no earlier entry at any key so create below
+                found = cursor.prev()  # later key so backup once
+
+            # walk back over any entries of keys nested under key, key + sep + ...
+            # to last entry at same key, otherwise no earlier entry at same key
+            minkey = onKey(key, 0, sep=sep)
+            while found and (onkey := bytes(cursor.key())) >= minkey:
+                ckey, cn = splitOnKey(onkey, sep=sep)
+                if ckey == key:  # last entry for same key
+                    on = cn + 1  # increment
+                    break
+                found = cursor.prev()
 
             onkey = onKey(key, on, sep=sep)  # create new entry at new on
 
@@ -1615,30 +1611,26 @@ class LMDBer(filing.Filer):
             if not cursor.set_range(iokey):  # max at key is past end of database
                 # either empty database or key missing but greater than
                 # exiting keys or key exists and is greatest with its last < max
-                if cursor.last():  # last is there so not empty
-                    ciokey = cursor.key()
-                    conkey, cion = unsuffix(ciokey, sep=sep)
-                    ckey, con = splitOnKey(conkey, sep=sep)
-                    if ckey == key:  # same key greatest and last < max
-                        on = con + 1  # increment on to append
-                    # else key missing but greater so create zeroth entry at key
-                # else no last so empty db so create zeroth entry at key
+                found = cursor.last()
             else:  # max not past end so db not empty.
-                ciokey = cursor.key()  # last is greater key or max at same key
-                conkey, cion = unsuffix(ciokey, sep=sep)
+                # last is greater key or max at same key
+                conkey, cion = unsuffix(cursor.key(), sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if ckey == key:  # last entry for same key is already at max
                     raise ValueError(f"Failed append entry to {key=}, would "
                                      f"exceed max on at {MaxON=}")
-                else:  # last is zeroth entry at next greater key than key
-                    if cursor.prev():  #backup one key to same key or earlier key
-                        ciokey = cursor.key()
-                        conkey, cion = unsuffix(ciokey, sep=sep)
-                        ckey, con = splitOnKey(conkey, sep=sep)
-                        if ckey == key:  # found last entry at same key
-                            on = con + 1  # increment on
-                        # else earlier key so create zeroth entry at key
-                    # else no earlier key so create zeroth entry at key
+                found = cursor.prev()  # backup one to same key or earlier key
+
+            # walk back over any entries of keys nested under key, key + sep + ...
+            # to last entry at same key, otherwise create zeroth entry at key
+            minkey = onKey(key, on=0, sep=sep)
+            while found and (ciokey := bytes(cursor.key())) >= minkey:
+                conkey, cion = unsuffix(ciokey, sep=sep)
+                ckey, con = splitOnKey(conkey, sep=sep)
+                if ckey == key:  # found last entry at same key
+                    on = con + 1  # increment on
+                    break
+                found = cursor.prev()
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
             for ion, val in enumerate(vals):
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..ef75cef 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -584,19 +584,17 @@ class WebDBer:
         if not key or val is None:
             raise ValueError(f"Bad append parameter: {key=} or {val=}")
 
-        onkey = onKey(key, MaxON, sep=sep)
-        idx = db.items.bisect_right(onkey)
-        if idx:
-            ponkey, _ = db.items.peekitem(idx - 1)
+        on = 0  # unless prior entry at key
+        # walk back over any entries of keys nested under key, i.e. key + sep + ...
+        for ponkey in db.items.irange(minimum=onKey(key, 0, sep=sep),
+                                      maximum=onKey(key, MaxON, sep=sep),
+                                      reverse=True):
             ckey, cn = splitOnKey(ponkey, sep=sep)
             if ckey == key:
                 if cn >= MaxON:
                     raise ValueError(f"Number part {cn=} for key part {key=} exceeds maximum size.")
                 on = cn + 1
-            else:
-                on = 0
-        else:
-            on = 0
+                break
 
         if not self.putVal(db=db, key=onKey(key, on, sep=sep), val=val):
             raise ValueError(f"Failed appending {val=} at {key=}.")
@@ -1550,22 +1548,15 @@ class WebDBer:
         if not key or not vals or not isNonStringIterable(vals):
             raise ValueError(f"Bad append parameter: {key=} or {vals=}")
 
-        # Compute the maximum ON prefix for this key
-        maxOnkey = onKey(key, on=MaxON, sep=sep)
-        maxIokey = suffix(maxOnkey, ion=MaxON, sep=sep)
-
         items = db.items
 
-        # 1. Find the last key <= maxIokey
+        # 1. Find the last entry at key if any, walking back over any entries of
+        # keys nested under key, i.e. key + sep + ...
+        minIokey = suffix(onKey(key, on=0, sep=sep), ion=0, sep=sep)
+        maxIokey = suffix(onKey(key, on=MaxON, sep=sep), ion=MaxON, sep=sep)
+        on = 0  # unless prior entry at key
 
-        # irange with maximum gives us all keys <= maxIokey
-        # The last of those is the LMDB cursor.last() equivalent.
-        lastIokey = next(items.irange(maximum=maxIokey, reverse=True), None)
-
-        if lastIokey is None:
-            # No entries at all → ON = 0
-            on = 0
-        else:
+        for lastIokey in items.irange(minimum=minIokey, maximum=maxIokey, reverse=True):
             lastOnkey, _ = unsuffix(lastIokey, sep=sep)
             lastKey, lastOn = splitOnKey(lastOnkey, sep=sep)
 
@@ -1576,9 +1567,7 @@ class WebDBer:
                         f"Failed append entry to {key=}, would exceed max on at {MaxON=}"
                     )
                 on = lastOn + 1
-            else:
-                # Last key belongs to a different logical key -> ON = 0
-                on = 0
+                break
 
         # 2. Insert new ON-group 
 
-- 
2.43.0


From fb49bd069429691909d0a514a3841e9fa7ca27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 002/122] fix: web store persists appended and removed ordinal
 sets

appendOnIoSetVals and remOnAllIoSet changed the in-memory store without
marking it dirty so flush() skipped it: appended sets were lost and removed
sets came back on reopen.
---
 src/keri/db/webdbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index ef75cef..44e4537 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1581,6 +1581,7 @@ class WebDBer:
                 )
             items[iokey] = val
 
+        db.dirty = True
         return on
 
 
@@ -1771,6 +1772,9 @@ class WebDBer:
             del items[iokey]
             result = True
 
+        if result:
+            db.dirty = True
+
         return result
 
 
-- 
2.43.0


From 267d301a4472b8693486c339c50ecdb56b94cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 003/122] fix: ordinal sets keep set semantics on append and
 empty key

appendOnIoSetVals stored duplicate values as distinct members of the set, and
addOnIoSetVal stored an entry under an empty key although it is documented to
return False then. Same in both database backends.
---
 src/keri/db/dbing.py    | 4 +++-
 src/keri/db/webdbing.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index c3b12f2..67fcce5 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1633,7 +1633,7 @@ class LMDBer(filing.Filer):
                 found = cursor.prev()
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
-            for ion, val in enumerate(vals):
+            for ion, val in enumerate(oset(vals)):  # set so no duplicates
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
                 if not cursor.put(iokey, val, overwrite=False):
                     raise  ValueError(f"Failed appending {val=} at {key=} {on=} "
@@ -1669,6 +1669,8 @@ class LMDBer(filing.Filer):
         Uses hidden ordinal key suffix for insertion ordering which is
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False"""
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 44e4537..00ec35e 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1573,7 +1573,7 @@ class WebDBer:
 
         onkey = onKey(key, on, sep=sep)
 
-        for ion, val in enumerate(vals):
+        for ion, val in enumerate(oset(vals)):  # set so no duplicates
             iokey = suffix(onkey, ion=ion, sep=sep)
             if iokey in items:
                 raise ValueError(
@@ -1610,6 +1610,8 @@ class WebDBer:
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False
         """
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
-- 
2.43.0


From ed7993e3457f38b0a6e484ed8017b40f9c7ca812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 004/122] fix: web store iterators tolerate changes while
 iterating

The iterators walked the live SortedDict, so removing the entry just yielded
skipped entries or raised IndexError. The lmdb backend iterates inside a read
transaction, and callers such as the escrow loops remove while iterating.
---
 src/keri/db/webdbing.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 00ec35e..88a475b 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 import json
 from collections.abc import Awaitable, Callable, Iterable, Iterator
 from dataclasses import dataclass, field
+from functools import wraps
 from typing import Any
 
 try:
@@ -125,6 +126,18 @@ def unsuffix(iokey: Union[bytes, str, memoryview], *, sep: Union[bytes, str]=b'.
     return (key, ion)
 
 
+def snapshot(func):
+    """Decorator for generator method func that walks the live items of a SubDb.
+    Items are collected at first next so that like an lmdb read transaction the
+    iteration is over the items as of its start and is not disturbed by entries
+    added or removed while iterating.
+    """
+    @wraps(func)
+    def wrapper(*pa, **kwa):
+        yield from list(func(*pa, **kwa))
+    return wrapper
+
+
 def isNonStringIterable(obj):
     """
     Returns:
@@ -810,6 +823,7 @@ class WebDBer:
             key, on = splitOnKey(okey, sep=sep)
             yield key, on, val
 
+    @snapshot
     def getOnAllItemIter(
         self,
         db: SubDb,
@@ -843,6 +857,7 @@ class WebDBer:
         """
         yield from _iterOnItems(db=db, key=key if key else None, on=on, sep=sep)
 
+    @snapshot
     def getTopItemIter(self, db: SubDb, top: bytes = b"") -> Iterator[tuple[bytes, bytes]]:
         """
         Iterate over `(key, val)` pairs whose keys start with `top`.
@@ -1096,6 +1111,7 @@ class WebDBer:
         return True
 
 
+    @snapshot
     def getIoSetItemIter(self, db, key, *, ion=0, sep=b'.'):
         """Get iterator over items in IoSet at effecive key.
         When key is empty then returns empty iterator
@@ -1347,6 +1363,7 @@ class WebDBer:
             yield (key, val)
 
     
+    @snapshot
     def getIoSetLastItemIterAll(self, db, key=b'', *, sep=b'.'):
         """Iterates over every last added ioset entry at every effective key
         starting at key greater or equal to key.
@@ -1884,6 +1901,7 @@ class WebDBer:
             yield (key, on, val)
 
             
+    @snapshot
     def getOnAllIoSetItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over each item of each set for all on >= on for key.
         When on == 0, default, then iterates over all items for all on for key.
@@ -1943,6 +1961,7 @@ class WebDBer:
             yield (ckey, con, items[iokey])
 
 
+    @snapshot
     def getOnAllIoSetLastItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over last items of each set for all on >= on at key
         When on ==0, default, iterates over last items of each set for all on at key
@@ -2013,6 +2032,7 @@ class WebDBer:
             yield last
 
 
+    @snapshot
     def getOnAllIoSetItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over all set items for all on <= on for key.
         When on is None, iterates backwards over all set items for all on for key
@@ -2082,6 +2102,7 @@ class WebDBer:
             yield (ckey, con, items[ciokey])
 
 
+    @snapshot
     def getOnAllIoSetLastItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over last set items for all on <= on for key.
         When on is None iterates backwards over last set items for all on for key
-- 
2.43.0


From dc420b5d1b98b825cd25515e3e0370c27adcb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 005/122] fix: web store flush keeps changes made while a sync
 is awaited

flush() cleared the dirty flag after awaiting the storage sync, so a change
made by another task during that await was marked clean without ever being
persisted. Clear the flag before the await, restore it when the sync fails,
and let overlapping flushes take turns so none returns before its data is
stored.
---
 src/keri/db/webdbing.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 88a475b..398257d 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -7,6 +7,7 @@ Browser-safe plain-value DBer backed by PyScript storage.
 
 from __future__ import annotations
 
+import asyncio
 import json
 from collections.abc import Awaitable, Callable, Iterable, Iterator
 from dataclasses import dataclass, field
@@ -245,6 +246,7 @@ class WebDBer:
         self._stores = stores
         self.stores = list(stores)
         self._version = None
+        self._flushing = asyncio.Lock()
 
     @classmethod
     async def open(
@@ -330,14 +332,21 @@ class WebDBer:
             were synced.
         """
         count = 0
-        for subdb in self._stores.values():
-            if not subdb.dirty:
-                continue
-            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
-            subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
-            await subdb.handle.sync()
-            subdb.dirty = False
-            count += 1
+        async with self._flushing:  # one flush at a time
+            for subdb in self._stores.values():
+                if not subdb.dirty:
+                    continue
+                subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
+                subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
+                # clean before sync so that changes made while awaiting sync
+                # are dirty after
+                subdb.dirty = False
+                try:
+                    await subdb.handle.sync()
+                except BaseException:  # not persisted, includes cancelled
+                    subdb.dirty = True
+                    raise
+                count += 1
         return count
 
     @property
-- 
2.43.0


From f9001bf15220381645668697895127f27a0caff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 006/122] fix: backward ordinal set iterators end quietly when
 key is absent

---
 src/keri/db/dbing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 67fcce5..ccbc10a 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2083,7 +2083,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing earlier so key not in db
+                        return
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2140,13 +2141,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database so raise StopIteration
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing earlier so key not in db
+                        return
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From 843e4337735e17971f6dc96ee5dcdf9af564b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 007/122] fix: append of ordinal set at maximum ordinal is
 refused

---
 src/keri/db/dbing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index ccbc10a..e98687e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1628,6 +1628,9 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if ckey == key:  # found last entry at same key
+                    if con >= MaxON:  # last entry for same key is already at max
+                        raise ValueError(f"Failed append entry to {key=}, would "
+                                         f"exceed max on at {MaxON=}")
                     on = con + 1  # increment on
                     break
                 found = cursor.prev()
-- 
2.43.0


From fc1753dbbd44e1488db359b057f80603130c5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 008/122] fix: backward ordinal set iterators find key with
 keys nested under it

---
 src/keri/db/dbing.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index e98687e..8c64888 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2085,9 +2085,12 @@ class LMDBer(filing.Filer):
                 ciokey = cursor.key()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                if not ckey == key or not con <= on:  # cursor at next onkey
-                    if not cursor.prev():  # nothing earlier so key not in db
-                        return
+                # cursor at next onkey, or at entry of key nested under key,
+                # key + sep + ..., so walk back to entry at same key if any
+                minkey = onKey(key, 0, sep=sep)
+                while not ckey == key or not con <= on:
+                    if bytes(ciokey) < minkey or not cursor.prev():
+                        return  # nothing earlier so key not in db
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2150,9 +2153,12 @@ class LMDBer(filing.Filer):
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                if not ckey == key or not con <= on:  # cursor at next onkey
-                    if not cursor.prev():  # nothing earlier so key not in db
-                        return
+                # cursor at next onkey, or at entry of key nested under key,
+                # key + sep + ..., so walk back to entry at same key if any
+                minkey = onKey(key, 0, sep=sep)
+                while not ckey == key or not con <= on:
+                    if bytes(ciokey) < minkey or not cursor.prev():
+                        return  # nothing earlier so key not in db
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From fd9e746c61e99aefb72c0b5b1b3ff1d739241cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 009/122] fix: put of duplicate values adds repeated value once

---
 src/keri/db/dbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 8c64888..daa0603 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2428,6 +2428,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # vals may repeat
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(key, val, dupdata=True)
                     idx += 1
@@ -2803,6 +2804,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # vals may repeat
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(onkey, val, dupdata=True)
                     idx += 1
-- 
2.43.0


From 008daa0d9fec6bd8d9cce57f27ecb511273729e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 010/122] fix: put at ordinal checks duplicates at that ordinal

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index daa0603..eb0fc72 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2789,7 +2789,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on, sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
-- 
2.43.0


From 762932a3f11bef9523bcb0ceafe2148f5fa45715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 011/122] fix: backward duplicate iterator starts at or below
 its ordinal

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index eb0fc72..94dc6cb 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3217,7 +3217,7 @@ class LMDBer(filing.Filer):
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
                     ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if ckey == key and cn == on: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From 1c11781b47dac8f5d0640ef9ede4c2f36305c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 012/122] fix: web registry store can flush without closing

---
 src/keri/acdc/webregbasing.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/keri/acdc/webregbasing.py b/src/keri/acdc/webregbasing.py
index 984411d..a62fd73 100644
--- a/src/keri/acdc/webregbasing.py
+++ b/src/keri/acdc/webregbasing.py
@@ -162,6 +162,21 @@ class WebRegBaser(WebDBer):
 
         self.db.setVer(val)
 
+    async def flush(self):
+        """
+        Persist pending writes without closing browser database.
+
+        Returns:
+            int: number of stores synced
+
+        Raises:
+            RuntimeError: if the browser database is not open
+        """
+        if self.db is None:
+            raise RuntimeError("WebRegBaser is not open")
+
+        return await self.db.flush()
+
     def close(self, *, clear=False):
         """
         Close browser database when it has no pending writes.
-- 
2.43.0


From 4200b4a6acde7f6564078a1ba8ad5766180be9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 013/122] fix: spec tagger never marks a block that is already
 marked

---
 tools/tag_spec_examples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 584e7f3..32c0f78 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -29,7 +29,7 @@ import sys
 
 _OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*$", re.IGNORECASE)
 _CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*$")
-_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*[^>]*-->\s*$")
+_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*([^>]*?)\s*-->\s*$")
 
 
 def _parse_body(lang, body):
@@ -76,7 +76,8 @@ def tag(manifest, text):
     inserts = []          # (open_idx, name)
     tagged = []
     warnings = []
-    used = set()
+    # names already marked anywhere so that they are never marked twice
+    used = set(m.group(1) for m in map(_MARKER_RE.match, lines) if m)
 
     for open_idx, close_idx, lang, body in blocks:
         try:
@@ -97,7 +98,7 @@ def tag(manifest, text):
             continue
         if name in used:
             warnings.append(f"line {open_idx + 1}: manifest block '{name}' "
-                            f"already tagged on an earlier fence; skipped")
+                            f"already tagged on another fence; skipped")
             continue
         used.add(name)
         inserts.append((open_idx, name))
-- 
2.43.0


From 8ee4e81d3a46207ad0079afe86eba950f7fdaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 014/122] fix: signatures that share an index count once toward
 thresholds

---
 src/keri/core/coring.py   | 3 ++-
 src/keri/core/eventing.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..ea4ed8a 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # each index counts once no matter how many signatures share it
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..5d1af73 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -353,7 +353,10 @@ def verifySigs(raw, sigers, verfers):
     vsigers = []
     for siger in uvsigers:
         if siger.verfer.verify(siger.raw, raw):
-            vindices.append(siger.index)
+            # same index may be signed more than once, such as, with different
+            # index code, but must count once toward threshold
+            if siger.index not in vindices:
+                vindices.append(siger.index)
             vsigers.append(siger)
 
     return (vsigers, vindices)
-- 
2.43.0


From 2a8d97c40b9d0d305e078ce16326f9fafa8bec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 015/122] fix: signature at index beyond weights does not
 unsatisfy threshold

---
 src/keri/core/coring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index ea4ed8a..56ffa49 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4688,7 +4688,8 @@ class Tholder:
             indices = sorted(set(indices))
             sats = [False] * self.size  # default all satifactions to False
             for idx in indices:
-                sats[idx] = True  # set verified signature index to True
+                if idx < self.size:  # index without weight adds no weight
+                    sats[idx] = True  # set verified signature index to True
 
             wio = 0  # weight index offset
             for clause in self.thold:
-- 
2.43.0


From 535a7d017b9c50f0862b4e0ec204bc18dc02335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 016/122] fix: likely duplicitous events are escrowed

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 5d1af73..b61577f 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5814,7 +5814,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From c1f950431e679515360de6b619967d19cea877df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 017/122] fix: next threshold beyond the next key digests is
 refused

---
 src/keri/core/eventing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b61577f..49badf9 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2371,6 +2371,9 @@ class Kever:
                                   "".format(self.prefixer.qb64, ked))
         self.ndigers = serder.ndigers
         self.ntholder = serder.ntholder
+        if len(ndigs) < self.ntholder.size:
+            raise ValidationError(f"Invalid nsith = {ked['nt']} for ndigs = "
+                                  f"{ndigs} for evt = {ked}.")
 
         self.cuts = []  # always empty at inception since no prev event
         self.adds = []  # always empty at inception since no prev event
@@ -2670,6 +2673,10 @@ class Kever:
             raise ValidationError(f"Invalid sith = {serder.tholder} for keys = "
                                   f"{keys} for evt = {ked}.")
 
+        if len(serder.ndigs) < serder.ntholder.size:
+            raise ValidationError(f"Invalid nsith = {ked['nt']} for ndigs = "
+                                  f"{serder.ndigs} for evt = {ked}.")
+
         # compute wits from existing .wits with new cuts and adds from event
         # use ordered set math ops to verify and ensure strict ordering of wits
         # cuts and add to ensure that indexed signatures on indexed witness
-- 
2.43.0


From 549af7ac06ab793839a4b672de6493097ba1f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 018/122] fix: recovery rotation applies its witness cuts and
 adds

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 49badf9..efa30dc 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2708,7 +2708,8 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        # rotation later than last est evt, including recovery, changes backers
+        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
             return self.wits, self.cuts, self.adds
 
         witset = oset(self.wits)
-- 
2.43.0


From 5fd26625e5276218de99bddbf0ed80357fbd7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 019/122] fix: receipt of an event other than the last seen at
 its number is held as unverified

---
 src/keri/core/eventing.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index efa30dc..3b9cfbe 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4493,14 +4493,10 @@ class Kevery:
         # Only accept receipt if for last seen version of event at sn
         ldig = self.db.kels.getLast(keys=pre, on=sn) # retrieve dig of last event at sn.
 
-        if ldig is not None:  # verify digs match
-            # retrieve event by dig assumes if ldig is not None that event exists at ldig
+        if ldig is not None and ldig == serder.said:  # receipts last seen event at sn
+            # assumes if ldig is not None that event exists at ldig
             dgkey = dgKey(serder.preb, serder.saidb)
             lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
-            # assumes db ensures that lserder must not be none
-            if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
-                raise ValidationError("Stale receipt at sn = {} for rct = {}."
-                                      "".format(ked["s"], ked))
 
             # process each couple verify sig and write to db
             for cigar in cigars:
@@ -4675,7 +4671,8 @@ class Kevery:
                         keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
-        else:  # no events to be receipted yet at that sn so escrow
+        else:  # no such event to be receipted yet at that sn so escrow, may be
+            # receipt of pending recovery of event at that sn
             if cigars:
                 self.escrowUReceipt(serder, cigars, said=ked["d"])  # digest in receipt
 
-- 
2.43.0


From 0c0d38b8a9c69d2e3295070cd310f50ebc73ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 020/122] fix: interrupted acceptance of an event leaves no
 trace in the logs

---
 src/keri/core/eventing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 3b9cfbe..e123e2e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3615,6 +3615,22 @@ class Kever:
 
 
 
+    def unlogEvents(self):
+        """Removes from first seen log and key event log any event first seen
+        after that of the saved key state. Such an event was left there by
+        an acceptance interrupted before its key state was saved, so that event
+        was never accepted.
+        """
+        pre = self.prefixer.qb64
+        ksr = self.db.states.get(keys=pre)
+        fn = int(ksr.f, 16) + 1 if ksr is not None else 0  # next first seen ordinal
+        for _, on, said in list(self.db.fels.getAllItemIter(keys=pre, on=fn)):
+            if (serder := self.db.evts.get(keys=(pre, said))) is not None:
+                self.db.kels.rem(keys=pre, on=serder.sn, val=said)
+            self.db.fons.rem(keys=(pre, said))
+            self.db.fels.rem(keys=pre, on=on)
+
+
     def logEvent(self, serder, sigers=None, wigers=None, wits=None, first=False,
                  delnum=None, diger=None, firner=None, dater=None, local=True):
         """
@@ -3682,6 +3698,7 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
+            self.unlogEvents()  # of acceptance that was interrupted
             fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
-- 
2.43.0


From 6dfb40bbc75b66f1fdf13011351b3a43f03523c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 021/122] fix: redelivered accepted delegated rotation is a
 duplicate, not a recovery attempt

---
 src/keri/core/eventing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index e123e2e..aeef7c9 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4399,8 +4399,9 @@ class Kevery:
                 elif ((sn == sno) or  # inorder event (ixn, rot, drt) or
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
-                      (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                      (ilk == Ilks.drt and  # delegated superseding recovery drt
+                        kever.lastEst.s <= sn <= sno and
+                        self.db.kels.getLast(keys=pre, on=sn) != said)):  # not redelivered
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From 94edb4a93bbad2220dcc5e27c025cf924d22156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 022/122] fix: delegated rotation on a log that is not
 delegated is refused

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index aeef7c9..f7a4d64 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2488,6 +2488,11 @@ class Kever:
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
 
+            if not self.delegated and ilk == Ilks.drt:
+                raise ValidationError("Attempted delegated rotation on non "
+                                      "delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
+
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
             # Validates signers, delegation if any, and witnessing when applicable
-- 
2.43.0


From 6023a4ce6c44a4c9e05b6d746b229390859b8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 023/122] fix: delegated rotation may supersede any
 interactions after the latest establishment event

---
 src/keri/core/eventing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f7a4d64..874ead6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3410,10 +3410,7 @@ class Kever:
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
         if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+            (serder.sner.num > self.lastEst.s)):  # inorder later or supersedes interactions only (A0)
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
@@ -3423,7 +3420,9 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # original accepted delegated event i.e. serf original, latest est event
+        if not (serfo := self.db.evts.get(keys=(self.prefixer.qb64, self.lastEst.d))):
+            raise ValidationError(f"Missing superseded event {self.lastEst.d}.")
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
-- 
2.43.0


From 934e205e2d9f886b5d9af18747993a0bc8ed5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 024/122] fix: recursive rules for superseding delegated
 rotations climb the chain of delegators and stop at its root

---
 src/keri/core/eventing.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 874ead6..1f3c78c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3440,8 +3440,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # at same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding delegation is rotation and
+                 bosso.ilk == Ilks.ixn)): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3472,6 +3473,14 @@ class Kever:
                     raise ValidationError(msg)
 
             # tie condition same sn and drt so need to climb delegation chain
+            # rule C climb to delegator's delegator, only delegated rotations have one
+            if (not (delpre := self.kevers[delpre].delpre) or
+                    bossn.ilk != Ilks.drt or bosso.ilk != Ilks.drt):  # C1 discard
+                msg = f"Invalid delegation recovery rotation of {self.serder.pre} by {serder.said}"
+                logger.info(msg)
+                logger.debug("Event Body=\n%s\n", serder.pretty())
+                raise ValidationError(msg)
+
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
-- 
2.43.0


From b8f009ee4943f0bb6d18dbe3a403ff78650c9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 025/122] fix: delegating event of superseded delegated event
 is found even when itself superseded

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1f3c78c..f316e64 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3594,8 +3594,8 @@ class Kever:
         elif eager:  # missing aes but try to find seal by walking delegator's KEL
             seal = SealEvent(i=serder.pre, s=serder.snh, d=serder.said)._asdict()
             if original:  # search all events in delegator's kel not just last
-                if not (dserder := self.db.fetchLastSealingEventByEventSeal(pre=delpre,
-                                                                            seal=seal)):
+                if not (dserder := self.db.fetchAllSealingEventByEventSeal(pre=delpre,
+                                                                           seal=seal)):
                     # database broken this should never happen so do not validate
                     # since original must have been validated so it must have
                     # all its delegation chain.
-- 
2.43.0


From b37408c1d4d50ce1ea183ea65774df5969affb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 026/122] fix: delegated rotation that supersedes a rotation is
 judged by the establishment event before both

---
 src/keri/core/eventing.py | 54 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f316e64..c4ac7be 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2667,7 +2667,8 @@ class Kever:
                                       "".format(prior, self.serder.said, ked))
 
         # check derivation code of pre for non-transferable
-        if not self.ndigers:  # prior next list is empty so rotations not allowed
+        _, ndigers, _ = self.fetchPriorEstState(serder)
+        if not ndigers:  # prior next list is empty so rotations not allowed
             raise ValidationError("Attempted rotation for nontransferable"
                                   " prefix = {} for evt = {}."
                                   "".format(self.prefixer.qb64, ked))
@@ -2714,10 +2715,14 @@ class Kever:
         Parameters:
             serder (SerderKeri): instance of current event"""
         # rotation later than last est evt, including recovery, changes backers
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s >= serder.sn:  # no changes
+        # so does delegated rotation that supersedes last est evt
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or self.lastEst.s > serder.sn or
+                self.lastEst.d == serder.said or
+                (self.lastEst.s == serder.sn and serder.ilk != Ilks.drt)):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        priors, _, _ = self.fetchPriorEstState(serder)
+        witset = oset(priors)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2739,14 +2744,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {priors} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(priors) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{priors}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
@@ -2875,8 +2880,9 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            _, ndigers, ntholder = self.fetchPriorEstState(serder)
+            ondices = self.exposeds(sigers, ndigers=ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
@@ -2962,7 +2968,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -2989,11 +2995,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list | None): of prior next Diger instances exposed by sigers.
+                None means use self.ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
@@ -4022,6 +4031,29 @@ class Kever:
         return None
 
 
+    def fetchPriorEstState(self, serder):
+        """Returns triple (wits, ndigers, ntholder) of the establishment event that
+        rotation event in serder follows. This is the latest establishment event
+        unless serder is a delegated rotation that supersedes the latest one.
+
+        Parameters:
+            serder (SerderKERI): instance of rotation event
+        """
+        if serder.ilk != Ilks.drt or serder.sn > self.lastEst.s:
+            return (self.wits, self.ndigers, self.ntholder)
+
+        pre = self.prefixer.qb64
+        if serder.sn > 0:
+            for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+                pserder = self.db.evts.get(keys=(pre, dig))
+                if pserder is not None and pserder.estive:  # establishment event
+                    wits = [wit.qb64 for wit in self.db.wits.get(keys=(pre, dig))]
+                    return (wits, pserder.ndigers, pserder.ntholder)
+
+        raise ValidationError(f"Missing establishment event prior to sn={serder.sn} "
+                              f"for evt={serder.ked}.")
+
+
     def fetchLatestContribTo(self, verfers, sn: int | None = None):
         """ Returns tuple of (sn, index, verfer) from latest est event whose
         verfer is found in verfers at index offset else None if not found.
-- 
2.43.0


From 53b680853b565106d43de840189a5b0e5b81c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 027/122] fix: events superseded in a delegator's log no longer
 approve delegations

---
 src/keri/core/eventing.py | 3 ++-
 src/keri/db/basing.py     | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c4ac7be..96605d6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3341,7 +3341,8 @@ class Kever:
             # get the dig of the delegating event. Using getKeLast ensures delegating
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
-            raw = self.db.kels.getLast(keys=delpre, on=ssn)  # last means not disputed or superseded
+            # last no later than key state means not disputed or superseded
+            raw = self.db.kels.getLast(keys=delpre, on=ssn) if ssn <= dkever.sner.num else None
             if raw is None:  # no delegatint event yet. no index at key pre, sn
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..b27b1d6 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2161,6 +2161,7 @@ class Baser(LMDBer):
         if hasattr(pre, 'encode'):
             pre = pre.encode("utf-8")
 
+        ksr = self.states.get(keys=pre)  # last events past current one are superseded
         for dig in self.kels.getLastIter(keys=pre, on=sn):
             try:
 
@@ -2170,6 +2171,9 @@ class Baser(LMDBer):
             except Exception:
                 continue  # skip this event
 
+            if ksr is not None and serder.sn > int(ksr.s, 16):
+                return  # superseded
+
             yield serder  # event as Serder
 
 
-- 
2.43.0


From 9f7a8ee1a1924461b04eea307a0b61b18a7b57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 028/122] fix: an event counts as fully witnessed by the
 threshold in force at that event

---
 src/keri/db/basing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index b27b1d6..417c0be 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2077,8 +2077,11 @@ class Baser(LMDBer):
         # have been gathered if this ius a witness for serder.pre
         # get unique verified wigers and windices lists from wigers list
         wigers = self.wigs.get(keys=(serder.preb, serder.saidb))
-        kever = self.kevers[serder.pre]
-        toad = kever.toader.num
+        # threshold of latest establishment event as of serder
+        eserder = serder
+        while eserder is not None and not eserder.estive:
+            eserder = self.evts.get(keys=(serder.pre, eserder.prior))
+        toad = eserder.bner.num if eserder is not None else self.kevers[serder.pre].toader.num
 
         return not len(wigers) < toad
 
-- 
2.43.0


From fc8cd80a1b648db8ba1d8aca15497926db01e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 029/122] fix: key state reloaded from the database does not
 raise for lack of cues when an event must wait

---
 src/keri/core/eventing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 96605d6..c2bcc2e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2918,7 +2918,8 @@ class Kever:
                                           delsner=delsner, delsger=delsger,
                                           local=local):
                         # cue to query for witness receipts
-                        self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
+                        if self.cues is not None:
+                            self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
                     msg = (f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying toad={toader.num} "
                            f"on witness sigs {[siger.qb64 for siger in wigers]} "
                            f"for event={serder.said}")
@@ -3347,7 +3348,8 @@ class Kever:
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-                self.cues.push(dict(kin="query", q=dict(pre=delpre,
+                if self.cues is not None:
+                    self.cues.push(dict(kin="query", q=dict(pre=delpre,
                                                                   sn=delsner.numh,
                                                                   dig=delsger.qb64)))
                 #  escrow event here
-- 
2.43.0


From b6b6b55dc60c770cc02f13153aabca50e0a04bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 030/122] fix: interaction event keeps its source and, when
 cloned, its first seen time

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c2bcc2e..817a702 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2581,7 +2581,8 @@ class Kever:
             # .validateSigsDelWigs above ensures thresholds met otherwise raises exception
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
-                                    first=True if not check else False)  # First seen accepted
+                                    first=True if not check else False,
+                                    firner=firner, dater=dater, local=local)  # First seen accepted
 
             # validates so update state
             self.sner = sner  # sequence number Number instance
-- 
2.43.0


From 75903c0942c87ff4f0cb759a8a2782a39364b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 031/122] fix: redelivery from a remote source does not mark
 the event as locally sourced

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 817a702..72a12e8 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4423,7 +4423,7 @@ class Kevery:
                         # signatures to be added to the databse
                         # Not first seen version of event so ignore return
                         # idempotent update db logs
-                        kever.logEvent(serder, sigers=sigers, wigers=wigers)
+                        kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)
 
                 else:  # escrow likely duplicitous event
                     self.escrowLDEvent(serder=serder, sigers=sigers)
@@ -4509,7 +4509,7 @@ class Kevery:
                             # signatures to be added to the databse
                             # Not first seen version of event so ignore return
                             # idempotent update db logs
-                            kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
+                            kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
                         self.escrowLDEvent(serder=serder, sigers=sigers)
-- 
2.43.0


From 5613d621dbaf8301cb18b8f716bff904df1c7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 032/122] fix: likely duplicitous event from a remote source is
 not marked as locally sourced

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 72a12e8..bfa4d70 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4426,7 +4426,7 @@ class Kevery:
                         kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4512,7 +4512,7 @@ class Kevery:
                             kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
-- 
2.43.0


From 29f1c3fc2a26a6954abe845508cdc724f4adba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 033/122] fix: cleaning a persistent database does not fail for
 lack of a version in the copy

---
 src/keri/db/dbing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 94dc6cb..f930282 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -455,7 +455,8 @@ class LMDBer(filing.Filer):
 
         self.opened = True if opened and self.env else False
 
-        if self.opened and not self.readonly and (not exists or self.temp):
+        # exists is about the normal tail variant, a clean tail variant starts anew
+        if self.opened and not self.readonly and (not exists or self.temp or kwa.get('clean')):
             self.version = __version__
 
         return self.opened
-- 
2.43.0


From be734b5aa9f5c24616eb201e943c2e5647bbc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 034/122] fix: cleaning a database keeps logs and receipts that
 depend on logs cloned later

---
 src/keri/db/basing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 417c0be..21f0bcd 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1556,8 +1556,16 @@ class Baser(LMDBer):
                 # process event doesn't capture exceptions so we can more easily
                 # detect in the cloning that some events did not make it through
                 psr = parsing.Parser(kvy=kvy, version=gvrsn)
-                for msg in self.cloneAllPreIter(gvrsn=gvrsn):  # clone into copy
-                    psr.parseOne(ims=msg)
+                # Clone into copy. An event approved by, or a receipt from, a
+                # log cloned after its own gets through once that log is in
+                # place so clone again until no more events get through.
+                more = True
+                while more:
+                    count = copy.fels.cntAll()
+                    for msg in self.cloneAllPreIter(gvrsn=gvrsn):
+                        psr.parseOne(ims=msg)
+                    more = copy.fels.cntAll() > count
+                kvy.processEscrows()  # drop what was held but got through later
 
                 # This is the list of non-set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
-- 
2.43.0


From 7fdd26c3c141921125956a731e87832962fce360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 035/122] fix: cleaning a database keeps what protects accepted
 replies from older ones

---
 src/keri/db/basing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 21f0bcd..bef4ff5 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1572,7 +1572,7 @@ class Baser(LMDBer):
                 # reprocess them.  We need a more secure method in the future
                 unsecured = ["hbys", "schema", "states", "rpys", "eans", "tops", "cgms", "exns", "erpy",
                              "kdts", "ksns", "knas", "oobis", "roobi", "woobi", "moobi", "mfa", "rmfa",
-                             "cfld", "cons", "ccigs", "cdel", "migs",
+                             "cfld", "cons", "ccigs", "cdel", "migs", "sdts",
                              "ifld", "sids", "icigs"]
 
                 for name in unsecured:
@@ -1584,7 +1584,8 @@ class Baser(LMDBer):
                 # This is the list of set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
                 # reprocess them.  We need a more secure method in the future
-                sets = ["esigs", "ecigs", "epath", "enst", "chas", "reps", "wkas", "meids", "maids"]
+                sets = ["esigs", "ecigs", "epath", "enst", "chas", "reps", "wkas", "meids", "maids",
+                        "tsgs", "scgs"]
                 for name in sets:
                     srcdb = getattr(self, name)
                     cpydb = getattr(copy, name)
@@ -1618,6 +1619,8 @@ class Baser(LMDBer):
                         if lval:
                             exists = True  # loc with matching cid and rol
                             copy.locs.put(keys=(eid, scheme), val=lval)
+                            if said := self.lans.get(keys=(eid, scheme)):
+                                copy.lans.put(keys=(eid, scheme), val=said)
                     if exists:  # only copy end if has at least one matching loc
                         copy.ends.put(keys=(cid, role, eid), val=val)
 
-- 
2.43.0


From cd5a8f94bd50d4b8222e12c94f77ff7dc8179a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 036/122] fix: parsing one message does not swallow an
 interrupt of its processing

---
 src/keri/core/parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..44ae62b 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -646,9 +646,9 @@ class Parser:
                         logger.exception("Kevery msg non-extraction error: %s", ex)
                     if logger.isEnabledFor(logging.DEBUG):
                         logger.error("Kevery msg non-extraction error: %s", ex)
-                finally:
-                    result = True
-                    break
+
+                result = True
+                break
             else:
                 result = exts
                 break
-- 
2.43.0


From ad74256ec5b3064d43dd862fe93a22765cb24829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 037/122] fix: cleaning a database drops the key state of a log
 that does not verify

---
 src/keri/db/basing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index bef4ff5..40eee5a 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1570,7 +1570,7 @@ class Baser(LMDBer):
                 # This is the list of non-set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
                 # reprocess them.  We need a more secure method in the future
-                unsecured = ["hbys", "schema", "states", "rpys", "eans", "tops", "cgms", "exns", "erpy",
+                unsecured = ["hbys", "schema", "rpys", "eans", "tops", "cgms", "exns", "erpy",
                              "kdts", "ksns", "knas", "oobis", "roobi", "woobi", "moobi", "mfa", "rmfa",
                              "cfld", "cons", "ccigs", "cdel", "migs", "sdts",
                              "ifld", "sids", "icigs"]
-- 
2.43.0


From e73bf93306c5bffee0a4f3d36b38f1b9ab08895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 038/122] fix: cleaning a database with completed group
 delegations does not fail

---
 src/keri/db/basing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 40eee5a..f63f2d5 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1572,7 +1572,7 @@ class Baser(LMDBer):
                 # reprocess them.  We need a more secure method in the future
                 unsecured = ["hbys", "schema", "rpys", "eans", "tops", "cgms", "exns", "erpy",
                              "kdts", "ksns", "knas", "oobis", "roobi", "woobi", "moobi", "mfa", "rmfa",
-                             "cfld", "cons", "ccigs", "cdel", "migs", "sdts",
+                             "cfld", "cons", "ccigs", "migs", "sdts",
                              "ifld", "sids", "icigs"]
 
                 for name in unsecured:
@@ -1581,6 +1581,10 @@ class Baser(LMDBer):
                     for keys, val in srcdb.getTopItemIter():
                         cpydb.put(keys=keys, val=val)
 
+                # completed group delegations are indexed by ordinal number
+                for keys, on, val in self.cdel.getTopItemIter():
+                    copy.cdel.put(keys=keys, on=on, val=val)
+
                 # This is the list of set based databases that are not created as part of event processing.
                 # for now we are just copying them from self to copy without worrying about being able to
                 # reprocess them.  We need a more secure method in the future
-- 
2.43.0


From dc4447895b3e913f1167f6310cac167e65873c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 039/122] fix: reply signed anew with later keys does not fail
 on its earlier signatures

---
 src/keri/core/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..27a76ec 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -409,7 +409,7 @@ class Revery:
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From 1812adb28052766ae6fba9868de50a422027e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 040/122] fix: redelivery of reply in force neither removes it
 nor lowers the keys it counts by

---
 src/keri/core/eventing.py |  2 --
 src/keri/core/routing.py  | 15 +++++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index bfa4d70..0f2f4d0 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5219,8 +5219,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 27a76ec..3a0e1e8 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -236,6 +236,7 @@ class Revery:
         odater = None
         if osaider:
             odater = self.db.sdts.get(keys=osaider.qb64b)
+        same = osaider is not None and osaider.qb64 == saider.qb64  # redelivery of old
 
         for cigar in cigars:  # process each couple to verify sig and write to db
             if cigar.verfer.transferable:  # ignore invalid transferable verfers
@@ -267,6 +268,9 @@ class Revery:
                 continue  # skip invalid cig's verfer is not aid
 
             if odater:  # get old compare datetimes to see if later
+                if same:  # already accepted
+                    accepted = True
+                    continue
                 if dater.datetime <= odater.datetime:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
@@ -289,7 +293,8 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            if not same:
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             accepted = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
@@ -317,6 +322,10 @@ class Revery:
                 if otsgs := fetchTsgs(db=self.db.tsgs, diger=osaider):
                     _, osqr, _, _ = otsgs[0]  # zeroth should be authoritative
 
+                    if same and snumber.sn <= osqr.sn:  # already accepted
+                        accepted = True
+                        continue
+
                     if snumber.sn < osqr.sn:  # sn earlier
                         logger.info(
                             "Revery: skipped stale key state sig "
@@ -399,7 +408,8 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                if not same:
+                    self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
@@ -413,6 +423,7 @@ class Revery:
                         )
 
                 accepted = True
+                osaider, odater, same = saider, dater, True  # now in force
 
             else:  # not meet threshold so escrow
                 self.escrowReply(
-- 
2.43.0


From 421866391ba7178875821de6b34d0d22e8e01562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 041/122] fix: signatures that wait or do not verify neither
 spoil nor remove what a reply was accepted by

---
 src/keri/core/routing.py | 140 ++++++++++++++++++++++++++++-----------
 1 file changed, 103 insertions(+), 37 deletions(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 3a0e1e8..94eee45 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -227,6 +227,8 @@ class Revery:
         i.e. route is address of buffer with route specific handler of escrow."""
         # BADA logic.
         accepted = False  # flag to raise UnverifiedReplyError not accepted
+        escrowed = False  # some signature group has been escrowed
+        error = None  # due to bad signature group
         cigars = cigars if cigars is not None else []
         tsgs = tsgs if tsgs is not None else []
 
@@ -369,33 +371,43 @@ class Revery:
                     sdiger=sdiger,
                     sigers=sigers,
                 )
+                escrowed = True
                 self.cues.append(dict(kin="query", q=dict(pre=spre)))
                 continue
             sdig = sdig.encode("utf-8")
             # retrieve last event itself of signer given sdig
             sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
             # assumes db ensures that sserder must not be none because sdig was in KE
-            if sserder.said != sdiger.qb64:  # signer's dig not match est evt
-                raise ValidationError(
-                    f"Bad trans indexed sig group at sn = "
-                    f"{snumber.sn} for reply = {serder.ked}."
-                )
-            # verify sigs
-            if not (sverfers := sserder.verfers):
-                raise ValidationError(
-                    f"Invalid reply from signer={spre}, no "
-                    f"keys at signer's est. event sn={snumber.sn}."
-                )
-
-            # fetch any escrowed sigs, extract just the siger from each quad
             # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
-            esigers = self.db.tsgs.get(keys=quadkeys)
-            sigers.extend(esigers)
-            sigers, valid = validateSigs(
-                serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
-            )
-            # no error so at least one verified siger
+            try:
+                if sserder.said != sdiger.qb64:  # signer's dig not match est evt
+                    raise ValidationError(
+                        f"Bad trans indexed sig group at sn = "
+                        f"{snumber.sn} for reply = {serder.ked}."
+                    )
+                # verify sigs
+                if not (sverfers := sserder.verfers):
+                    raise ValidationError(
+                        f"Invalid reply from signer={spre}, no "
+                        f"keys at signer's est. event sn={snumber.sn}."
+                    )
+
+                # fetch any escrowed sigs, extract just the siger from each quad
+                sigers = sigers + self.db.tsgs.get(keys=quadkeys)
+                sigers, valid = validateSigs(
+                    serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
+                )
+                # no error so at least one verified siger
+            except ValidationError as ex:  # must not spoil other signature groups
+                logger.info(
+                    "Revery: skipped bad signature group from %s on reply said=%s",
+                    aid,
+                    serder.said,
+                )
+                self.db.tsgs.trim(keys=(*quadkeys, ""))  # drop when escrowed
+                error = ex
+                continue
 
             if valid:  # meet threshold so save
                 # All constraints satisfied so update
@@ -408,8 +420,10 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                if not same:
-                    self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                if not same:  # remove obsoleted reply artifacts
+                    newer = odater is not None and odater.datetime > dater.datetime
+                    self.removeReply(saider=osaider,
+                                     sn=snumber.sn - 1 if newer else snumber.sn)
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
@@ -436,6 +450,10 @@ class Revery:
                     sdiger=sdiger,
                     sigers=sigers,
                 )
+                escrowed = True
+
+        if error is not None and not accepted and not escrowed:
+            raise error
 
         return accepted
 
@@ -474,21 +492,60 @@ class Revery:
             self.db.scgs.put(keys=keys, vals=[(cigar.verfer, cigar)])
         if sigers:  # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
-            self.db.tsgs.put(keys=quadkeys, vals=sigers)
+            self.db.tsgs.pin(keys=quadkeys, vals=sigers)  # only verified
 
-    def removeReply(self, saider):
+    def removeReply(self, saider, sn=None):
         """Remove Reply SAD artifacts given by saider.
 
         Parameters:
-            saider (Diger): instance from said in serder (SAD)"""
+            saider (Diger): instance from said in serder (SAD)
+            sn (int | None): sequence number of keys' est event. When given
+                escrowed signatures by keys of later est event remain"""
         if saider:
             keys = (saider.qb64,)
 
+            tsgs = fetchTsgs(db=self.db.tsgs, diger=saider)
+            later = [tsg for tsg in tsgs if sn is not None and tsg[1].sn > sn]
+            if later:
+                for prefixer, number, diger, _ in tsgs[:-len(later)]:
+                    self.db.tsgs.trim(
+                        keys=(saider.qb64, prefixer.qb64, f"{number.sn:032x}", diger.qb64, "")
+                    )
+                return
+
             self.db.tsgs.trim(keys=(saider.qb64, ""))  # remove whole branch
             self.db.scgs.rem(keys=keys)
             self.db.rpys.rem(keys=keys)
             self.db.sdts.rem(keys=keys)
 
+    def dropReply(self, saider):
+        """Drop what is escrowed of reply given by saider, that is, signature
+        groups that do not suffice. Whatever else it was accepted by remains.
+
+        Parameters:
+            saider (Diger): instance from said in serder (SAD)"""
+        serder = self.db.rpys.get(keys=(saider.qb64,))
+        remains = bool(serder and self.db.scgs.get(keys=(saider.qb64,)))
+        for prefixer, number, diger, sigers in fetchTsgs(db=self.db.tsgs, diger=saider):
+            valid = False
+            if serder and self.db.kels.getLast(keys=prefixer.qb64, on=number.sn) == diger.qb64:
+                sserder = self.db.evts.get(keys=(prefixer.qb64, diger.qb64))
+                try:
+                    _, valid = validateSigs(serder=serder,
+                                            sigers=sigers,
+                                            verfers=sserder.verfers,
+                                            tholder=sserder.tholder)
+                except ValidationError:
+                    pass
+            if valid:
+                remains = True
+            else:
+                self.db.tsgs.trim(
+                    keys=(saider.qb64, prefixer.qb64, f"{number.sn:032x}", diger.qb64, "")
+                )
+        if not remains:
+            self.removeReply(saider)
+
     def escrowReply(
         self, *, serder, saider, dater, route, prefixer, snumber, sdiger, sigers
     ):
@@ -533,10 +590,23 @@ class Revery:
                             f"for route={route}."
                         )
 
-                    # do date math for stale escrow
-                    if (helping.nowUTC() - dater.datetime) > datetime.timedelta(
+                    # stale escrow gets processed for a last time
+                    stale = (helping.nowUTC() - dater.datetime) > datetime.timedelta(
                         seconds=self.TimeoutRPE
-                    ):
+                    )
+                    try:
+                        self.processReply(serder=serder, tsgs=tsgs)
+                    except UnverifiedReplyError as ex:
+                        # still waiting on missing prior event to validate
+                        if logger.isEnabledFor(logging.TRACE):
+                            logger.trace(
+                                "Revery unescrow attempt failed: %s\n", ex.args[0]
+                            )
+                        waiting = True
+                    else:  # signatures besides those accepted by are still waiting
+                        waiting = len(fetchTsgs(db=self.db.tsgs, diger=diger)) > 1
+
+                    if waiting and stale:
                         # escrow stale so raise ValidationError which unescrows below
                         logger.info(
                             "Revery unescrow error: Stale reply escrow  at route = %s",
@@ -545,16 +615,9 @@ class Revery:
 
                         raise ValidationError(f"Stale reply escrow at route = {route}.")
 
-                    self.processReply(serder=serder, tsgs=tsgs)
-
-                except UnverifiedReplyError as ex:
-                    # still waiting on missing prior event to validate
-                    if logger.isEnabledFor(logging.TRACE):
-                        logger.trace("Revery unescrow attempt failed: %s\n", ex.args[0])
-
                 except Exception as ex:  # other error so remove from reply escrow
                     self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
-                    self.removeReply(diger)  # remove escrow reply artifacts
+                    self.dropReply(diger)  # remove escrow reply artifacts
                     if logger.isEnabledFor(logging.DEBUG):
                         logger.exception(
                             "Revery unescrowed due to error: %s", ex.args[0]
@@ -562,7 +625,10 @@ class Revery:
                     else:
                         logger.error("Revery unescrowed due to error: %s", ex.args[0])
 
-                else:  # unescrow succeded
+                else:
+                    if waiting:
+                        continue
+                    # unescrow succeded
                     self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
                     logger.info(
                         "Revery unescrow succeeded for reply said=%s", serder.said
@@ -571,7 +637,7 @@ class Revery:
 
             except Exception as ex:  # log diagnostics errors etc
                 self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
-                self.removeReply(diger)  # remove escrow reply artifacts
+                self.dropReply(diger)  # remove escrow reply artifacts
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Revery unescrowed due to error: %s", ex.args[0])
                 else:
-- 
2.43.0


From 12ecf347e1e9c18d5e0280a482b16ca1b66dd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 042/122] fix: parser does not loop forever on malformed
 material at front of stream

Code, conversion and decode errors raised by a primitive or counter are
extraction errors so the rest of the stream is flushed.
---
 src/keri/core/parsing.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 44ae62b..782eb5d 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -312,12 +312,17 @@ class Parser:
             ims (bytearray): input message stream (must be strippable)
             klas (Serder | Counter | Matter | Indexer): subclass that is parsable
             cold (Coldage): instance str value"""
-        if cold == Colds.txt:
-            return klas(qb64b=ims, strip=True, version=self.version)
-        elif cold == Colds.bny:
-            return klas(qb2=ims, strip=True, version=self.version)
-        else:
-            raise ColdStartError(f"Invalid stream state {cold=}")
+        try:
+            if cold == Colds.txt:
+                return klas(qb64b=ims, strip=True, version=self.version)
+            elif cold == Colds.bny:
+                return klas(qb2=ims, strip=True, version=self.version)
+            else:
+                raise ColdStartError(f"Invalid stream state {cold=}")
+        except ExtractionError:
+            raise
+        except Exception as ex:  # malformed material
+            raise ExtractionError(f"Invalid {klas.__name__} in stream.") from ex
 
 
     def _extractor(self, ims, klas, cold=Colds.txt, abort=False, strip=True):
@@ -351,6 +356,10 @@ class Parser:
                 if abort:  # pipelined pre-collects full frame before extracting
                     raise  # bad pipelined frame so abort by raising error
                 yield
+            except ExtractionError:
+                raise
+            except Exception as ex:  # malformed material
+                raise ExtractionError(f"Invalid {klas.__name__} in stream.") from ex
 
 
     def parse(self, ims=None, framed=None, piped=None, kvy=None, tvy=None,
-- 
2.43.0


From 8a65bb1d438508160b36ae02805545247bcb4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 043/122] fix: error inside sized group does not flush messages
 after group

---
 src/keri/core/parsing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 782eb5d..2ca7eec 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -870,6 +870,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError as ex:  # sized group already stripped
+                    raise  # so do not flush rest of stream
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
@@ -1159,10 +1162,10 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
-                                             f"message group of size={emgs}")
+                                             f"message group of size={emgs}") from ex
             raise  # no enclosing group so can't preflush, must flush stream
 
 
-- 
2.43.0


From 9d5f3315be2b96cdb6aaef94af8a4070206dda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 044/122] fix: message whose said is not a digest does not
 verify

A said field with the code of a key or other non-digest material was
accepted without comparing it with the message.
---
 src/keri/core/serdering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..bc0d825 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -824,6 +824,11 @@ class Serder:
                     raise ValidationError(f"Invalid said field '{label}' in sad\n"
                                       f" = {self._sad}.") from ex
 
+            if label == Saids.d and saids[label] not in DigDex:
+                # only an identifier prefix field may be non-digestive
+                raise ValidationError(f"Non-digestive said field '{label}' in sad\n"
+                                      f" = {self._sad}.")
+
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
 
-- 
2.43.0


From bafa70c8e749ab576b608edcc238a4f4726a53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 045/122] fix: unsupported version inside attachment group does
 not flush messages after group

---
 src/keri/core/parsing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 2ca7eec..bed8e0c 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1310,10 +1310,9 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if enclosed:  # extracted enclosed attachment group is preflushed
-                raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                raise SizedGroupError(f"Error processing attachment group.") from ex
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From 71fa3ed2cd276e1262e3efc2b7d09e9bfbdc271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 046/122] fix: primitive whose code has not fully arrived waits
 for more

---
 src/keri/core/coring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 56ffa49..ff0bfae 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1376,6 +1376,9 @@ class Matter:
 
         hs, ss, xs, fs, ls = self.Sizes[hard]  # assumes hs in both tables match
         cs = hs + ss  # both hs and ss
+        if len(qb64b) < cs:  # need more bytes to get full soft
+            raise ShortageError(f"Need {cs - len(qb64b)} more characters.")
+
         # assumes that unit tests on Matter .Sizes .Hards and .Bards ensure that
         # these are well formed.
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
-- 
2.43.0


From cf9674bf8474389bb78a6a4f4f07773a600497ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 047/122] fix: message that follows generic group is framed as
 before the group

---
 src/keri/core/parsing.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index bed8e0c..c23a5c4 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -796,7 +796,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed, eggs) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -804,7 +804,7 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed, eggs = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
 
                 if not ims:  # no stream
@@ -823,12 +823,15 @@ class Parser:
                                      self.sucodes.BigGenericGroup)):
                         del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                         # compute enclosing generic group size based on txt or bny
-                        eggs = ctr.byteCount(cold=cold)
-                        while len(ims) < eggs and not framed:  # framed already in ims
+                        size = ctr.byteCount(cold=cold)
+                        while len(ims) < size and not framed:  # framed already in ims
                             yield
 
-                        eims = ims[:eggs]  # copy out substream enclosed attachments
-                        del ims[:eggs]  # strip off from ims
+                        eims = ims[:size]  # copy out substream enclosed attachments
+                        del ims[:size]  # strip off from ims
+                        # push current version ims framed eggs
+                        stack.append((self.version, ims, framed, eggs))
+                        eggs = size  # from here group is preflushed
 
                         # peek for version code at front of eims
                         ctr = yield from self._extractor(ims=eims,
@@ -844,7 +847,6 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -917,7 +919,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, *_ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From 5d914eb374e39ed95ef410818a0dfb62b1f84bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 048/122] fix: empty generic group does not stall unframed
 stream forever

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index c23a5c4..91250e3 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -837,7 +837,7 @@ class Parser:
                         ctr = yield from self._extractor(ims=eims,
                                                         klas=Counter,
                                                         cold=cold,
-                                                        abort=framed,
+                                                        abort=True,  # pre-extracted
                                                         strip=False)
 
                         if ctr.code == self.codes.KERIACDCGenusVersion:
-- 
2.43.0


From a54a1189cf5cc7978360391c00dbb41a648fbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:32 +0000
Subject: [PATCH 049/122] fix: message with empty attachment group is processed
 as message without attachments

---
 src/keri/core/parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 91250e3..dbf7a70 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1201,19 +1201,20 @@ class Parser:
                         return
 
                     # peek for version change
-                    ctr = yield from self._extractor(ims=ims,
+                    if ims:  # not empty AttachmentGroup
+                        ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
                                                      cold=cold,
                                                      abort=enclosed,
                                                      strip=False)
-                    if ctr.code == self.codes.KERIACDCGenusVersion:
+                    if ims and ctr.code == self.codes.KERIACDCGenusVersion:
                         del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                         # change version
                         verstack.append(self.version)  # push current onto stack
                         self.version = Counter.b64ToVer(ctr.countToB64(l=3))
 
 
-                while True:  # iteratively process attachment counters in stride
+                while ims or not enclosed:  # iteratively process attachment counters in stride
                     ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
                                                      cold=cold,
-- 
2.43.0


From 2bc874b7a694b8f13991527d1303efdc720346cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 050/122] fix: message without attachments at end of frame is
 processed

---
 src/keri/core/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index dbf7a70..2dc875e 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1178,7 +1178,8 @@ class Parser:
             while not ims and not framed:  # framed has everything already
                 yield  # when not framed at least empty AttachmentGroup follows
 
-            cold = sniff(ims)
+            # when framed and nothing left then message has no attachments
+            cold = sniff(ims) if ims else Colds.msg
             if cold != Colds.msg:  # counter so peek at what it is
                 ctr = yield from self._extractor(ims=ims,
                                                  klas=Counter,
-- 
2.43.0


From 9345500fd53417632a9d39ae66ab5714acaf9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 051/122] fix: damaged message in versioned group does not
 change version of rest of stream

---
 src/keri/core/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 2dc875e..440422f 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1165,6 +1165,8 @@ class Parser:
                         break  # break out of while loop
 
         except Exception as ex:
+            while verstack:  # restore version to what it was
+                self.version = verstack.pop()
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
                                              f"message group of size={emgs}") from ex
-- 
2.43.0


From 93267a27f2b95817dfa62e1aacdb92660b60989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 052/122] fix: text of primitive with characters outside url
 safe Base64 is refused

---
 src/keri/core/coring.py   | 2 ++
 src/keri/core/indexing.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index ff0bfae..dc751c1 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1408,6 +1408,8 @@ class Matter:
             qb64b = bytes(qb64b)
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode()  # converts str to bytes
+        if not Reb64.match(qb64b):  # decodeB64 either ignores or converts other chars
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
 
         # check for non-zeroed pad bits and/or lead bytes
         # net prepad ps == cs % 4 (remainer).  Assumes ps != 3 i.e ps in (0,1,2)
diff --git a/src/keri/core/indexing.py b/src/keri/core/indexing.py
index d5ff4aa..8477313 100644
--- a/src/keri/core/indexing.py
+++ b/src/keri/core/indexing.py
@@ -15,7 +15,7 @@ from ..kering import (EmptyMaterialError, RawMaterialError, InvalidCodeSizeError
                       UnexpectedCountCodeError, UnexpectedOpCodeError)
 
 from ..help import (sceil, intToB64, b64ToInt,
-                    codeB64ToB2, codeB2ToB64, nabSextets)
+                    codeB64ToB2, codeB2ToB64, nabSextets, Reb64)
 
 
 @dataclass(frozen=True)
@@ -597,6 +597,8 @@ class Indexer:
         qb64b = qb64b[:fs]  # fully qualified primitive code plus material
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode("utf-8")
+        if not Reb64.match(qb64b):  # decodeB64 either ignores or converts other chars
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}")
 
         # strip off prepended code and append pad characters
         #ps = cs % 4  # pad size ps = cs mod 4, same pad chars and lead bytes
-- 
2.43.0


From 665b095515b02b14a34efdbde276b254581b461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 053/122] fix: strip of root from path removes only front of
 path

---
 src/keri/core/coring.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index dc751c1..3739241 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -3098,14 +3098,11 @@ class Pather(Matter):
         if len(root.parts) > len(self.parts):
             return Pather(parts=self.parts)
 
-        parts = list(self.parts)
-        try:
-            for i in root.parts:
-                parts.remove(i)
-        except ValueError:
+        size = len(root.parts)
+        if self.parts[:size] != root.parts:  # root not on front so no change
             return Pather(parts=self.parts)
 
-        return Pather(parts=parts)
+        return Pather(parts=self.parts[size:])
 
 
     def startswith(self, pather):
-- 
2.43.0


From 9c84aaf4e1699f813ff8e857e20e052f08feacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 054/122] fix: decimal with positive exponent and decimal from
 bytes encode

---
 src/keri/core/coring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 3739241..a2cc525 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1951,7 +1951,7 @@ class Decimer(Matter):
                                          f"dns, or decimer input")
 
             if hasattr(dns, "decode"):
-                dns = dns.decode("")  # convert to str
+                dns = dns.decode()  # convert to str
 
             # make round trippable extra leading 0's , +
             try:
@@ -1960,6 +1960,7 @@ class Decimer(Matter):
             except ValueError:  # float not int
                 decimal = float(dns)  # make round trippable
                 dns = f"{decimal}"  # -0.0 is valid, float('-0.0') is -0.0
+                dns = dns.replace('+', '')  # exponent plus not Base64, redundant
 
             raw = self._rawify(dns)
 
-- 
2.43.0


From dccdefe605d7dc088d2cc921cee33cf8bd1f4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 055/122] fix: label and path part ending in newline are not
 valid

---
 src/keri/help/helping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/help/helping.py b/src/keri/help/helping.py
index 1b4722d..4514b74 100644
--- a/src/keri/help/helping.py
+++ b/src/keri/help/helping.py
@@ -428,13 +428,13 @@ def verify64uEd25519(signature, message, verkey):
 
 
 # Regular expression to detect valid attributish names as bytes
-ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*$'  # bytes MUST NOT be empty string
+ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*\Z'  # bytes MUST NOT be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Reatt = re.compile(ATREX)  # compile is faster
 
 
 # Regular expression to detect Base64 path parts as bytes excluding b'-' in part
 # because '-' is path separator when in B64
-PATHREX = rb'^[a-zA-Z0-9_]*$'  # bytes May be empty string
+PATHREX = rb'^[a-zA-Z0-9_]*\Z'  # bytes May be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Repath = re.compile(PATHREX)  # compile is faster
-- 
2.43.0


From 1001539add0148378b9a59df8f7453251d006cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 056/122] fix: native binary message is read without what
 follows it

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index bc0d825..875b0a0 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1196,7 +1196,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 12f06337e5eb3dac060433cd04de6d50f43834f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 057/122] fix: credential with wrong said embedded in expanded
 section does not verify

---
 src/keri/core/serdering.py | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 875b0a0..c021203 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -2903,6 +2903,9 @@ class SerderACDC(Serder):
         if self.gvrsn != gvrsn:
             raise ValidationError(f"Inconsistent genus version={self.gvrsn} from"
                                   f" deversify of sad.")
+
+        self._verifySections()  # saids embedded in expanded sections
+
         # verified successfully since no exception
 
         if (not self.ilk or self.ilk in
@@ -2918,6 +2921,46 @@ class SerderACDC(Serder):
                 raise ValidationError(f"Invalid issuer AID code = {code}.")
 
 
+    def _verifySections(self):
+        """Verifies that the saids embedded in expanded sections are those of the
+        sections and their blocks. The top-level said computed from the most
+        compact form does not protect them because the most compact form is
+        built from computed not from provided saids.
+
+        Raises a ValidationError when any does not verify.
+        """
+        if self.pvrsn.major < 2:  # sections not compactable so are protected
+            return
+
+        for l in ("s", "a", "e", "r", "A"):
+            v = self.sad.get(l)
+            if isinstance(v, Mapping):
+                if l == 's':  # schema only has top-level said
+                    sector = Compactor(mad=v, makify=True, strict=False,
+                                       saids={"$id": 'E',}, kind=self.kind)
+                    leaves = {"": sector} if "$id" in v else {}
+                else:
+                    sector = Compactor(mad=v, makify=True, kind=self.kind)
+                    sector.compact()
+                    leaves = sector.leaves
+
+                for path, leaf in leaves.items():
+                    block = sector.getTail(path, mad=v)
+                    for label in leaf.saids:
+                        said = block.get(label)  # placeholder when empty
+                        if said and said != leaf.mad[label]:
+                            raise ValidationError(f"Invalid embedded said at "
+                                                  f"{l}{path}.{label} in sad.")
+
+            elif v and isinstance(v, NonStringIterable):
+                aggor = Aggor(ael=v, makify=True, kind=self.kind)
+                for given, made in zip(v, aggor.ael):
+                    if isinstance(given, Mapping):
+                        given, made = given.get('d'), made.get('d')
+                    if given and given != made:  # placeholder when empty
+                        raise ValidationError(f"Invalid embedded said={given}"
+                                              f" in section {l} in sad.")
+
 
     def makify(self, sad, *, proto=None, pvrsn=None, genus=None, gvrsn=None,
                    kind=None, ilk=None, saids=None, compactify=False):
-- 
2.43.0


From 255d1e1ddd3182a656d86bae17a330a610a9cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 058/122] fix: nested block with dot in its label does not loop
 forever when compacted

---
 src/keri/core/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4a4a6a8..dc5347b 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -982,6 +982,9 @@ class Compactor(Mapper):
                     raise InvalidValueError(f"Got Mapping not str for said field"
                                             f" label={l} value={v}")
                 if self._hassaid(mad=v):
+                    if "." in l:  # path to nested block would be ambiguous
+                        raise InvalidValueError(f"Invalid label={l} of nested "
+                                                f"saidive block.")
                     isleaf = False
                     paths = self._trace(mad=v, paths=paths, path=path + "." + l,
                                         saidify=saidify)
-- 
2.43.0


From cd0e243f091e5ca19851ef092b65a37873b644b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 059/122] fix: keystore that dies while making keys can make
 them again

---
 src/keri/app/keeping.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..01b7022 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1057,29 +1057,30 @@ class Manager:
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
         pre = verfers[0].qb64b
-        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+        if self.ks.pres.get(pre) is not None:
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
-        if not self.ks.prms.put(pre, val=pp):
-            raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
-
+        # pres entry last so interrupted inception may be redone. May find and
+        # so replaces entries left by interrupted inception of same pre
         self.pidx = pidx + 1  # increment for next inception
 
-        if not self.ks.sits.put(pre, val=ps):
-            raise ValueError("Already incepted sit for pre={}.".format(pre.decode("utf-8")))
+        self.ks.prms.pin(pre, val=pp)
+        self.ks.sits.pin(pre, val=ps)
 
         for signer in isigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
-        self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store publics keys for lookup of private key for replay
-        self.ks.pubs.put(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+
+        self.ks.pres.put(pre, val=Prefixer(qb64=pre))  # inception complete
 
         return (verfers, digers)
 
@@ -1589,13 +1590,12 @@ class Manager:
                             tier=creator.tier)
                 pre = csigners[0].verfer.qb64b
                 ipre = csigners[0].verfer.qb64
-                if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+                if self.ks.pres.get(pre) is not None:
                     raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
-                if not self.ks.prms.put(pre, val=pp):
-                    raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
-
+                # pres entry last so interrupted ingestion may be redone
                 self.pidx = pidx + 1  # increment so unique
+                self.ks.prms.pin(pre, val=pp)
                 first = False
 
             for signer in csigners:  # store secrets (private key val keyed by public key)
@@ -1603,7 +1603,7 @@ class Manager:
                                  encrypter=self.encrypter)
 
             pubs = [signer.verfer.qb64 for signer in csigners]
-            self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
+            self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
 
             dt = nowIso8601()
             if ridx == max(iridx - 1, 0):  # setup ps.old at this ridx
@@ -1648,7 +1648,7 @@ class Manager:
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
-        self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
 
         if ridx == iridx + 1:  # want to set up ps.next at this ridx
             dt = nowIso8601()
@@ -1659,6 +1659,8 @@ class Manager:
             if not self.ks.sits.pin(pre, val=ps):
                 raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
+        self.ks.pres.put(pre, val=Prefixer(qb64=pre))  # ingestion complete
+
         return (ipre, verferies) #
 
 
-- 
2.43.0


From 49c670dad104e2501a4a24573fe025960fb2e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 060/122] fix: keystore that dies while rotating keeps the keys
 it rotates to

---
 src/keri/app/keeping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 01b7022..c1df7c3 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1240,15 +1240,16 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+
+        # after its keys are stored so never refers to missing keys
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
-- 
2.43.0


From e81e6ab054f85eb2857318d4c4623479f307e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 061/122] fix: next keys of ingested keys are encrypted

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index c1df7c3..efcf7a7 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1584,7 +1584,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not (creator.salt and self.encrypter)
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
@@ -1646,7 +1646,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 29afc3c277aa67fd0dd7dd614f62f1fa96706e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 062/122] fix: change of keystore encryption is complete, all
 or nothing, and refused without trace

---
 src/keri/app/keeping.py | 61 ++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index efcf7a7..6e472d4 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -803,41 +803,52 @@ class Manager:
                                        "not associated with last aeid={}."
                                        "".format(self.aeid))
 
-        if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+        if aeid:  # aeid provided, maybe changing to a new aeid
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
         else:  # changing to empty aeid so new encrypter is None
-            self.encrypter = None
+            aeid = seed = ''
+            encrypter = None
 
         # fetch all secrets from db, decrypt all secrets with self.decrypter
         # unless they decrypt automatically on fetch and then re-encrypt with
         # encrypter  update db with re-encrypted values
 
+        # all in one transaction so either all or none are re-encrypted
+        puts = []  # triples of (sub db, key, val)
+
         # re-encypt root salt secret, .salt property is automatically decrypted on fetch
         if (salt := self.salt) is not None:  # decrypted salt
-            self.salt = salt
-            # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
+            if encrypter:
+                salt = encrypter.encrypt(ser=salt, code=MtrDex.X25519_Cipher_Salt).qb64
+            puts.append((self.ks.gbls, "salt", salt))
 
         # other secrets
-        if self.decrypter:
-            # re-encrypt root salt secrets by prefix parameters .prms
-            for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
-                if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
-                    data.salt = (self.encrypter.encrypt(prim=salter).qb64
-                                 if self.encrypter else salter.qb64)
-                    self.ks.prms.pin(keys, val=data)
-
-            # private signing key seeds
-            # keys is tuple == (verkey.qb64,) .pris database auto decrypts
-            for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
-                self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
-
-        self.ks.gbls.pin("aeid", aeid)  # set aeid in db
+        # re-encrypt root salt secrets by prefix parameters .prms
+        for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
+            if data.salt:
+                salter = (self.decrypter.decrypt(qb64=data.salt) if self.decrypter
+                          else Salter(qb64=data.salt))
+                data.salt = (encrypter.encrypt(prim=salter).qb64
+                             if encrypter else salter.qb64)
+                puts.append((self.ks.prms, keys, data))
+
+        # private signing key seeds
+        # keys is tuple == (verkey.qb64,) .pris database auto decrypts
+        for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
+            puts.append((self.ks.pris, keys,
+                         encrypter.encrypt(prim=signer) if encrypter else signer))
+
+        puts.append((self.ks.gbls, "aeid", aeid))  # set aeid in db
+
+        with self.ks.env.begin(write=True) as txn:
+            for sub, keys, val in puts:
+                txn.put(sub._tokey(keys), sub._ser(val), db=sub.sdb)
+
+        self.encrypter = encrypter
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-- 
2.43.0


From 334f399174ed6b7365400ecdf267cee51b360d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 063/122] fix: identifier whose rotation died or failed can
 rotate again

---
 src/keri/app/habbing.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..09283b2 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, PubLot, PreSit, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3059,9 +3059,24 @@ class Hab(BaseHab):
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
 
+        # A process that ended between advancing the key store and accepting
+        # the rotation event left the key store one establishment event ahead
+        # of the KEL. Step it back so that the keys committed to are used.
+        keys = [verfer.qb64 for verfer in kever.verfers]
+        if ps_before.new.pubs != keys and ps_before.old.pubs == keys:
+            ridx = ps_before.old.ridx
+            stale = self.mgr.ks.pubs.get(riKey(self.pre, ridx - 1)) if ridx else None
+            ps_before = PreSit(old=PubLot(pubs=stale.pubs if stale else [],
+                                          ridx=max(ridx - 1, 0)),
+                               new=ps_before.old,
+                               nxt=ps_before.new)
+            self.mgr.ks.sits.pin(self.pre, val=ps_before)
+
+        made = False  # next keys made here, not already there to replay
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
         except IndexError:  # old next is new current
+            made = True
             verfers, digers = self.mgr.rotate(pre=self.pre,
                                               ncount=ncount,
                                               temp=self.temp,
@@ -3079,6 +3094,8 @@ class Hab(BaseHab):
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
             self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            if made:  # not to be replayed, next attempt may ask for others
+                self.mgr.ks.pubs.rem(riKey(self.pre, ps_before.nxt.ridx + 1))
             raise
 
         # Event validated successfully. Now safe to erase old stale
-- 
2.43.0


From c70258fc9e8a821897f7f7003892150d8f75ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 064/122] fix: name of identifier whose making died can be used
 again

---
 src/keri/db/basing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index f63f2d5..e0dc12e 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1352,7 +1352,7 @@ class Baser(LMDBer):
                                            db=self,
                                            local=True)
                 except MissingEntryError as ex:  # no kel event for keystate
-                    removes.append(keys)  # remove from .habs
+                    removes.append((keys, data))  # remove from .habs
                     continue
                 self.kevers[kever.prefixer.qb64] = kever
                 self.prefixes.add(kever.prefixer.qb64)
@@ -1360,10 +1360,13 @@ class Baser(LMDBer):
                     self.groups.add(data.hid)
 
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
-                removes.append(keys)  # no key state or KEL event for .hab record
+                removes.append((keys, data))  # no key state or KEL event for .hab record
 
-        for keys in removes:  # remove bare .habs records
+        for keys, data in removes:  # remove bare .habs records and their names
             self.habs.rem(keys=keys)
+            name = ("" if data.domain is None else data.domain, data.name)
+            if data.name is not None and self.names.get(keys=name) == data.hid:
+                self.names.rem(keys=name)
 
     def migrate(self):
         """ Run all migrations required
-- 
2.43.0


From 68c8603687ddc540586e321f9640c42e10b14962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 065/122] fix: replay leaves out an event whose acceptance was
 interrupted

---
 src/keri/db/basing.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index e0dc12e..cc4d994 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1691,6 +1691,8 @@ class Baser(LMDBer):
         if version is not None:
             gvrsn = version
         for keys, fn, dig in self.fels.getAllItemIter(keys=pre, on=fn):
+            if self.unaccepted(pre=pre, fn=fn):
+                continue  # skip this event
             try:
                 msg = self.cloneEvtMsg(pre=pre, fn=fn, dig=dig, gvrsn=gvrsn)
             except (MissingEntryError, SerializeError) as ex:
@@ -1698,6 +1700,21 @@ class Baser(LMDBer):
             yield msg
 
 
+    def unaccepted(self, pre, fn):
+        """
+        Returns:
+            unaccepted (bool): True means event of pre first seen at fn comes
+                after the saved key state of pre, because its acceptance was
+                interrupted or is not yet finished. False otherwise
+
+        Parameters:
+            pre (bytes | str): identifier prefix
+            fn (int): first seen number (ordinal) of event
+        """
+        ksr = self.states.get(keys=pre)
+        return ksr is not None and fn > int(ksr.f, 16)
+
+
     def cloneAllPreIter(self, gvrsn=Version, *, version=None):
         """
         Returns iterator of first seen event messages with attachments for all
@@ -1718,6 +1735,8 @@ class Baser(LMDBer):
             gvrsn = version
         for keys, fn, dig in self.fels.getAllItemIter(keys=b'', on=0):
             pre = keys[0].encode() if isinstance(keys[0], str) else keys[0]
+            if self.unaccepted(pre=pre, fn=fn):
+                continue  # skip this event
             try:
                 msg = self.cloneEvtMsg(pre=pre, fn=fn, dig=dig, gvrsn=gvrsn)
             except (MissingEntryError, SerializeError) as ex:
-- 
2.43.0


From 7cc6e786f9a3bcf5df2d72708d5d99ae7b1ae883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 066/122] fix: registry does not revoke what another registry
 issued

---
 src/keri/vdr/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..e3fe304 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1102,6 +1102,11 @@ class Tever:
             raise ValidationError("revoke without issue... probably have to escrow")
 
         iserder = SerderKERI(raw=ievt.encode("utf-8"))
+        if (iserder.ilk not in (Ilks.iss, Ilks.bis) or
+                Tevery.registryKey(iserder) != self.regk):  # not issued by this registry
+            raise ValidationError(f"Invalid revoke by registry = {self.regk} of "
+                                  f"event = {iserder.ked}.")
+
         if not iserder.compare(said=ked["p"]):  # prior event dig not match
             raise ValidationError("Mismatch event dig = {} with state dig"
                                   " = {} for evt = {}.".format(ked["p"],
-- 
2.43.0


From 74abb26d036af5c68d87059ea0adce6352f5aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 067/122] fix: registry does not report what another registry
 issued as its own

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index e3fe304..936a85e 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1169,6 +1169,8 @@ class Tever:
         dgkey = dgKey(vci, vcdig)  # get message
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
+        if Tevery.registryKey(serder) != self.regk:  # issued by some other registry
+            return None
 
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
-- 
2.43.0


From 71bef8eff66a7b6cf5b2e5463810f2ceea60bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 068/122] fix: credential is only valid in a registry of its
 issuer

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..855f347 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if creder.israid != self.tevers[regk].pre:  # registry belongs to another issuer
+            raise ValidationError(f"credential {vcid} of issuer {creder.israid} in "
+                                  f"registry {regk} of {self.tevers[regk].pre}")
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 00d8e83aa4d37eb51b80f0841cf5d7a449e7a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 069/122] fix: state of rotated registry is kept over restart

---
 src/keri/vdr/eventing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 936a85e..3dfe2da 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -907,6 +907,7 @@ class Tever:
                           saider=saider,
                           bigers=bigers,
                           baks=self.baks)
+            self.reger.states.pin(keys=self.regk, val=self.state())  # as of rotation
 
             return
 
-- 
2.43.0


From e50c0ca4ae6bf0ccf2e19ad7d03ea4c57507ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 070/122] fix: escrowed registry event only leaves escrow by
 itself

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 3dfe2da..055a071 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2039,7 +2039,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2049,7 +2049,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2097,7 +2097,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2107,7 +2107,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From ed09f69939895c955fa55686ea602274b8e9e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:57 +0000
Subject: [PATCH 071/122] fix: place of registry event in issuer log is the one
 verified

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 055a071..0e37fe2 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1233,7 +1233,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1361,7 +1361,7 @@ class Tever:
         dgkey = dgKey(serder.preb, serder.saidb)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=dgkey, val=(number, diger))
+        self.reger.ancs.pin(keys=dgkey, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=dgkey, vals=bigers)
         self.reger.tvts.put(keys=dgkey, val=serder.raw)
@@ -1385,7 +1385,7 @@ class Tever:
         if seqner and saider:
             number = Number(num=seqner.sn)
             diger = Diger(qb64=saider.qb64)
-            self.reger.ancs.put(keys=key, val=(number, diger))
+            self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1968,7 +1968,7 @@ class Tevery:
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From 175cf3d6f2181349425d4c739691054520eae7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 072/122] fix: out of order registry event keeps its backer
 signatures

---
 src/keri/vdr/eventing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0e37fe2..a9a9260 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1538,7 +1538,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1566,7 +1566,7 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1950,7 +1950,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1963,8 +1963,11 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): Siger instances of backer signatures if any"""
         key = dgKey(serder.preb, serder.saidb)
+        if bigers:
+            self.reger.tibs.pin(keys=key, vals=bigers)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-- 
2.43.0


From 8c8c39b5c9d97fb4084c665dc9f9e3ede7900924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 073/122] fix: backers of issuance are those of an accepted
 registry event

---
 src/keri/vdr/eventing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index a9a9260..5263aec 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1397,6 +1397,14 @@ class Tever:
                      "event = %s", serder.ked)
         return self.reger.taes.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
 
+    def accepted(self, said):
+        """ Returns True when said is of an accepted event of this registry, False otherwise
+
+        Parameters:
+            said (str): qb64 digest of registry inception or rotation event
+        """
+        return any(dig == said for _, _, dig in self.reger.tels.getAllItemIter(keys=self.prefixer.qb64))
+
     def getBackerState(self, ked):
         """ Calculate and return the current list of backers for event dict
 
@@ -1418,7 +1426,7 @@ class Tever:
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
-        if revt is None:
+        if revt is None or not self.accepted(regd):
             raise ValidationError("have to escrow this somewhere")
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
@@ -1564,7 +1572,9 @@ class Tevery:
             #if not serder.saider.verify(sad=serder.sad):
                 #raise ValidationError("Invalid SAID {} for event {}".format(said, serder.ked))
 
-            if sn > sno:  # sn later than sno so out of order escrow
+            early = (ilk in (Ilks.bis, Ilks.brv) and  # registry event it refers to not here yet
+                     int(ked["ra"]["s"], 16) > tever.sn and not tever.accepted(ked["ra"]["d"]))
+            if sn > sno or (sn == sno and early):  # sn later than sno so out of order escrow
                 # escrow out-of-order event
                 self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
-- 
2.43.0


From 67f172e7a7299f767511401e525954045c9189c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:19 +0000
Subject: [PATCH 074/122] fix: registry event in escrow never loses its backer
 signatures

---
 src/keri/vdr/eventing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 5263aec..ebeac44 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1235,7 +1235,11 @@ class Tever:
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
-            self.reger.tibs.pin(keys=key, vals=bigers)
+            self.reger.tibs.put(keys=key, vals=bigers)
+            good = [biger.qb64 for biger in bigers]
+            for biger in self.reger.tibs.get(keys=key):  # escrowed with event but not verified
+                if biger.qb64 not in good:
+                    self.reger.tibs.rem(keys=key, val=biger)
         if baks:
             self.reger.baks.rem(key)
             self.reger.baks.put(key, [bak.encode("utf-8") for bak in baks])
@@ -1363,7 +1367,7 @@ class Tever:
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.pin(keys=dgkey, val=(number, diger))
         if bigers:
-            self.reger.tibs.pin(keys=dgkey, vals=bigers)
+            self.reger.tibs.put(keys=dgkey, vals=bigers)
         self.reger.tvts.put(keys=dgkey, val=serder.raw)
         self.reger.twes.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed partially witnessed "
@@ -1387,7 +1391,7 @@ class Tever:
             diger = Diger(qb64=saider.qb64)
             self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
-            self.reger.tibs.pin(keys=key, vals=bigers)
+            self.reger.tibs.put(keys=key, vals=bigers)
         if baks:
             self.reger.baks.rem(key)
             self.reger.baks.put(key, [bak.encode("utf-8") for bak in baks])
@@ -1977,7 +1981,7 @@ class Tevery:
             bigers (list): Siger instances of backer signatures if any"""
         key = dgKey(serder.preb, serder.saidb)
         if bigers:
-            self.reger.tibs.pin(keys=key, vals=bigers)
+            self.reger.tibs.put(keys=key, vals=bigers)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-- 
2.43.0


From 7d3d6ea5d32fdf1b4a8071fb3a4270614d955fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 075/122] fix: last items of ordinal dups walk by next key,
 whatever the separator

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index f930282..79dd24b 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3064,8 +3064,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup at next key
                     return  # no values end of db raises StopIteration
 
 
-- 
2.43.0


From 4a111cdf98190493c394e339d90e5e685d9a0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 076/122] fix: reading last ioset items honours the given
 separator

---
 src/keri/db/dbing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 79dd24b..afa3e0e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1266,7 +1266,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1451,7 +1451,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2014,8 +2014,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
-- 
2.43.0


From 21d049493eacc207264a62c0d2b98ae12b286abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 077/122] fix: typed stores read last items by their own
 separator

---
 src/keri/db/koming.py |  3 ++-
 src/keri/db/subing.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..ed4227b 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,8 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                                sep=self.sep):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..dfdba63 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,8 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                                sep=self.sep):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1408,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                                sep=self.sep):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1517,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys),
+                                               sep=self.sep):
             yield self._des(val)
 
 
@@ -1536,7 +1539,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys),
+                                               sep=self.sep):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2735,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From cd11bfd6028b008db1abc575faaf5673d19929d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 078/122] fix: one bad or early receipt group no longer keeps
 the others of its message out

---
 src/keri/core/eventing.py | 72 +++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 0f2f4d0..f734bbf 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4551,6 +4551,7 @@ class Kevery:
             dig  # qb64 digest of receipted event"""
         local = local if local is not None else self.local
         local = True if local else False  # force boolean
+        cigars, wigers, tsgs, rsgs = cigars or [], wigers or [], tsgs or [], rsgs or []
 
         # fetch  pre dig to process
         ked = serder.ked
@@ -4622,15 +4623,18 @@ class Kevery:
                     # write receipt indexed sig to database
                     self.db.wigs.add(keys=dgkey, val=wiger)
 
+            failure = None  # of some group, must not keep other groups out
             for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter
                     if pre in self.prefixes:  # skip own receipter of own event
                         # sign own events as controller not endorse them via receipt
-                        raise ValidationError("Own pre={} receipter of own event"
+                        failure = ValidationError("Own pre={} receipter of own event"
                                               " {}.".format(self.prefixes, serder.pretty()))
+                        continue
                     if not local:  # skip own receipts of nonlocal events
-                        raise ValidationError("Own pre={} receipter of nonlocal event "
+                        failure = ValidationError("Own pre={} receipter of nonlocal event "
                                               "{}.".format(self.prefixes, serder.pretty()))
+                        continue
 
                 # receipted event in db so attempt to get receipter est evt
                 # retrieve dig of last event at sn of est evt of receiptor.
@@ -4639,25 +4643,28 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                    failure = UnverifiedTransferableReceiptError("Unverified receipt: "
                                                              "missing establishment event of transferable "
                                                              "receipter for event={}."
                                                              "".format(ked))
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
                 # assumes db ensures that sserder must not be none because sdig was in KE
                 if not sserder.compare(said=sdiger.qb64):  # endorser's dig not match event
-                    raise ValidationError("Bad trans indexed sig group at sn = {}"
+                    failure = ValidationError("Bad trans indexed sig group at sn = {}"
                                           " for ksn = {}."
                                           "".format(snumber.sn, sserder.ked))
+                    continue
 
                 # verify sigs and if so write receipt to database
                 sverfers = sserder.verfers
                 if not sverfers:
-                    raise ValidationError(f"Invalid receipter's est. event"
+                    failure = ValidationError(f"Invalid receipter's est. event"
                                           f" dig={sdiger.qb64}  from pre="
                                           f"{sprefixer.qb64}, no keys.")
+                    continue
 
                 #for siger in sigers:  # endorser (non-controller) signatures
                     #if siger.index >= len(sverfers):
@@ -4672,7 +4679,8 @@ class Kevery:
                 # vrcsNew test to replace vrcs changed format of subdb
                 for siger in sigers:  # endorser (non-controller) signatures
                     if siger.index >= len(sverfers):
-                        raise ValidationError(f"Index={siger.index} to large for keys.")
+                        failure = ValidationError(f"Index={siger.index} to large for keys.")
+                        continue
 
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
@@ -4684,11 +4692,13 @@ class Kevery:
                 if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter
                     if pre in self.prefixes:  # skip own receipter of own event
                         # sign own events as controller not endorse them via receipt
-                        raise ValidationError("Own pre={} receipter of own event"
+                        failure = ValidationError("Own pre={} receipter of own event"
                                               " {}.".format(self.prefixes, serder.pretty()))
+                        continue
                     if not local:  # skip own receipts of nonlocal events
-                        raise ValidationError("Own pre={} receipter of nonlocal event "
+                        failure = ValidationError("Own pre={} receipter of nonlocal event "
                                               "{}.".format(self.prefixes, serder.pretty()))
+                        continue
 
                 # receipted event in db so attempt to get receipter est evt
                 # retrieve dig of last event at sn of est evt of receiptor.
@@ -4697,25 +4707,28 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                    failure = UnverifiedTransferableReceiptError("Unverified receipt: "
                                                              "missing establishment event of transferable "
                                                              "receipter for event={}."
                                                              "".format(ked))
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
                 # assumes db ensures that sserder must not be none because sdig was in KE
                 if not sserder.compare(said=sdiger.qb64):  # endorser's dig not match event
-                    raise ValidationError("Bad trans indexed sig group at sn = {}"
+                    failure = ValidationError("Bad trans indexed sig group at sn = {}"
                                           " for ksn = {}."
                                           "".format(snumber.sn, sserder.ked))
+                    continue
 
                 # verify sigs and if so write receipt to database
                 sverfers = sserder.verfers
                 if not sverfers:
-                    raise ValidationError(f"Invalid receipter's est. event"
+                    failure = ValidationError(f"Invalid receipter's est. event"
                                           f" dig={sdiger.qb64}  from pre="
                                           f"{sprefixer.qb64}, no keys.")
+                    continue
 
                 #for siger in sigers:  # endorser (non-controller) signatures
                     #if siger.index >= len(sverfers):
@@ -4730,7 +4743,8 @@ class Kevery:
                 # vrcsNew test to replace vrcs changed format of subdb
                 for siger in sigers:  # endorser (non-controller) signatures
                     if siger.index >= len(sverfers):
-                        raise ValidationError(f"Index={siger.index} to large for keys.")
+                        failure = ValidationError(f"Index={siger.index} to large for keys.")
+                        continue
 
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
@@ -4738,6 +4752,9 @@ class Kevery:
                         keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
+            if failure is not None:
+                raise failure
+
         else:  # no such event to be receipted yet at that sn so escrow, may be
             # receipt of pending recovery of event at that sn
             if cigars:
@@ -4746,6 +4763,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
@@ -4969,7 +4989,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
@@ -5012,16 +5032,19 @@ class Kevery:
             # Only accept receipt if for last seen version of receipted event at sn
             ldig = self.db.kels.getLast(keys=pre, on=sn)  # retrieve dig of last event at sn.
 
+        failure = None  # of some group, must not keep other groups out
         for sprefixer, snumber, sdiger, sigers in rsgs:  # iterate over each trq
             if not self.lax and sprefixer.qb64 in self.prefixes:  # own trans receipt quadruple (chit)
                 if pre in self.prefixes:  # skip own trans receipts of own events
-                    raise ValidationError("Own pre={} replay attached transferable "
+                    failure = ValidationError("Own pre={} replay attached transferable "
                                           "receipt quadruple of own event {}."
                                           "".format(self.prefixes, serder.pretty()))
+                    continue
                 if not local:  # skip own trans receipt quadruples of nonlocal events
-                    raise ValidationError("Own pre={} seal in replay attached "
+                    failure = ValidationError("Own pre={} seal in replay attached "
                                           "transferable receipt quadruples of nonlocal"
                                           " event {}.".format(self.prefixes, serder.pretty()))
+                    continue
 
             if ldig is not None and sprefixer.qb64 in self.kevers:
                 # both receipted event and receipter in database so retreive
@@ -5038,31 +5061,35 @@ class Kevery:
                     # receipter's est event not yet in receipter's KEL
                     # receipter's seal event not in receipter's KEL
                     self.escrowTransReceiptGroup(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                    failure = UnverifiedTransferableReceiptError("Unverified receipt: "
                                                              "missing establishment event of transferable "
                                                              "validator receipt quadruple for event={}."
                                                              "".format(ked))
+                    continue
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receipter
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
                 # assumes db ensures that sserder must not be none because sdig was in KE
                 if not sserder.compare(said=sdiger.qb64):  # seal dig not match event
-                    raise ValidationError("Bad trans receipt quadruple at sn = {}"
+                    failure = ValidationError("Bad trans receipt quadruple at sn = {}"
                                           " for rct = {}."
                                           "".format(snumber.sn, sserder.ked))
+                    continue
 
                 # verify sigs and if so write sigs to database
                 sverfers = sserder.verfers
                 if not sverfers:
-                    raise ValidationError("Invalid trans receipt est. event"
+                    failure = ValidationError("Invalid trans receipt est. event"
                                           " dig = {} for receipt from pre ={}, "
                                           "no keys."
                                           "".format(sdiger.qb64, sprefixer.qb64))
+                    continue
 
                 # vrcsNew test to replace vrcs changed format of subdb
                 for siger in sigers:  # endorser (non-controller) signatures
                     if siger.index >= len(sverfers):
-                        raise ValidationError(f"Index={siger.index} to large for keys.")
+                        failure = ValidationError(f"Index={siger.index} to large for keys.")
+                        continue
 
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, serder.raw):  # verify sig
@@ -5073,7 +5100,7 @@ class Kevery:
                         msg = (f"Bad escrowed trans receipt sig pre={pre} sn={sn:x}"
                               f" receipter={sprefixer.qb64}")
                         logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
+                        failure = ValidationError(msg)
 
 
                 #if siger.index >= len(sverfers):
@@ -5103,7 +5130,10 @@ class Kevery:
                        f"receipt quadruple for event {serder.said}")
                 logger.info(msg)
                 logger.debug("Event=\n%s\n", serder.pretty())
-                raise UnverifiedTransferableReceiptError(msg)
+                failure = UnverifiedTransferableReceiptError(msg)
+
+        if failure is not None:
+            raise failure
 
 
     def removeStaleReplyEndRole(self, saider):
-- 
2.43.0


From 3ceff2a82c27661f29a02fb18dc31170cf3d4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 079/122] fix: an escrowed receipt is filed by the witnesses of
 its event, not the latest ones

---
 src/keri/core/eventing.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f734bbf..b86efce 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6946,17 +6946,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise ValidationError(msg)
 
-                    # Check if kever exists before accessing it
-                    if serder.pre not in self.kevers:
-                        # event exists in database but kever not ready yet, keep in escrow
-                        msg = f"URE Kever not ready for receipted evt at pre={pre} sn={sn:x}"
-                        logger.trace("Kevery unescrow error: %s", msg)
-                        raise UnverifiedReceiptError(msg)
-
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # witnesses as of the receipted event
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From 1e8623998add2cc1ead124200c9a377617227f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 080/122] fix: an escrowed witness receipt of an event accepted
 meanwhile is recorded

---
 src/keri/core/eventing.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b86efce..093598a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6812,10 +6812,26 @@ class Kevery:
                                                      wiger=wiger)
 
                 if not found:  # no partial witness escrow of event found
-                    # so keep in escrow by raising UnverifiedWitnessReceiptError
-                    msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
-                    logger.trace("Kevery unescrow error: %s", msg)
-                    raise UnverifiedWitnessReceiptError(msg)
+                    if self.db.kels.getLast(keys=pre, on=sn) != rdig:  # not accepted
+                        # so keep in escrow by raising UnverifiedWitnessReceiptError
+                        msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise UnverifiedWitnessReceiptError(msg)
+
+                    # already accepted, extra receipt for its witness list
+                    serder = self.db.evts.get(keys=(pre, rdig))
+                    wits = self.fetchWitnessState(pre, sn)
+                    if wiger.index >= len(wits):
+                        msg = f"UWE Bad escrowed witness receipt index={wiger.index} at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    wiger.verfer = Verfer(qb64=wits[wiger.index].qb64)
+                    if not wiger.verfer.verify(wiger.raw, serder.raw):
+                        msg = f"UWE Bad escrowed witness receipt wig at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+                    self.db.wigs.add(keys=(pre, serder.said), val=wiger)
 
             except UnverifiedWitnessReceiptError as ex:
                 # still waiting on missing prior event to validate
-- 
2.43.0


From 46e9a26efd7ffba9d121dd6578489380dbdb414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 081/122] fix: an escrowed receipt of a pending recovery is not
 dropped before the recovery arrives

---
 src/keri/core/eventing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 093598a..c5cf424 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6951,9 +6951,10 @@ class Kevery:
 
                     #  compare digs
                     if rsaider.qb64b != serder.saidb:
-                        msg = f"URE Bad escrowed receipt dig at pre={pre} sn={sn:x} receipter={sprefixer.qb64}"
+                        # maybe receipt of pending recovery so keep in escrow
+                        msg = f"URE Other event than receipted at pre={pre} sn={sn:x} receipter={sprefixer.qb64}"
                         logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
+                        raise UnverifiedReceiptError(msg)
 
                     #  verify sig verfer key is prefixer from triple
                     if not cigar.verfer.verify(cigar.raw, serder.raw):
@@ -7395,9 +7396,10 @@ class Kevery:
 
                     #  compare digs
                     if esaider.qb64b != serder.saidb:
-                        msg = f"VRE Bad escrowed receipt dig at pre={pre} sn={sn:x} receipter={sprefixer.qb64}"
+                        # maybe receipt of pending recovery so keep in escrow
+                        msg = f"VRE Other event than receipted at pre={pre} sn={sn:x} receipter={sprefixer.qb64}"
                         logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
+                        raise UnverifiedTransferableReceiptError(msg)
 
                     # get receipter's last est event
                     # retrieve dig of last event at sn of receipter.
-- 
2.43.0


From 87c608a7920c605579773cff7f8b5541cd2e1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 082/122] fix: a receipt of an accepted event is not judged as
 of a leftover partial witness escrow

---
 src/keri/core/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c5cf424..ec2ec78 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -7237,6 +7237,8 @@ class Kevery:
             #  compare digs to ensure database dig and rdiger (receipt's dig) match
             if rsaider.qb64b != dig:
                 continue  # not match keep looking
+            if self.db.kels.getLast(keys=pre, on=sn) == rsaider.qb64:
+                break  # already accepted, no longer partially witnessed
 
             # Extract or compute witness list
             if serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
-- 
2.43.0


From cbcc9f70c7ffa6efc65929d36aa49cef319849b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 083/122] fix: own receipts are left out also when their event
 is yet to come

---
 src/keri/core/eventing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index ec2ec78..c47ae2a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4757,6 +4757,12 @@ class Kevery:
 
         else:  # no such event to be receipted yet at that sn so escrow, may be
             # receipt of pending recovery of event at that sn
+            if not self.lax:  # leave out own receipts as above
+                mine = lambda rpre: rpre in self.prefixes and (pre in self.prefixes or not local)
+                cigars = [cigar for cigar in cigars if not mine(cigar.verfer.qb64)]
+                tsgs = [tsg for tsg in tsgs if not mine(tsg[0].qb64)]
+                rsgs = [rsg for rsg in rsgs if not mine(rsg[0].qb64)]
+
             if cigars:
                 self.escrowUReceipt(serder, cigars, said=ked["d"])  # digest in receipt
 
-- 
2.43.0


From abd4e2eb08d09ce0ecae458b576bea9870d58fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 084/122] fix: KRAM takes the sender's last establishment
 event, not its latest event, as current key state

Signature groups reference the establishment event whose keys made them; after an
interaction event they were taken for stale and the message dropped, and partial
signatures collected before one were given up.
---
 src/keri/core/kraming.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..80b10b2 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -20,7 +20,7 @@ from hio.base import doing
 from hio.help import ogler
 
 
-from .coring import Verser, Prefixer, Diger
+from .coring import Verser, Prefixer, Diger, Number
 from .indexing import Siger
 from .eventing import verifySigs
 
@@ -69,7 +69,7 @@ Fields:
 
 Key state ref and tholder are derivable from the sender's kever
 (current key state) and are not included here. Callers that need
-them should construct directly from kever.sner, kever.serder.said,
+them should construct directly from kever.lastEst.s, kever.lastEst.d,
 and kever.tholder.
 """
 
@@ -455,8 +455,8 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
@@ -552,8 +552,8 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
@@ -608,8 +608,8 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
+        curSn = kever.lastEst.s
+        curSaid = kever.lastEst.d
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -694,8 +694,8 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if (number.sn != kever.lastEst.s or
+                    sdiger.qb64 != kever.lastEst.d):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
@@ -1093,8 +1093,8 @@ class Kramer:
 
                 # Key state change detection:
                 # Compare stored key state ref against current kever state
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(key)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1248,8 +1248,8 @@ class Kramer:
                         return msg
 
                     # Threshold not met, store partials for accumulation
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(key, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(key, sig)
@@ -1326,8 +1326,8 @@ class Kramer:
                 # Key state change detection:
                 # Compare stored key state ref against current kever state.
                 # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(partialKey)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1534,8 +1534,8 @@ class Kramer:
 
                     # Threshold not met, store partials for accumulation.
                     # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(partialKey, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(partialKey, sig)
-- 
2.43.0


From 4a18063a978be7c3130bfa563cef683a7848fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 085/122] fix: a message completed by accumulated signatures is
 not accepted again by KRAM

---
 src/keri/core/kraming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 80b10b2..f79166e 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1107,6 +1107,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and
+                        kever.tholder.satisfy(indices=[sig.index for sig in existingSigs])):
+                    return None  # already accepted on reaching threshold, idempotent drop
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
@@ -1340,6 +1344,10 @@ class Kramer:
                 if existingSigs is None:
                     existingSigs = []
 
+                if (existingSigs and kever.tholder and
+                        kever.tholder.satisfy(indices=[sig.index for sig in existingSigs])):
+                    return None  # already accepted on reaching threshold, idempotent drop
+
                 existingSigIndices = {sig.index for sig in existingSigs}
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
-- 
2.43.0


From d3d02708f6a6ad5db34f284fef90aae1e26bcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 086/122] fix: pruning exchanges keeps entries of messages that
 would still be timely

---
 src/keri/core/kraming.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index f79166e..d062c1b 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2149,11 +2149,17 @@ class Kramer:
             # Get the exchange time from the cache
             xdt_ms = int(helping.fromIso8601(cache.xdt).timestamp() * 1000)
 
-            # Get the prune lag values from the cache record
+            # Get the message time from the cache
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+
+            # Get the drift and prune lag values from the cache record
+            d = cache.d
+            pml = cache.pml
             pxl = cache.pxl
 
-            # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            # Keep while either the exchange or the message itself is still
+            # timely, otherwise the message would be accepted once more
+            if rdt_ms > xdt_ms + pxl and rdt_ms - d - pml > mdt_ms:
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From 8b034e1344ad653e47e8f22640ce112e58298d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:46 +0000
Subject: [PATCH 087/122] fix: an accepted exchange message is not escrowed
 again by an incompletely signed copy

The copy's signatures and attachments altered what was saved, so that the message
could no longer be cloned, and it was handled once more.
---
 src/keri/peer/exchanging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..2e65211 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -205,6 +205,9 @@ class Exchanger:
             nests (list | None): parsed V2 nested substreams to preserve
 
         """
+        if self.hby.db.exns.get(keys=(serder.said,)) is not None:
+            return False  # already accepted, do not escrow nor alter what is saved
+
         dig = serder.said
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
-- 
2.43.0


From 9d5b4f58113951db48d608e04dec852451dbe6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 088/122] fix: an accepted exchange message is saved with the
 verified signature groups only

Left over groups of its escrow, unverified, kept it from being cloned or sent on.
---
 src/keri/peer/exchanging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 2e65211..97e06a9 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -301,6 +301,8 @@ class Exchanger:
         cigars = cigars or []
         essrs = essrs or []
 
+        if self.hby.db.exns.get(keys=(dig,)) is None:  # not yet accepted
+            self.hby.db.esigs.trim(keys=(dig, ""))  # unverified ones from escrow
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
-- 
2.43.0


From 7fd8069e82043cc660577c6a4b7224fd7efc590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 089/122] fix: a signature group that does not verify does not
 hold up an escrowed exchange message

---
 src/keri/peer/exchanging.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 97e06a9..b462233 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -261,7 +261,12 @@ class Exchanger:
                 essrs = [texter for texter in self.hby.db.essrs.get(keys=(dig,))]
                 nests = loadParsedNestedSubstreams(self.hby, dig)
 
-                self.processEvent(serder=serder, tsgs=tsgs, ptds=pathed,
+                # groups that do not verify must not hold up one that does
+                ready = [tsg for tsg in tsgs if self.satisfied(serder, *tsg)]
+                if tsgs and not ready:
+                    raise MissingSignatureError(f"Not enough signatures for evt = {dig}")
+
+                self.processEvent(serder=serder, tsgs=ready, ptds=pathed,
                                   essrs=essrs, nests=nests)
 
             except MissingSignatureError as ex:
@@ -293,6 +298,28 @@ class Exchanger:
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
                 logger.debug("Event=\n%s\n", serder.pretty())
 
+    def satisfied(self, serder, prefixer, seqner, saider, sigers):
+        """ Returns True when the signature group satisfies the threshold of the
+        establishment event of the sender it references, False otherwise.
+
+        Parameters:
+            serder (Serder): instance of event
+            prefixer (Prefixer): of signer
+            seqner (Seqner): sequence number of establishment event
+            saider (Saider): digest of establishment event
+            sigers (list[Siger]): indexed signatures
+
+        """
+        if (serder.ked["i"] != prefixer.qb64 or prefixer.qb64 not in self.kevers or
+                self.kevers[prefixer.qb64].sn < seqner.sn):
+            return False
+        try:
+            tholder, verfers = self.hby.db.resolveVerifiers(pre=prefixer.qb64, sn=seqner.sn, dig=saider.qb64)
+        except ValidationError:
+            return False
+        _, indices = verifySigs(serder.raw, sigers, verfers)
+        return tholder is not None and tholder.satisfy(indices)
+
     def logEvent(self, serder, pathed=None, tsgs=None, cigars=None, essrs=None, nests=None):
         dig = serder.said
         pdig = serder.ked['p']
-- 
2.43.0


From 26f67238a28cf90d348f289ad6d6766e8c43db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 090/122] fix: a bare signature does not authenticate an
 exchange message of a transferable sender

An identifier that is its first key may have rotated that key out.
---
 src/keri/peer/exchanging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index b462233..14069f1 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -126,7 +126,8 @@ class Exchanger:
                     logger.debug("Exchange message body=\n%s\n", serder.pretty())
                     raise MissingSignatureError(msg)
 
-                if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
+                if (cigar.verfer.transferable or  # keys of transferable aid are those of its kel
+                        not cigar.verfer.verify(cigar.raw, serder.raw)):  # cig not verify
                     msg = (f"Failure satisfying exn on cigs for {cigar} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
                     logger.info(msg)
-- 
2.43.0


From 0b726f649dbd2dc881c3a04c9adb2e53a0521122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 091/122] fix: a copy without attachments does not erase the
 attachments of an exchange message

---
 src/keri/peer/exchanging.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 14069f1..78c6b86 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -216,7 +216,7 @@ class Exchanger:
                 self.hby.db.esigs.add(keys=quadkeys, val=siger)
 
         self.hby.db.epsd.put(keys=(dig,), val=Dater())
-        self.hby.db.epath.pin(keys=(dig,), vals=[bytes(p) for p in pathed])
+        self.hby.db.epath.put(keys=(dig,), vals=[bytes(p) for p in pathed])  # idempotent, keeps those of other copies
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
@@ -339,7 +339,10 @@ class Exchanger:
             self.hby.db.ecigs.add(keys=(dig,), val=(cigar.verfer, cigar))
 
         diger = Diger(qb64=serder.said)
-        self.hby.db.epath.pin(keys=(dig,), vals=[bytes(p) for p in pathed])
+        if self.hby.db.exns.get(keys=(dig,)) is None:
+            self.hby.db.epath.pin(keys=(dig,), vals=[bytes(p) for p in pathed])
+        else:  # accepted again, copy may lack attachments
+            self.hby.db.epath.put(keys=(dig,), vals=[bytes(p) for p in pathed])
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
-- 
2.43.0


From c38030bdea1da081aaa91e84342c074590e4b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 092/122] fix: the ESSR payload of an escrowed exchange message
 is kept, a rejected one leaves no signatures

---
 src/keri/peer/exchanging.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 78c6b86..610dd78 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -96,7 +96,7 @@ class Exchanger:
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
                     logger.info(msg)
@@ -109,7 +109,7 @@ class Exchanger:
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
@@ -135,7 +135,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -196,7 +196,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -204,6 +204,7 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list | None): Texters of ESSR payload to preserve
 
         """
         if self.hby.db.exns.get(keys=(serder.said,)) is not None:
@@ -220,6 +221,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        for texter in essrs or []:
+            self.hby.db.essrs.add(keys=(dig,), val=texter)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -278,10 +281,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Exchange partially signed unescrowed: %s", ex.args[0])
                 else:
@@ -290,10 +294,11 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
                     continue
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
-- 
2.43.0


From 62a10c4224591a921b2c88a93f4c2ddca562f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 093/122] fix: cloning an exchange message signed by a
 nontransferable sender

---
 src/keri/peer/exchanging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 610dd78..b506063 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -797,7 +797,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
     for cigar in cigars:
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
-- 
2.43.0


From 89f22e71d271be7efaa4d80903b7d3fe4d9556a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 094/122] fix: a serialized exchange message carries its ESSR
 payload

---
 src/keri/peer/exchanging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index b506063..4400bad 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -336,6 +336,7 @@ class Exchanger:
 
         if self.hby.db.exns.get(keys=(dig,)) is None:  # not yet accepted
             self.hby.db.esigs.trim(keys=(dig, ""))  # unverified ones from escrow
+            self.hby.db.essrs.rem(keys=(dig,))
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
@@ -723,6 +724,11 @@ def serializeMessage(hby, said, framed=False):
                             count=(len(p) // 4), version=Vrsn_1_0).qb64b)
         aims.extend(p.encode("utf-8"))
 
+    if essrs := hby.db.essrs.get(keys=(exn.said,)):
+        aims.extend(Counter(Codens.ESSRPayloadGroup, count=len(essrs), version=Vrsn_1_0).qb64b)
+        for texter in essrs:
+            aims.extend(texter.qb64b)
+
     msg = bytearray(exn.raw)
     if aims:
         if len(aims) % 4:
-- 
2.43.0


From b26c7ed5efd2beaa7ddbef2c6c083bdb5b55e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:16 +0000
Subject: [PATCH 095/122] fix: messages of other protocols neither are nor
 displace the answer to an IPEX message

---
 src/keri/acdc/ipexing.py    |  6 +++++-
 src/keri/peer/exchanging.py |  8 +++++++-
 src/keri/vc/protocoling.py  | 29 +++++++++++++++++++----------
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/keri/acdc/ipexing.py b/src/keri/acdc/ipexing.py
index ec0a5e9..4d5b833 100644
--- a/src/keri/acdc/ipexing.py
+++ b/src/keri/acdc/ipexing.py
@@ -317,7 +317,11 @@ class IpexHandler:
         saider = self.hby.db.erpy.get(keys=(serder.said,))
         if saider:
             rserder, _ = cloneMessage(self.hby, saider.qb64)
-            return rserder
+            if rserder is not None:
+                rparts = rserder.ked["r"].split("/")
+                # messages of other protocols are no responses
+                if len(rparts) == 3 and rparts[:2] == ["", "ipex"] and rparts[2] in Ipex:
+                    return rserder
 
         return None
 
diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 4400bad..f6badf5 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -355,7 +355,13 @@ class Exchanger:
         for texter in essrs:
             self.hby.db.essrs.add(keys=(dig,), val=texter)
         if pdig:
-            self.hby.db.erpy.pin(keys=(pdig,), val=diger)
+            prior = self.hby.db.exns.get(keys=(pdig,))
+            route = serder.ked["r"]
+            if (route in self.routes and prior is not None and
+                    route.split("/")[:2] == prior.ked["r"].split("/")[:2]):
+                self.hby.db.erpy.pin(keys=(pdig,), val=diger)
+            else:  # not of a known or of another protocol, must not displace its response
+                self.hby.db.erpy.put(keys=(pdig,), val=diger)
 
         self.hby.db.exns.put(keys=(dig,), val=serder)
 
diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index c26c657..8f2cafa 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -2,7 +2,6 @@
 """
 keri.vc.handling module
 """
-import os
 from collections import namedtuple
 from hio.help import ogler
 
@@ -77,11 +76,8 @@ class IpexHandler:
                 if pserder is None:  # previous reference message does not exist
                     return False
 
-                proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
-
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if self.verb(pserder) not in PreviousRoutes[verb]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
@@ -94,17 +90,29 @@ class IpexHandler:
                 if pserder is None:  # previous reference message does not exist
                     return False
 
-                proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
-
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if self.verb(pserder) not in PreviousRoutes[verb]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
 
         return False
 
+    @staticmethod
+    def verb(serder):
+        """ Return the IPEX verb of the exn message, if it is a message of the IPEX protocol
+
+        Parameters:
+            serder (Serder): exn message
+
+        Returns:
+            str | None: verb when the route is that of an IPEX message, otherwise None"""
+        match serder.ked['r'].split("/"):
+            case ["", "ipex", verb] if verb in Ipex:
+                return verb
+
+        return None
+
     def response(self, serder):
         """ Return the IPEX exn message sent as a response to the provided serder, if any
 
@@ -116,7 +124,8 @@ class IpexHandler:
         saider = self.hby.db.erpy.get(keys=(serder.said,))
         if saider:
             rserder, _ = cloneMessage(self.hby, saider.qb64)  # Clone previous so we reverify the sigs
-            return rserder
+            if rserder is not None and self.verb(rserder) is not None:
+                return rserder
 
         return None
 
-- 
2.43.0


From d104616a1d25d06024abc507c9157273043eb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:16 +0000
Subject: [PATCH 096/122] fix: hand over only an ESSR payload the exchange
 message commits to

---
 src/keri/peer/exchanging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index f6badf5..f8aad9e 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -157,7 +157,7 @@ class Exchanger:
         kwa["attachments"] = attachments
         if nests and (route.startswith("/multisig") or route.startswith("/ipex")):
             kwa["nests"] = nests
-        if essrs:
+        if essrs and isinstance(serder.seals, str):  # only payload message commits to
             kwa["essr"] = b''.join([texter.raw for texter in essrs])
 
         if isinstance(serder.seals, str):
-- 
2.43.0


From 0d49835e5984ea18d3e5217daff286b865e0c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:16 +0000
Subject: [PATCH 097/122] fix: accepted IPEX message without text notifies user

---
 src/keri/vc/protocoling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index 8f2cafa..1b4e787 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -140,7 +140,7 @@ class IpexHandler:
         data = dict(
             r=f"/exn{serder.ked['r']}",
             d=serder.said,
-            m=attrs["m"]
+            m=attrs.get("m", "")
         )
 
         self.notifier.add(attrs=data)
-- 
2.43.0


From d7ddfd5db8839418c210360af6d93a0ce9f997e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 098/122] fix: signature of group's local member from remote
 source neither counts later nor blocks others

---
 src/keri/core/eventing.py | 50 +++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c47ae2a..a5fc92e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -1940,6 +1940,29 @@ def messagize(serder, *, sigers=None, tsgs=None, lsgs=None, wigers=None,
     return gims
 
 
+def memberKeys(db, pre, verfers):
+    """Returns set of qb64 public keys of local member of group pre.
+
+    Member may have rotated before its group does or group before its member
+    does so includes all keys of member past and present as well as those from
+    verfers to which it is committed as next.
+
+    Parameters:
+        db (Baser): database of local controller
+        pre (str): qb64 identifier prefix of group
+        verfers (list[Verfer]): candidate keys of group"""
+    habord = db.habs.get(keys=(pre,))
+    kever = db.kevers[habord.mid]
+    pubs = {kever.verfers[0].qb64}
+    for dig in db.kels.getAllIter(keys=habord.mid):
+        serder = db.evts.get(keys=(habord.mid, dig))
+        if serder is not None and serder.estive and serder.verfers:
+            pubs.add(serder.verfers[0].qb64)
+    pubs |= {verfer.qb64 for verfer in verfers for diger in kever.ndigers
+             if Diger(ser=verfer.qb64b, code=diger.code).qb64 == diger.qb64}
+    return pubs
+
+
 class Kever:
     """
     Kever is KERI key event verifier class
@@ -2294,11 +2317,8 @@ class Kever:
 
         Returns:
             indices list[int]: list of indices of keys contributed by local members"""
-        habord = self.db.habs.get(keys=(self.prefixer.qb64,))
-        kever = self.kevers[habord.mid]
-
-        idx = [verfer.qb64 for verfer in verfers].index(kever.verfers[0].qb64)
-        return [idx]
+        pubs = memberKeys(self.db, self.prefixer.qb64, verfers)
+        return [idx for idx, verfer in enumerate(verfers) if verfer.qb64 in pubs]
 
 
     def reload(self, state):
@@ -5862,6 +5882,8 @@ class Kevery:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
+        if not local:
+            sigers = self.withoutMembered(serder, sigers)
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         if wigers:
@@ -5872,6 +5894,22 @@ class Kevery:
         # log escrowed
         logger.debug("Kevery process: escrowed out of order event=\n%s", serder.pretty())
 
+    def withoutMembered(self, serder, sigers):
+        """Returns sigers without those by local member when serder is event of
+        group with local member. Signatures of local member from remote source must not
+        be in escrow where later local source of same event would count them.
+
+        Parameters:
+            serder (SerderKERI): instance of event from remote source
+            sigers (list): of Siger instances"""
+        if serder.pre not in self.db.groups:
+            return sigers
+        pubs = memberKeys(self.db, serder.pre, serder.verfers if serder.estive else [])
+        verfers = [Verfer(qb64=pub) for pub in pubs]
+        return [siger for siger in sigers
+                if not any(verfer.verify(siger.raw, serder.raw) for verfer in verfers)]
+
+
     def escrowQueryNotFoundEvent(self, prefixer, serder, sigers, cigars=None):
         """
         Update associated logs for escrow of Query Not Found event
@@ -5918,6 +5956,8 @@ class Kevery:
             self.db.esrs.put(keys=dgkey, val=esr)
 
         self.db.dtss.put(keys=dgkey, val=Dater())
+        if not local:
+            sigers = self.withoutMembered(serder, sigers)
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
-- 
2.43.0


From 2adbe27c297e37a2e165519dc9e1f8903e55fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:08 +0000
Subject: [PATCH 099/122] fix: save contact information, its signature, fields
 and picture all or none

A process that ended in between left contacts whose signature no longer
verified, or lost them. Fields whose name contains a separator made all
listing and searching fail.
---
 src/keri/app/organizing.py | 93 +++++++++++++++++++++++++-------------
 src/keri/db/dbing.py       | 22 +++++++++
 2 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index 460cf50..b40de41 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -38,20 +38,8 @@ class BaseOrganizer:
             data (dict): data to add to or update in contact information
 
         """
-        existing = self.get(pre)
-        if existing is None:
-            existing = dict()
-
-        existing |= data
-
-        raw = json.dumps(existing).encode("utf-8")
-        cigar = self.hby.signator.sign(ser=raw)
-
-        self.cigsdb.pin(keys=(pre,), val=cigar)
-        self.datadb.pin(keys=(pre,), val=raw)
-
-        for field, val in data.items():
-            self.fielddb.pin(keys=(pre, field), val=val)
+        existing = self.get(pre) or dict()
+        self._save(pre, existing | data, fields=data, clear=False)
 
     def replace(self, pre, data):
         """ Replace all contact information for identifier prefix with data
@@ -61,8 +49,7 @@ class BaseOrganizer:
             data (dict): data to replace contact information with
 
         """
-        self.rem(pre)
-        self.update(pre, data)
+        self._save(pre, data, fields=data)
 
     def set(self, pre, field, val):
         """ Add or replace one value in contact information for identifier prefix
@@ -76,7 +63,6 @@ class BaseOrganizer:
         data = self.get(pre) or dict()
         data[field] = val
         self.replace(pre, data)
-        self.fielddb.pin(keys=(pre, field), val=val)
 
     def unset(self, pre, field):
         """ Remove field from contact information for identifier prefix
@@ -89,7 +75,6 @@ class BaseOrganizer:
         data = self.get(pre)
         del data[field]
         self.replace(pre, data)
-        self.fielddb.rem(keys=(pre, field))
 
     def rem(self, pre):
         """ Remove all contact information for identifier prefix
@@ -100,9 +85,42 @@ class BaseOrganizer:
         Returns:
             bool: True if contact data was removed
             """
-        self.cigsdb.rem(keys=(pre,))
-        self.datadb.rem(keys=(pre,))
-        return self.fielddb.trim(keys=(pre,))
+        return self._save(pre)
+
+    def _save(self, pre, data=None, *, fields=None, clear=True):
+        """ Save or remove signed contact information together with its fields
+
+        All or none of it is saved so that it never is without its signature nor
+        differs from its fields, whenever it is that the process ends.
+
+        Parameters:
+            pre (str): qb64 identifier prefix of contact information
+            data (dict): contact information to save. None means remove
+            fields (dict): individual fields to save
+            clear (bool): True means remove fields already there
+
+        Returns:
+            bool: True if fields were removed
+        """
+        rems = []
+        if clear:
+            rems.extend((self.fielddb.sdb, self.fielddb._tokey(keys))
+                        for keys, _ in self.fielddb.getTopItemIter(keys=(pre, "")))
+        cleared = bool(rems)
+
+        sets = []
+        if data is None:
+            rems.extend((subdb.sdb, subdb._tokey((pre,))) for subdb in (self.cigsdb, self.datadb))
+        else:
+            raw = json.dumps(data).encode("utf-8")
+            cigar = self.hby.signator.sign(ser=raw)
+            sets.append((self.cigsdb.sdb, self.cigsdb._tokey((pre,)), self.cigsdb._ser(cigar)))
+            sets.append((self.datadb.sdb, self.datadb._tokey((pre,)), self.datadb._ser(raw)))
+            sets.extend((self.fielddb.sdb, self.fielddb._tokey((pre, field)), self.fielddb._ser(val))
+                        for field, val in fields.items())
+
+        self.hby.db.setRemVals(sets=sets, rems=rems)
+        return cleared
 
     def get(self, pre, field=None):
         """ Retrieve all contact information for identifier prefix
@@ -133,6 +151,16 @@ class BaseOrganizer:
         data["id"] = pre
         return data
 
+    def _fields(self):
+        """ Iterator over individual fields of all contacts. The name of a field
+        may contain separators of keys.
+
+        Returns:
+            Iterator: of triples (pre, field, val)
+        """
+        for (pre, *parts), val in self.fielddb.getTopItemIter():
+            yield pre, self.fielddb.sep.join(parts), val
+
     def list(self):
         """ Return list of all contact information for all remote identifiers
 
@@ -143,7 +171,7 @@ class BaseOrganizer:
         key = ""
         data = None
         contacts = []
-        for (pre, field), val in self.fielddb.getTopItemIter():
+        for pre, field, val in self._fields():
             if pre != key:
                 if data is not None:
                     contacts.append(data)
@@ -170,7 +198,7 @@ class BaseOrganizer:
         """
         pres = []
         prog = re.compile(f".*{val}.*", re.I)
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and prog.match(v):
                 pres.append(pre)
 
@@ -192,7 +220,7 @@ class BaseOrganizer:
 
         """
         pres = []
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and v == val:
                 pres.append(pre)
 
@@ -212,7 +240,7 @@ class BaseOrganizer:
         prog = re.compile(f".*{val}.*", re.I) if val is not None else None
 
         vals = oset()
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and (prog is None or prog.match(v)):
                 vals.add(v)
 
@@ -230,10 +258,11 @@ class BaseOrganizer:
             stream (file): file-like stream of image data
 
         """
-        self.hby.db.remTop(db=self.imgsdb.sdb, top=pre.encode("utf-8"))
+        sdb = self.imgsdb.sdb
+        rems = [(sdb, bytes(key)) for key, _ in
+                self.hby.db.getTopItemIter(db=sdb, top=f"{pre}.".encode("utf-8"))]
 
-        key = f"{pre}.content-type".encode("utf-8")
-        self.hby.db.setVal(db=self.imgsdb.sdb, key=key, val=typ.encode("utf-8"))
+        sets = [(sdb, f"{pre}.content-type".encode("utf-8"), typ.encode("utf-8"))]
 
         idx = 0
         size = 0
@@ -241,13 +270,13 @@ class BaseOrganizer:
             chunk = stream.read(4096)
             if not chunk:
                 break
-            key = f"{pre}.{idx}".encode("utf-8")
-            self.hby.db.setVal(db=self.imgsdb.sdb, key=key, val=chunk)
+            sets.append((sdb, f"{pre}.{idx}".encode("utf-8"), chunk))
             idx += 1
             size += len(chunk)
 
-        key = f"{pre}.content-length".encode("utf-8")
-        self.hby.db.setVal(db=self.imgsdb.sdb, key=key, val=size.to_bytes(4, "big"))
+        sets.append((sdb, f"{pre}.content-length".encode("utf-8"), size.to_bytes(4, "big")))
+
+        self.hby.db.setRemVals(sets=sets, rems=rems)  # all or none
 
     def getImgData(self, pre):
         """ Get image metadata for identifier image if one exists
diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index afa3e0e..bd11752 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -668,6 +668,28 @@ class LMDBer(filing.Filer):
                                " or wrong DUPFIXED size. ref) lmdb.BadValsizeError")
 
 
+    def setRemVals(self, sets=(), rems=()):
+        """Removes and writes (sets) values of several sub dbs in one transaction
+        so that either all or none of these changes are made.
+        Overwrites existing vals if any.
+
+        Parameters:
+            sets (Iterable[tuple]): each (db, key, val) of opened named sub db
+                with dupsort=False, bytes of key, and bytes of val to be written
+            rems (Iterable[tuple]): each (db, key) of opened named sub db
+                with dupsort=False and bytes of key to be removed. Removed before
+                any are written."""
+        with self.env.begin(write=True, buffers=True) as txn:
+            try:
+                for db, key in rems:
+                    txn.delete(key, db=db)
+                for db, key, val in sets:
+                    txn.put(key, val, db=db)
+            except lmdb.BadValsizeError as ex:
+                raise KeyError(f"Key: `{key}` is either empty, too big (for lmdb),"
+                               " or wrong DUPFIXED size. ref) lmdb.BadValsizeError")
+
+
     def setVal(self, db, key, val):
         """
         Write serialized bytes val to location key in db
-- 
2.43.0


From 93f572d06dc299d7899caa44ba4043b123a5e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:08 +0000
Subject: [PATCH 100/122] fix: save and remove a notice with its index and
 signature all or none

A process that ended in between left a notice without valid signature
which made all later reading of notices fail.
---
 src/keri/app/notifying.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/keri/app/notifying.py b/src/keri/app/notifying.py
index 3ec0531..085dfaf 100644
--- a/src/keri/app/notifying.py
+++ b/src/keri/app/notifying.py
@@ -236,9 +236,8 @@ class Noter(LMDBer):
         if self.nidx.get(keys=(rid,)) is not None:
             return False
 
-        self.nidx.pin(keys=(rid,), val=dt.encode())
-        self.ncigs.pin(keys=(rid,), val=cigar)
-        return self.notes.pin(keys=(dt, rid), val=note)
+        self._save(dt, rid, note, cigar)
+        return True
 
     def update(self, note, cigar):
         """
@@ -255,9 +254,8 @@ class Noter(LMDBer):
         if self.nidx.get(keys=(rid,)) is None:
             return False
 
-        self.nidx.pin(keys=(rid,), val=dt.encode())
-        self.ncigs.pin(keys=(rid,), val=cigar)
-        return self.notes.pin(keys=(dt, rid), val=note)
+        self._save(dt, rid, note, cigar)
+        return True
 
     def get(self, rid):
         """
@@ -293,9 +291,23 @@ class Noter(LMDBer):
         note, _ = res
         dt = note.datetime
         rid = note.rid
-        self.nidx.rem(keys=(rid,))
-        self.ncigs.rem(keys=(rid,))
-        return self.notes.rem(keys=(dt, rid))
+        self.setRemVals(rems=[(self.nidx.sdb, self.nidx._tokey((rid,))),
+                              (self.ncigs.sdb, self.ncigs._tokey((rid,))),
+                              (self.notes.sdb, self.notes._tokey((dt, rid)))])
+        return True
+
+    def _save(self, dt, rid, note, cigar):
+        """
+        Saves note with its index and signature, all or none of it
+
+        Parameters:
+            dt (str): datetime of note
+            rid (str): qb64 random ID of note
+            note (Notice): sad message content
+            cigar (Cigar): non-transferable signature over note"""
+        self.setRemVals(sets=[(self.nidx.sdb, self.nidx._tokey((rid,)), self.nidx._ser(dt)),
+                              (self.ncigs.sdb, self.ncigs._tokey((rid,)), self.ncigs._ser(cigar)),
+                              (self.notes.sdb, self.notes._tokey((dt, rid)), note.raw)])
 
     def getNoteCnt(self):
         """
-- 
2.43.0


From fb95d51c5ac962908eeb7064434735d57c3482e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:08 +0000
Subject: [PATCH 101/122] fix: store mailbox message before its index entry

A process that ended in between left an index entry without message that
a reader skipped and that was filled later. appendToTopic also used a
wrong argument name.
---
 src/keri/app/storing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..c807d0a 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -75,7 +75,7 @@ class Mailboxer(LMDBer):
         Parameters:
             topic (bytes):  topic identifier for message
             val (bytes): msg digest"""
-        return self.tpcs.append(key=topic, val=val)
+        return self.tpcs.append(keys=topic, val=val)
 
 
     def getTopicMsgs(self, topic, fn=0):
@@ -114,8 +114,9 @@ class Mailboxer(LMDBer):
             msg = msg.encode("utf-8")
 
         digb = Diger(ser=msg, code=MtrDex.Blake3_256).qb64b
-        on = self.tpcs.append(keys=topic, val=digb)
-        return self.msgs.pin(keys=digb, val=msg)
+        result = self.msgs.pin(keys=digb, val=msg)  # before index so never indexed without
+        self.tpcs.append(keys=topic, val=digb)
+        return result
 
 
     def cloneTopicIter(self, topic, fn=0):
-- 
2.43.0


From eaa8ceffd05ffe033af17eb48476cb2713469527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 102/122] fix: let each escrowed receipt wait from its own
 arrival

---
 src/keri/core/eventing.py | 26 ++++++++++++++++++--------
 src/keri/db/basing.py     | 12 ++++++++++--
 src/keri/db/dbing.py      |  2 +-
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index a5fc92e..602cd01 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5988,11 +5988,11 @@ class Kevery:
         # so can compare digs from receipt and in database for receipted event
         # with different algos.  Can't lookup event by dig for same reason. Must
         # lookup last event by sn not by dig.
-        self.db.dtss.put(keys=dgKey(serder.preb, said), val=Dater())
         for wiger in wigers:  # escrow each couple
             # don't know witness pre yet without witness list so no verfer in wiger
             # if wiger.verfer.transferable:  # skip transferable verfers
             # continue  # skip invalid triplets
+            self.db.rtss.pin(keys=(said, wiger.qb64), val=Dater())
             self.db.uwes.add(keys=serder.preb, on=serder.sn, val=(said, wiger.qb64))
 
         # log escrowed
@@ -6019,7 +6019,6 @@ class Kevery:
         # so can compare digs from receipt and in database for receipted event
         # with different algos.  Can't lookup event by dig for same reason. Must
         # lookup last event by sn not by dig.
-        self.db.dtss.put(keys=dgKey(serder.preb, said), val=Dater())
         for cigar in cigars:  # escrow each triple
             if cigar.verfer.transferable:  # skip transferable verfers
                 continue  # skip invalid triplets
@@ -6028,6 +6027,7 @@ class Kevery:
                 Prefixer(qb64=cigar.verfer.qb64),
                 cigar
             )
+            self.db.rtss.pin(keys=tuple(p.qb64 for p in trituple), val=Dater())
             self.db.ures.add(keys=(serder.pre, Number(num=serder.sn, code=NumDex.Huge).qb64), val=trituple)
         # log escrowed
         logger.debug("Kevery process: escrowed unverified receipt of pre= %s "
@@ -6065,7 +6065,6 @@ class Kevery:
         # ToDo XXXX Is this approach still valid or do SAIDs now make it obsolete?
         for tsg in tsgs:
             prefixer, number, saider, sigers = tsg
-            self.db.dtss.put(keys=dgKey(serder.preb, serder.saidb), val=Dater())
             # since serder of of receipt not receipted event must use dig in
             # serder.ked["d"] not serder.dig
             for siger in sigers:  # escrow each quintlet
@@ -6076,6 +6075,7 @@ class Kevery:
                     Diger(qb64=saider.qb64),
                     siger,
                 )
+                self.db.rtss.pin(keys=tuple(p.qb64 for p in quintuple), val=Dater())
                 self.db.vres.add(keys=snKey(serder.preb, serder.sn), val=quintuple)
             # log escrowed
             logger.debug("Kevery process: escrowed unverified transferable receipt "
@@ -6114,7 +6114,6 @@ class Kevery:
         #ToDo XXXX Is this approach obsolete now that we have SAIDs? Do we have to compare
         # digests for same algo, or do we always refer to the event SAID?
 
-        self.db.dtss.put(keys=dgKey(serder.preb, serder.saidb), val=Dater())
         # since serder of of receipt not receipted event must use dig in
         # serder.ked["d"] not serder.dig
 
@@ -6126,6 +6125,7 @@ class Kevery:
                 Diger(qb64=saider.qb64),
                 siger,
             )
+            self.db.rtss.pin(keys=tuple(p.qb64 for p in quintuple), val=Dater())
             self.db.vres.add(keys=snKey(serder.preb, serder.sn), val=quintuple)
         # log escrowed
         logger.debug("Kevery process: escrowed unverified transferable receipt "
@@ -6158,7 +6158,6 @@ class Kevery:
         # ToDo XXXX Is this approach obsolete now that we have SAIDs? Do we have to compare
         # digests for same algo, or do we always refer to the event SAID?
 
-        self.db.dtss.put(keys=dgKey(serder.preb, serder.said), val=Dater())
         for siger in sigers:
             quintuple = (
                 Diger(qb64=serder.said),     # event digest
@@ -6167,6 +6166,7 @@ class Kevery:
                 Diger(qb64=diger.qb64), # est event said of receiptro key state
                 siger,                  # signature of receiptor using est event key state
             )
+            self.db.rtss.pin(keys=tuple(p.qb64 for p in quintuple), val=Dater())
             self.db.vres.add(keys=snKey(serder.preb, serder.sn), val=quintuple)
             # log escrowed
             logger.debug("Kevery process: escrowed unverified transferabe validator "
@@ -6828,10 +6828,11 @@ class Kevery:
                         If successful then remove from escrow table"""
         #for (pre, snh), (rdiger, wiger) in self.db.uwes.getTopItemIter():
         for (pre, ), sn, (rdig, wig) in self.db.uwes.getTopItemIter():
+            rkeys = (rdig, wig)  # of datetime of receipt
             try:
                 #rdigerBytes = rdig.encode('utf-8')
                 # check date if expired then remove escrow.
-                dater = self.db.dtss.get(keys=dgKey(pre, rdig))
+                dater = self.db.rtss.get(keys=rkeys) or self.db.dtss.get(keys=dgKey(pre, rdig))
                 if dater is None:  # no datetime stored
                     # no date time so raise ValidationError which unescrows below
                     msg = f"UWE Missing escrowed event datetime at dig = {rdig}"
@@ -6889,6 +6890,7 @@ class Kevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
+                self.db.rtss.rem(keys=rkeys)
                 self.db.uwes.rem(keys=(pre,), on=sn, val=(rdig, wig))
                 if logger.isEnabledFor(logging.DEBUG):  # adds exception data
                     logger.trace("Kevery: UWE other unescrow error: %s\n", ex.args[0])
@@ -6898,6 +6900,7 @@ class Kevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
+                self.db.rtss.rem(keys=rkeys)
                 self.db.uwes.rem(keys=(pre,), on=sn, val=(rdig, wig))
                 logger.info("Kevery UWE unescrow succeeded for event pre=%s sn=%s", pre, sn)
 
@@ -6949,11 +6952,13 @@ class Kevery:
 
         for (pre, sn), (rsaider, sprefixer, cigar) in self.db.ures.getTopItemIter():
             sn = Seqner(qb64=sn).sn
+            # of datetime of receipt
+            rkeys = (rsaider.qb64, sprefixer.qb64, cigar.qb64)
             try:
                 cigar.verfer = Verfer(qb64b=sprefixer.qb64b)
 
                 # check date if expired then remove escrow.
-                dater = self.db.dtss.get(keys=dgKey(pre, bytes(rsaider.qb64b)))
+                dater = self.db.rtss.get(keys=rkeys) or self.db.dtss.get(keys=dgKey(pre, bytes(rsaider.qb64b)))
                 if dater is None:  # no datetime stored
                     # no date time so raise ValidationError which unescrows below
                     msg = f"URE Missing escrowed event datetime at dig = {rsaider.qb64b}"
@@ -7031,6 +7036,7 @@ class Kevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
+                self.db.rtss.rem(keys=rkeys)
                 self.db.ures.rem(keys=(pre, Number(num=sn, code=NumDex.Huge).qb64), val=(rsaider, sprefixer, cigar))  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):  # adds exception data
                     logger.exception("Kevery URE unescrowed: %s", ex.args[0])
@@ -7041,6 +7047,7 @@ class Kevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
+                self.db.rtss.rem(keys=rkeys)
                 self.db.ures.rem(keys=(pre, Number(num=sn, code=NumDex.Huge).qb64), val=(rsaider, sprefixer, cigar))  # removes one escrow at key val
                 logger.info("Kevery URE unescrow succeeded for event pre=%s "
                             "sn=%s", pre, sn)
@@ -7405,13 +7412,14 @@ class Kevery:
         key = ekey = b''  # both start same. when not same means escrows found
         while True:  # break when done
             for ekey, equinlet in self.db.vres.getTopItemIter(keys=key):
+                rkeys = tuple(p.qb64 for p in equinlet)  # of datetime of receipt
                 try:
                     pre, sn_hex = ekey      # ekey is a tuple (pre, sn)
                     sn = int(sn_hex, 16)
                     esaider, sprefixer, snumber, ssaider, siger = equinlet
 
                     # check date if expired then remove escrow.
-                    dater = self.db.dtss.get(keys=dgKey(pre, bytes(esaider.qb64b)))
+                    dater = self.db.rtss.get(keys=rkeys) or self.db.dtss.get(keys=dgKey(pre, bytes(esaider.qb64b)))
                     if dater is None:  # no datetime stored
                         # no date time so raise ValidationError which unescrows below
                         msg = f"VRE Missing escrowed event datetime at dig = {esaider.qb64b}"
@@ -7504,6 +7512,7 @@ class Kevery:
 
                 except Exception as ex:  # log diagnostics errors etc
                     # error other than out of order so remove from OO escrow
+                    self.db.rtss.rem(keys=rkeys)
                     self.db.vres.rem(keys=snKey(pre, sn), val=equinlet)  # removes one escrow at key val
                     if logger.isEnabledFor(logging.DEBUG):  # adds exception data
                         logger.debug("Kevery: VRE other error on unescrow: %s\n", ex.args[0])
@@ -7513,6 +7522,7 @@ class Kevery:
                     # We don't remove all escrows at pre,sn because some might be
                     # duplicitous so we process remaining escrows in spite of found
                     # valid event escrow.
+                    self.db.rtss.rem(keys=rkeys)
                     self.db.vres.rem(keys=snKey(pre, sn), val=equinlet)  # removes one escrow at key val
                     logger.info("Kevery VRE unescrow succeeded for event = %s", serder.said)
                     logger.debug("Event=\n%s\n", serder.pretty())
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index cc4d994..1583965 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -280,6 +280,13 @@ class Baser(LMDBer):
             snKey (prefix + sequence number)
             Values stored in insertion order.
 
+        .rtss is named subDB instance of CesrSuber for the datetimes when the
+            receipts in .uwes, .ures and .vres were escrowed. Maps the said of
+            the receipted event and what else identifies the escrowed receipt
+            to Dater.
+            subkey 'rtss.'
+            Only one value per DB key is allowed.
+
         .pses is named subDB instance of OnIoDupSuber for partially-signed
             event escrows under composite keys "<pre><sep><on>". Tracks events
             with at least one verified signature but not yet fully validated
@@ -950,6 +957,7 @@ class Baser(LMDBer):
                                    coring.Number,
                                    coring.Diger,
                                    indexing.Siger))
+        self.rtss = subing.CesrSuber(db=self, subkey='rtss.', klas=coring.Dater)
         self.pses = subing.OnIoDupSuber(db=self, subkey='pses.')
         self.pwes = subing.OnIoDupSuber(db=self, subkey='pwes.')
         self.pdes = subing.OnIoDupSuber(db=self, subkey='pdes.')
@@ -1433,7 +1441,7 @@ class Baser(LMDBer):
         """
         escrows = [
             self.ures, self.vres, self.pses, self.pwes, self.ooes,
-            self.qnfs, self.uwes, self.misfits, self.delegables,
+            self.qnfs, self.uwes, self.rtss, self.misfits, self.delegables,
             self.pdes, self.udes, self.rpes, self.ldes, self.epsd,
             self.eoobi, self.dpub, self.gpwe, self.gdee, self.dpwe,
             self.gpse, self.epse, self.dune,
@@ -1452,7 +1460,7 @@ class Baser(LMDBer):
         Clear all escrows
         """
         for escrow in [self.ures, self.vres, self.pses, self.pwes, self.ooes,
-                       self.qnfs, self.uwes,
+                       self.qnfs, self.uwes, self.rtss,
                        self.qnfs, self.misfits, self.delegables, self.pdes,
                        self.udes, self.rpes, self.ldes, self.epsd, self.eoobi,
                        self.dpub, self.gpwe, self.gdee, self.dpwe, self.gpse,
diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index bd11752..fb1b75f 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -367,7 +367,7 @@ class LMDBer(filing.Filer):
     TempPrefix = "keri_lmdb_"
     TempSuffix = "_test"
     Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR  # 0o1700==960
-    MaxNamedDBs = 100
+    MaxNamedDBs = 128
     MapSize = 104857600
 
     def __init__(self, readonly=False, **kwa):
-- 
2.43.0


From 75b1dcb12371b7c916d9f8ab057bde0c86a29d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:28 +0000
Subject: [PATCH 103/122] fix: accept pointer to approval in delegator's
 inception

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 602cd01..16fb724 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3359,7 +3359,7 @@ class Kever:
 
         if delsner and delsger and not dserder:  # given couple not found
             # Get delegating event from delnum and delpre
-            ssn = delsner.validate(inceptive=False).sn
+            ssn = delsner.validate().sn
             # get the dig of the delegating event. Using getKeLast ensures delegating
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
-- 
2.43.0


From 972d807fcd52dc815c0d2d8028a8b75040beb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 104/122] fix: answer queries signed with nontransferable key,
 also after waiting

---
 src/keri/core/eventing.py | 21 ++++++++++-----------
 src/keri/core/parsing.py  |  2 +-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 16fb724..57df971 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5688,9 +5688,8 @@ class Kevery:
         # src, dt, route
 
         if source is None and cigars:
-            dest = cigars[0].verfer.qb64
-        else:
-            dest = source.qb64
+            source = Prefixer(qb64=cigars[0].verfer.qb64)
+        dest = source.qb64
 
         if route == "logs":
             pre = qry["i"]
@@ -7212,14 +7211,6 @@ class Kevery:
 
                     #  get sigs and attach
                     sigers = self.db.sigs.get(keys=(pre, edig))
-                    if not sigers:  # otherwise its a list of sigs
-                        # no sigs so raise ValidationError which unescrows below
-                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
-                        logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
-
-                    # process event
-                    sigers = self.db.sigs.get(keys=(pre, edig))
 
                     # ToDo XXXX get trans endorsements
                     # getVrcs
@@ -7227,8 +7218,16 @@ class Kevery:
                     #  get nontrans endorsements
                     cigars = []
                     for prefixer, cigar in self.db.rcts.getIter(keys=(pre.encode("utf-8"), edig.encode("utf-8"))):
+                        cigar.verfer = Verfer(qb64=prefixer.qb64)
                         cigars.append(cigar)
 
+                    if not sigers and not cigars:
+                        # no sigs so raise ValidationError which unescrows below
+                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    # process event
                     source = Prefixer(qb64b=pre)
                     self.processQuery(serder=eserder, source=source, sigers=sigers, cigars=cigars)
 
diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 440422f..6fcf270 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1470,7 +1470,7 @@ class Parser:
                 else:
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
-                if not (exts['source'] or exts['cigars']):  # need one or the other
+                if not (exts.get('source') or exts['cigars']):  # need one or the other
                     raise ValidationError(f"Missing attached requester "
                                                  f"source for query"
                                                  f" msg = {serder.pretty()}.")
-- 
2.43.0


From f53136b63dfb4c4b7d5a13684ca9ba0e0ddf2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 105/122] fix: send out replays and prepared replies from cues
 of queries

---
 src/keri/app/habbing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 09283b2..7d663c1 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2750,13 +2750,17 @@ class BaseHab:
 
             elif cueKin in ("replay",):
                 msgs = cue["msgs"]
+                if isinstance(msgs, (list, tuple)):  # one message for each event replayed
+                    msgs = bytearray().join(msgs)
                 yield msgs
 
             elif cueKin in ("reply",):
-                data = cue["data"]
-                route = cue["route"]
-                msg = self.reply(data=data, route=route,
-                                 gvrsn=gvrsn, version=version, kind=kind)
+                if (cuedSerder := cue.get("serder")) is not None:  # complete but for signatures
+                    msg = self.endorse(cuedSerder, framed=False,
+                                       gvrsn=cuedSerder.pvrsn)
+                else:
+                    msg = self.reply(data=cue["data"], route=cue["route"],
+                                     gvrsn=gvrsn, version=version, kind=kind)
                 yield msg
 
             elif cueKin in ("witness",):  # cue to witness a received event, own pre must be a witness
-- 
2.43.0


From ce1b26be3a5d5de6a6a7a622d23be563ed058547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:30 +0000
Subject: [PATCH 106/122] fix: keep both bounds of time in registry query

---
 src/keri/vdr/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index ebeac44..93cc857 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -620,10 +620,10 @@ def query(regk,
         qry["dt"] = dt
 
     if dta is not None:
-        qry["dta"] = dt
+        qry["dta"] = dta
 
     if dtb is not None:
-        qry["dtb"] = dt
+        qry["dtb"] = dtb
 
     return queryCore(route=route,
                           pre=pre,
-- 
2.43.0


From 85031c9fce8c35cc80f659e2382a3aadf252d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:30 +0000
Subject: [PATCH 107/122] fix: reject credential state notice older than own
 copy of its log

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 93cc857..1288a11 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1932,7 +1932,7 @@ class Tevery:
         # assumes db ensures that sraw must not be none because sdig was in KE
         sserder = SerderKERI(raw=sraw.encode("utf-8"))
 
-        if sn < sserder.sn:
+        if sn < tever.vcSn(vci):
             raise ValidationError("Stale txn state at sn = {} with db."
                                   "".format(vsr.s))
 
-- 
2.43.0


From 2ee7c19bb0624dcf6c0eff99e2845e7a3052f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:30 +0000
Subject: [PATCH 108/122] fix: answer registry queries with complete replies
 and without a credential

---
 src/keri/vdr/eventing.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 1288a11..fe7141a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -24,7 +24,7 @@ from ..kering import (Kinds, Ilks, versify,
 
 from ..core import (Salter, SealEvent, SealSource,
                     TraitDex, MtrDex, ample, verifySigs,
-                    query as queryCore, messagize as coreMessagize)
+                    query as queryCore, reply as replyCore, messagize as coreMessagize)
 
 from ..db import (Baser, Broker, Komer, LMDBer,
                   Suber, OnSuber, CatCesrSuber, IoDupSuber,
@@ -1619,35 +1619,38 @@ class Tevery:
         # src, dt, route
         if source is None and cigars:
             source = cigars[0].verfer
-
+        dest = source.qb64
 
         if route == "tels":
             mgmt = qry["ri"]
             src = qry["src"]
 
-            cloner = self.reger.clonePreIter(pre=mgmt, fn=0)  # create iterator at 0
+            cloner = self.reger.clonePreIter(pre=mgmt, fn=0, gvrsn=serder.pvrsn)  # create iterator at 0
             msgs = list()  # outgoing messages
             for msg in cloner:
                 msgs.append(msg)
 
-            if vci := qry["i"]:
-                cloner = self.reger.clonePreIter(pre=vci, fn=0)  # create iterator at 0
+            if vci := qry.get("i"):
+                cloner = self.reger.clonePreIter(pre=vci, fn=0, gvrsn=serder.pvrsn)  # create iterator at 0
                 for msg in cloner:
                     msgs.append(msg)
 
             if msgs:
-                self.cues.append(dict(kin="replay", src=src, dest=source.qb64, msgs=msgs))
+                self.cues.append(dict(kin="replay", src=src, dest=dest, msgs=msgs))
 
         elif route == "tsn":
             ri = qry["ri"]
+            src = qry["src"]
             if ri in self.tevers:
                 tever = self.tevers[ri]
-                tsn = tever.state()
-                self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
-
-                if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
-                    self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
+                notices = [("/tsn/registry", tever.state())]
+                if (vci := qry.get("i")) and (vsr := tever.vcState(vci)) is not None:
+                    notices.append(("/tsn/credential", vsr))
+
+                for path, tsn in notices:
+                    rserder = replyCore(route=f"{path}/{src}", data=asdict(tsn), pre=src,
+                                    version=serder.pvrsn, kind=serder.kind)
+                    self.cues.push(dict(kin="reply", src=src, route=path, serder=rserder, dest=dest))
 
         else:
             raise ValidationError("invalid query message {} for evt = {}".format(ilk, ked))
-- 
2.43.0


From 846419895ae50f152822ec6c8eb69c6bc4139335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 109/122] fix: check that a multisig envelope's digest commits
 to what it embeds

---
 src/keri/app/grouping.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index dcc5169..0a91777 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -9,7 +9,7 @@ module for enveloping and forwarding KERI message
 from hio.base import doing
 from hio.help import ogler
 
-from ..kering import ValidationError, Version, Versionage, Vrsn_1_0, Vrsn_2_0, Kinds, Ilks
+from ..kering import KeriError, ValidationError, Version, Versionage, Vrsn_1_0, Vrsn_2_0, Kinds, Ilks
 from ..core import (Number, Diger, Saider,
                     Prefixer, Kevery, Router,
                     Revery, Parser, SerderKERI,
@@ -277,7 +277,7 @@ class MultisigNotificationHandler:
         """Validate a multisig EXN before the exchanger saves it."""
         try:
             return self.mux.validate(serder=serder, nests=nests) is not None
-        except (ValidationError, ValueError, KeyError, TypeError, AttributeError):
+        except (KeriError, ValueError, KeyError, TypeError, AttributeError):
             return False
 
     def handle(self, serder, attachments=None, nests=None):
@@ -893,6 +893,10 @@ class Multiplexor:
             if embed is None or "d" not in embed:
                 return
 
+            # Approvals are counted by the digest of the embeds so it must be theirs
+            if not Saider(qb64=embed["d"]).verify(sad=embed, prefixed=True):
+                raise ValidationError(f"invalid multisig embeds digest={embed['d']} for route {route}")
+
             # Preserve the legacy V1 aggregation key for both single- and multi-child wrappers
             esaid = embed["d"]
         else:
-- 
2.43.0


From 861e9664ca88b2eeb34131d3c97aeb6845843d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:30 +0000
Subject: [PATCH 110/122] fix: keep a group whose inception still lacks
 signatures known as own after a restart

---
 src/keri/db/basing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 1583965..d5492f5 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1370,6 +1370,10 @@ class Baser(LMDBer):
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
                 removes.append((keys, data))  # no key state or KEL event for .hab record
 
+            else:  # group whose inception is not yet fully signed
+                self.prefixes.add(data.hid)
+                self.groups.add(data.hid)
+
         for keys, data in removes:  # remove bare .habs records and their names
             self.habs.rem(keys=keys)
             name = ("" if data.domain is None else data.domain, data.name)
-- 
2.43.0


From 1aa19ef993d2ac39ac53918839f33b27c73abdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:42 +0000
Subject: [PATCH 111/122] fix: keep an OOBI response from moving the alias of
 the AID its URL names to another AID

---
 src/keri/app/oobiing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index a93578a..02dc5e3 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -517,7 +517,10 @@ class Oobiery:
                     "application/cesr+json",
                 ):  # CESR Stream response to OOBI (canonical + legacy variants)
                     self.parser.parse(ims=bytearray(response["body"]))
-                    if OOBI_AID_HEADER in response["headers"]:
+                    purl = urlparse(url)
+                    if (OOBI_AID_HEADER in response["headers"] and
+                            OOBI_RE.match(purl.path) is None and WOOBI_RE.match(purl.path) is None):
+                        # only an OOBI that does not name its AID itself has it named by the response
                         obr.cid = response["headers"][OOBI_AID_HEADER]
 
                     if obr.oobialias is not None and obr.cid:
-- 
2.43.0


From 43b10a301db01f21855d58b32838f285c6800fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:42 +0000
Subject: [PATCH 112/122] fix: settle a multi OOBI as failed when its response
 is about another AID

---
 src/keri/app/oobiing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 02dc5e3..5dc9685 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -637,7 +637,10 @@ class Oobiery:
         cid = data["aid"]
 
         if cid != mobr.cid:
-            return Result.failed
+            mobr.state = Result.failed
+            self.hby.db.coobi.rem(keys=(url,))
+            self.hby.db.roobi.put(keys=(url,), val=mobr)
+            return
 
         urls = data["urls"]
         mobr.urls = urls
-- 
2.43.0


From fb610b4f2e38ea52c8c68eb45756f28b1f85848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:42 +0000
Subject: [PATCH 113/122] fix: take every 2xx and 3xx well-known response, and
 no other, as authentication

---
 src/keri/app/oobiing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 5dc9685..38e28ec 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -732,7 +732,7 @@ class Authenticator:
             if client.responses:
                 response = client.responses.popleft()
 
-                if 200 >= response["status"] <= 399:
+                if 200 <= response["status"] <= 399:
                     print(wurl, "succeeded")
                     self.addAuthToAid(obr.cid, wurl)
                     state = Result.resolved
-- 
2.43.0


From bd158ee6def5565881b988707d7c15c40928ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:42 +0000
Subject: [PATCH 114/122] fix: record the latest outcome of an OOBI that is
 resolved again

---
 src/keri/app/oobiing.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 38e28ec..840494c 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -509,7 +509,7 @@ class Oobiery:
                     print("invalid status for oobi response: {}".format(response["status"]))
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"] in (
                     CESR_CONTENT_TYPE,
@@ -528,7 +528,7 @@ class Oobiery:
 
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.resolved
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"] == "application/schema+json":  # Schema response to data OOBI
                     try:
@@ -544,7 +544,7 @@ class Oobiery:
 
                     obr.state = result
                     self.hby.db.coobi.rem(keys=(url,))
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 elif response["headers"]["Content-Type"].startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
@@ -558,7 +558,7 @@ class Oobiery:
 
                         obr.state = result
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
 
                     except (ValidationError, ValueError):
@@ -569,12 +569,12 @@ class Oobiery:
                     except ValueError:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
                     if not serder.ked['t'] == Ilks.rpy:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                     elif serder.ked['r'] in ('/oobi/witness', '/oobi/controller'):
                         self.processMultiOobiRpy(url, serder, obr)
@@ -582,12 +582,12 @@ class Oobiery:
                     else:
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
-                        self.hby.db.roobi.put(keys=(url,), val=obr)
+                        self.hby.db.roobi.pin(keys=(url,), val=obr)
 
                 else:
                     self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
-                    self.hby.db.roobi.put(keys=(url,), val=obr)
+                    self.hby.db.roobi.pin(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
                                  .format(response["headers"]["Content-Type"]))
 
@@ -609,7 +609,7 @@ class Oobiery:
             if complete:
                 obr.state = result
                 self.hby.db.coobi.rem(keys=(url,))
-                self.hby.db.roobi.put(keys=(url,), val=obr)
+                self.hby.db.roobi.pin(keys=(url,), val=obr)
 
     def processRetries(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
@@ -639,7 +639,7 @@ class Oobiery:
         if cid != mobr.cid:
             mobr.state = Result.failed
             self.hby.db.coobi.rem(keys=(url,))
-            self.hby.db.roobi.put(keys=(url,), val=mobr)
+            self.hby.db.roobi.pin(keys=(url,), val=mobr)
             return
 
         urls = data["urls"]
-- 
2.43.0


From 1b31614f5dbf7ac15adfabcbf5207c1471d17ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:42 +0000
Subject: [PATCH 115/122] fix: keep resolving OOBIs when one is answered with a
 malformed response

---
 src/keri/app/oobiing.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 840494c..83feaa7 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -298,6 +298,7 @@ class Oobiery:
     """ Resolver for OOBIs"""
 
     RetryDelay = 30
+    MaxUrlSize = 511  # of a URL as database key
 
     def __init__(self, hby, rvy=None, clienter=None, cues=None, version=None):
         """  DoDoer to handle the request and parsing of OOBIs
@@ -498,6 +499,7 @@ class Oobiery:
             if client.responses:
                 response = client.responses.popleft()
                 self.clienter.remove(client)
+                ctype = response["headers"].get("Content-Type", "")
 
                 if response["status"] == 404:
                     print(f"{url} not found")
@@ -511,7 +513,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] in (
+                elif ctype in (
                     CESR_CONTENT_TYPE,
                     "application/json+cesr",
                     "application/cesr+json",
@@ -530,7 +532,7 @@ class Oobiery:
                     obr.state = Result.resolved
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"] == "application/schema+json":  # Schema response to data OOBI
+                elif ctype == "application/schema+json":  # Schema response to data OOBI
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
                         if schemer.said == obr.said:
@@ -539,14 +541,14 @@ class Oobiery:
                         else:
                             result = Result.failed
 
-                    except (ValidationError, ValueError):
+                    except Exception:  # whatever is wrong with what was sent
                         result = Result.failed
 
                     obr.state = result
                     self.hby.db.coobi.rem(keys=(url,))
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
 
-                elif response["headers"]["Content-Type"].startswith("application/json"):  # Unsigned rpy OOBI or Schema
+                elif ctype.startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
                     try:
                         schemer = Schemer(raw=bytearray(response["body"]))
@@ -561,12 +563,12 @@ class Oobiery:
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
                         continue
 
-                    except (ValidationError, ValueError):
+                    except Exception:  # not a schema
                         pass
 
                     try:
                         serder = SerderKERI(raw=bytearray(response["body"]))
-                    except ValueError:
+                    except Exception:  # whatever is wrong with what was sent
                         obr.state = Result.failed
                         self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
@@ -589,7 +591,7 @@ class Oobiery:
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
                     logger.error("invalid content type for oobi response: {}"
-                                 .format(response["headers"]["Content-Type"]))
+                                 .format(ctype))
 
                 self.cues.append(dict(kin=obr.state, oobi=url))
 
@@ -634,15 +636,16 @@ class Oobiery:
 
     def processMultiOobiRpy(self, url, serder, mobr):
         data = serder.ked["a"]
-        cid = data["aid"]
+        cid = data.get("aid")
+        urls = data.get("urls")
 
-        if cid != mobr.cid:
+        if (not cid or cid != mobr.cid or not isinstance(urls, list) or
+                not all(isinstance(murl, str) and 0 < len(murl.encode()) <= self.MaxUrlSize for murl in urls)):
             mobr.state = Result.failed
             self.hby.db.coobi.rem(keys=(url,))
             self.hby.db.roobi.pin(keys=(url,), val=mobr)
             return
 
-        urls = data["urls"]
         mobr.urls = urls
 
         for murl in urls:
-- 
2.43.0


From 83a630cb42224561593df6b6d1004047798176be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:42 +0000
Subject: [PATCH 116/122] fix: let the latest response to a multi OOBI alone
 determine its outcome

---
 src/keri/app/oobiing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 83feaa7..cf9b39a 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -610,8 +610,8 @@ class Oobiery:
 
             if complete:
                 obr.state = result
-                self.hby.db.coobi.rem(keys=(url,))
                 self.hby.db.roobi.pin(keys=(url,), val=obr)
+                self.hby.db.moobi.rem(keys=(url,))
 
     def processRetries(self):
         """ Process Client responses by parsing the messages and removing the client/doer"""
@@ -631,6 +631,7 @@ class Oobiery:
             return
 
         self.clients[url] = client
+        self.hby.db.moobi.rem(keys=(url,))  # new response supersedes URLs of an earlier one
         self.hby.db.oobis.rem(keys=(url,))
         self.hby.db.coobi.pin(keys=(url,), val=obr)
 
-- 
2.43.0


From d4835051fe95bb3c41e0b20da6e6496196ea7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:59 +0000
Subject: [PATCH 117/122] fix: lose no OOBI when the process ends while moving
 it between tables

---
 src/keri/app/oobiing.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index cf9b39a..3cb6a91 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -503,15 +503,15 @@ class Oobiery:
 
                 if response["status"] == 404:
                     print(f"{url} not found")
-                    self.hby.db.coobi.rem(keys=(url,))
                     self.hby.db.eoobi.pin(keys=(url,), val=obr)
+                    self.hby.db.coobi.rem(keys=(url,))
                     continue
 
                 elif not response["status"] == 200:
                     print("invalid status for oobi response: {}".format(response["status"]))
-                    self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
+                    self.hby.db.coobi.rem(keys=(url,))
 
                 elif ctype in (
                     CESR_CONTENT_TYPE,
@@ -528,9 +528,9 @@ class Oobiery:
                     if obr.oobialias is not None and obr.cid:
                         self.org.update(pre=obr.cid, data=dict(alias=obr.oobialias, oobi=url))
 
-                    self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.resolved
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
+                    self.hby.db.coobi.rem(keys=(url,))
 
                 elif ctype == "application/schema+json":  # Schema response to data OOBI
                     try:
@@ -545,8 +545,8 @@ class Oobiery:
                         result = Result.failed
 
                     obr.state = result
-                    self.hby.db.coobi.rem(keys=(url,))
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
+                    self.hby.db.coobi.rem(keys=(url,))
 
                 elif ctype.startswith("application/json"):  # Unsigned rpy OOBI or Schema
 
@@ -559,8 +559,8 @@ class Oobiery:
                             result = Result.failed
 
                         obr.state = result
-                        self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
+                        self.hby.db.coobi.rem(keys=(url,))
                         continue
 
                     except Exception:  # not a schema
@@ -570,26 +570,26 @@ class Oobiery:
                         serder = SerderKERI(raw=bytearray(response["body"]))
                     except Exception:  # whatever is wrong with what was sent
                         obr.state = Result.failed
-                        self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
+                        self.hby.db.coobi.rem(keys=(url,))
                         continue
                     if not serder.ked['t'] == Ilks.rpy:
                         obr.state = Result.failed
-                        self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
+                        self.hby.db.coobi.rem(keys=(url,))
 
                     elif serder.ked['r'] in ('/oobi/witness', '/oobi/controller'):
                         self.processMultiOobiRpy(url, serder, obr)
 
                     else:
                         obr.state = Result.failed
-                        self.hby.db.coobi.rem(keys=(url,))
                         self.hby.db.roobi.pin(keys=(url,), val=obr)
+                        self.hby.db.coobi.rem(keys=(url,))
 
                 else:
-                    self.hby.db.coobi.rem(keys=(url,))
                     obr.state = Result.failed
                     self.hby.db.roobi.pin(keys=(url,), val=obr)
+                    self.hby.db.coobi.rem(keys=(url,))
                     logger.error("invalid content type for oobi response: {}"
                                  .format(ctype))
 
@@ -620,8 +620,8 @@ class Oobiery:
             now = nowUTC()
             if (now - last) > datetime.timedelta(seconds=self.RetryDelay):
                 obr.date = toIso8601(now)
-                self.hby.db.eoobi.rem(keys=(url,))
                 self.hby.db.oobis.pin(keys=(url,), val=obr)
+                self.hby.db.eoobi.rem(keys=(url,))
 
     def request(self, url, obr):
         client = self.clienter.request("GET", url=url)
@@ -632,8 +632,8 @@ class Oobiery:
 
         self.clients[url] = client
         self.hby.db.moobi.rem(keys=(url,))  # new response supersedes URLs of an earlier one
-        self.hby.db.oobis.rem(keys=(url,))
         self.hby.db.coobi.pin(keys=(url,), val=obr)
+        self.hby.db.oobis.rem(keys=(url,))
 
     def processMultiOobiRpy(self, url, serder, mobr):
         data = serder.ked["a"]
@@ -643,8 +643,8 @@ class Oobiery:
         if (not cid or cid != mobr.cid or not isinstance(urls, list) or
                 not all(isinstance(murl, str) and 0 < len(murl.encode()) <= self.MaxUrlSize for murl in urls)):
             mobr.state = Result.failed
-            self.hby.db.coobi.rem(keys=(url,))
             self.hby.db.roobi.pin(keys=(url,), val=mobr)
+            self.hby.db.coobi.rem(keys=(url,))
             return
 
         mobr.urls = urls
@@ -655,8 +655,8 @@ class Oobiery:
             obr.cid = mobr.cid
             self.hby.db.oobis.put(keys=(murl,), val=obr)
 
+        self.hby.db.moobi.pin(keys=(url,), val=mobr)
         self.hby.db.coobi.rem(keys=(url,))
-        self.hby.db.moobi.put(keys=(url,), val=mobr)
 
 
 class Authenticator:
-- 
2.43.0


From 45cd4db7d44846912e5775e8411e2bd4554db000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:08 +0000
Subject: [PATCH 118/122] fix: drop the scheduled retry of an OOBI that is
 requested anew

---
 src/keri/app/oobiing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/app/oobiing.py b/src/keri/app/oobiing.py
index 3cb6a91..c552d8c 100644
--- a/src/keri/app/oobiing.py
+++ b/src/keri/app/oobiing.py
@@ -632,6 +632,7 @@ class Oobiery:
 
         self.clients[url] = client
         self.hby.db.moobi.rem(keys=(url,))  # new response supersedes URLs of an earlier one
+        self.hby.db.eoobi.rem(keys=(url,))  # and any retry left over from an earlier one
         self.hby.db.coobi.pin(keys=(url,), val=obr)
         self.hby.db.oobis.rem(keys=(url,))
 
-- 
2.43.0


From 458901055891023d3a055b5ebc442076a16f9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:21 +0000
Subject: [PATCH 119/122] fix: take reports of watchers at different events as
 duplicity only where they contradict each other

---
 src/keri/app/watching.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index 978b6b6..f73171a 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -125,8 +125,13 @@ class Adjudicator:
             # Only group habs can be behind their watchers
             # First check for duplicity among the watchers that are ahead (possible only if toad is below
             # super majority)
-            digs = set([state.dig for state in ahds])
-            if len(digs) > 1:  # Duplicity across watcher sets
+            reports = {}  # of watchers that are ahead, by sequence number
+            for state in ahds:
+                reports.setdefault(state.sn, []).append(state)
+            agreed = [ahds for sn, ahds in sorted(reports.items()) if len(ahds) >= toad]
+
+            if any(len(set(state.dig for state in ahds)) > 1
+                   for ahds in reports.values()):  # Duplicity across watcher sets
                 cue = dict(kin="keyStateDuplicitous", cid=self.hab.pre, oid=watched, wids=watchers, dups=ahds)
                 self.cues.append(cue)
 
@@ -134,7 +139,8 @@ class Adjudicator:
                 for state in ahds:
                     logger.error(f"\tWatcher {state.wit} at seq No. {state.sn} with digest: {state.dig}")
 
-            elif len(ahds) >= toad:  # all witnesses that are ahead agree on the event
+            elif agreed:  # enough watchers that are ahead agree on the event
+                ahds = agreed[-1]  # latest event they agree on
                 logger.info(f"Threshold ({toad}) satisfying number of watchers ({len(ahds)}) are ahead")
                 for state in ahds:
                     logger.info(f"\tWatcher {state.wit} at Seq No. {state.sn} with digest: {state.dig}")
-- 
2.43.0


From 908c81f2aa767d9d2432b7a94436dc4ae0479a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:38 +0000
Subject: [PATCH 120/122] fix: receipt an event posted to a witness only when
 the witness has accepted it

---
 src/keri/app/indirecting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index fe4a3ef..44cbd8f 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1086,7 +1086,8 @@ class ReceiptEnd(doing.DoDoer):
 
         self.psr.parseOne(ims=msg, local=True)
 
-        if pre in self.hab.kevers:
+        if pre in self.hab.kevers and serder.said in self.hab.db.kels.getAllIter(keys=pre, on=serder.sn):
+            # event is accepted, so may be receipted
             kever = self.hab.kevers[pre]
             wits = kever.wits
 
-- 
2.43.0


From 1903b9f281e9ffbf7a95e2c86d3a71d8291a307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:38 +0000
Subject: [PATCH 121/122] fix: give the receipt of an event asked for by said
 its own sequence number

---
 src/keri/app/indirecting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index 44cbd8f..7062152 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1141,7 +1141,7 @@ class ReceiptEnd(doing.DoDoer):
             raise falcon.HTTPBadRequest(description=f"{self.hab.pre} is not a valid witness for {pre} event at "
                                                     f"{serder.sn}, {wits}")
         rserder = receipt(pre=pre,
-                          sn=sn,
+                          sn=serder.sn,
                           said=said.decode("utf-8"),
                           version=self.version,
                           gvrsn=self.version,
-- 
2.43.0


From d7a3056c37a136eab1dd27945f9d1211e99b6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:36 +0000
Subject: [PATCH 122/122] fix: record a delegator's approval for the event it
 approves, not the latest one

---
 src/keri/app/delegating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/delegating.py b/src/keri/app/delegating.py
index 4c01224..95fb9d3 100644
--- a/src/keri/app/delegating.py
+++ b/src/keri/app/delegating.py
@@ -150,7 +150,7 @@ class Anchorer(doing.DoDoer):
             if dserder := self.hby.db.fetchLastSealingEventByEventSeal(dkever.prefixer.qb64, seal=seal):
                 sner = Number(num=dserder.sn, code=NumDex.Huge)
                 diger = Diger(qb64b=dserder.saidb)
-                self.hby.db.aess.pin(keys=(kever.prefixer.qb64b, kever.serder.saidb),
+                self.hby.db.aess.pin(keys=(kever.prefixer.qb64b, serder.saidb),
                                      val=(sner, diger))  # authorizer event seal (delegator/issuer)
 
                 # Move to escrow waiting for witness receipts
-- 
2.43.0

