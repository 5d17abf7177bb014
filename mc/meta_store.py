from .meta import LMDB, STANDIN, SUB, WEB, prop

TECH = ("explicit-state exploration of the real code in lock step with a reference model: "
        "every content of a bounded space x every call, and every call sequence to a depth")
NOTE = ("Exhaustive within the stated bounds on the real implementation; the oracle is an independent "
        "dictionary model replayed call by call, so every explored transition is validated against the code.")
RULE = ("states = distinct store contents (plus unmerged call sequences); a transition is one call compared "
        "with the model in answer and in whole resulting content")
WHY = ("The existing tests walk a handful of hand-picked contents; the guarantee is over every content and "
       "call order, in particular neighbouring keys, gaps in ordinals, removed members and empty leftovers.")

prop("S01", "The browser store behaves as an ordered map of keys to single values",
     "Inserting never overwrites, setting always does, reading returns the last value written, removing "
     "reports whether something was there, and walking or counting by key prefix yields exactly the matching "
     "entries in key order. No call changes any entry other than the ones it names.",
     ["inputs", "histories"], "every content over 8 related keys x every call; every call sequence to the depth",
     WHY, [WEB], [("putVal/setVal/getVal/remVal", WEB), ("getTopItemIter/remTop/cntTop/cntAll", WEB)],
     TECH, NOTE, RULE)
prop("S02", "The browser store keeps ordinal-numbered entries per key exactly",
     "Entries numbered under a key are stored, overwritten, read, counted, removed and walked in number order "
     "from any starting number, appending takes the number after the greatest one present, and entries of "
     "other keys, including longer keys sharing a prefix, are never touched or returned.",
     ["inputs", "histories"], "every content over 5 related keys x 6 ordinals (up to 2 or 4 entries, and full) x "
     "every call; every call sequence to the depth", WHY, [WEB],
     [("putOnVal/pinOnVal/appendOnVal/remOn/remOnAll", WEB), ("getOnAllItemIter/getOnTopItemIter/cntOnAll", WEB)],
     TECH, NOTE, RULE)
prop("S03", "The browser store keeps insertion-ordered sets of values per key",
     "Values added under a key are kept once each in the order first added, pinning replaces the set, removing "
     "a value or the set removes exactly that, last and counting queries agree with the order, and other "
     "keys' sets are never touched or returned.",
     ["inputs", "histories"], "every set of up to 3 values with every pattern of insertion-number gaps beside "
     "neighbouring keys x every call; every call sequence to the depth", WHY, [WEB],
     [("putIoSetVals/pinIoSetVals/addIoSetVal/remIoSet/remIoSetVal", WEB),
      ("getIoSetItemIter/getIoSetLastItem/getTopIoSetItemIter/getIoSetLastItemIterAll", WEB)], TECH, NOTE, RULE)
prop("S04", "The browser store keeps ordered sets of values at numbered positions",
     "At every key and number the values form a set in insertion order; appending opens the next number; adding, "
     "pinning and removing act on exactly the named position; forward, backward, last-only and counting queries "
     "return exactly the stored items of that key in order.",
     ["inputs", "histories"], "every content of up to 2 or 3 positions over 4 related keys x 3 ordinals x every "
     "call; every call sequence to the depth", WHY, [WEB],
     [("putOnIoSetVals/pinOnIoSetVals/appendOnIoSetVals/addOnIoSetVal/remOnIoSetVal/remOnAllIoSet", WEB),
      ("getOnAllIoSet...Iter families", WEB)], TECH, NOTE, RULE)
prop("S05", "Walking a store is undisturbed by changes made during the walk",
     "A walk over any store yields exactly the content as of its first step, in order and without error, whatever "
     "entries are added, overwritten or removed between its steps; and those changes all take effect. This holds "
     "for the browser store and the directory-backed store alike.",
     ["schedules"], "every iterator x every placement of 2 (thorough: 3) changes between its steps x every change "
     "of an alphabet", "Tests iterate without interleaved writes, while event processing removes escrows as it "
     "walks them; only enumeration of interleavings covers every change at every step.", [WEB, LMDB],
     [("iterator methods", WEB), ("read transactions", LMDB)],
     "exhaustive enumeration of interleavings of the real iterators with mutations", NOTE,
     "a state is one (iterator, content, placement, change list) combination", [STANDIN])
prop("S06", "A completed flush of the browser store persists every acknowledged write",
     "After a flush completes, a session opened on the persisted data shows exactly the content at that moment, "
     "for every store and the version; a flush whose storage commit fails reports it, loses nothing from memory, "
     "and a later successful flush persists it all. Each store's persisted data is always one complete "
     "content the store had at some flush.",
     ["histories", "crash_points", "fault_sequences"], "every call of every family on every content followed by a "
     "flush; every history to depth 4 (thorough 5) of writes, flushes failing before or after any commit, and "
     "restarts", "Each mutating call has its own change tracking, and a call that forgets it loses data only on the "
     "next restart; tests flush after a few calls and never fail a commit.", [WEB],
     [("flush", WEB), ("dirty tracking of every mutator", WEB)],
     "explicit-state enumeration of call x content x flush and of fault and restart histories", NOTE,
     "histories counted once each, unmerged; flushes = call/content pairs that changed content and were flushed")
prop("S07", "Flushes of the browser store are safe against concurrent writes and flushes",
     "Whatever writes, overlapping flushes, cancelled flushes and failing commits interleave with the awaited "
     "storage commits, a flush that returns has persisted every write made before it was called, persisted "
     "content never goes back to an older one, no flush hangs, and a final quiet flush persists everything.",
     ["schedules", "fault_sequences"], "all schedules of up to 3 flushes, 2 writes per store, one cancellation and "
     "one failed commit, for storage that copies data at call or at commit", "The tests await each flush "
     "before doing anything else, so no interleaving with a pending commit is ever exercised.", [WEB],
     [("flush", WEB)], "stateless model checking of the real coroutines: every interleaving of explorer-controlled "
     "suspension points", NOTE, "schedules = complete interleavings executed on a real event loop; states = "
     "schedule prefixes")
prop("S08", "Browser store sessions keep naming, flags, version and closing straight",
     "Opening loads exactly what was last persisted under that name and no other, clearing erases it, a store's "
     "duplicate flag is fixed by its first use and survives restarts, undeclared stores and non-empty stores with lost "
     "flags are refused, the version reads back, and a closed session offers and writes nothing.",
     ["histories", "configurations"], "every history to depth 4 (thorough 5) of open, clear, use, write, version, "
     "flush and close over two database names", "Tests cover single open and reopen scripts; the guarantee is over "
     "every order of lifecycle calls.", [WEB], [("open", WEB), ("open_db", WEB), ("version/getVer/setVer", WEB),
                                               ("close", WEB)], TECH, NOTE,
     "states = lifecycle histories, unmerged, each checked after every call")
prop("S09", "The browser registry store persists every table across sessions",
     "What is written to any table of the registry store is what it and every later session show, in typed form, once "
     "flushed or closed; a plain close is refused while writes are pending; clearing and temporary stores leave "
     "nothing behind.",
     ["histories"], "every history of 4 (thorough 5) lifecycle calls and table writes, ordinary and temporary",
     "One scripted open-write-close-reopen sequence is tested.", ["src/keri/acdc/webregbasing.py", WEB],
     [("reopen/close/aclose/flush", "src/keri/acdc/webregbasing.py")], TECH, NOTE,
     "states = histories, each followed after every call by a fresh session on the persisted image", [STANDIN])
prop("L01", "The directory-backed store honours the same store contracts",
     "Plain, numbered, ordered-set and numbered ordered-set stores behave exactly as their browser counterparts, and "
     "stores with duplicate values keep each value once, in value or insertion order, per key or per key and "
     "number, with adds, removals, last, count, forward and backward queries acting on exactly the named entries.",
     ["inputs", "histories"], "every content of bounded spaces for seven families x every call",
     WHY, [LMDB], [("LMDBer method families", LMDB)],
     "explicit-state exploration of the real code against the same reference models as the browser store", NOTE, RULE,
     [STANDIN, "keys nested under a key are not mixed with ordinals above 2**126 of that key"])
SUBS, KOMS = "src/keri/db/subing.py", "src/keri/db/koming.py"
prop("L02", "Typed stores give back exactly what was put in, under any form of key",
     "Every typed store (text, Base64 tuples, CESR primitives and their concatenations, messages, schemas, records in JSON, CBOR or "
     "MessagePack; single, numbered, ordered-set, duplicate and numbered-set) over either database answers each call with the values put "
     "under exactly those keys, in their kind, whether the keys come as tuple, text, bytes or view and whatever separator joins them; "
     "values of another kind are refused; neighbouring stores stay untouched.",
     ["inputs", "histories"], "every content of a small space per class (34 class and value kinds x 2 separators x 2 databases) x every "
     "call x six forms of key x tops and partial keys",
     "Tests put and get a few values of each class, at the default separator.", [SUBS, KOMS, LMDB],
     [("Suber classes", SUBS), ("Komer classes", KOMS)],
     "explicit-state exploration of the real typed stores in lock-step with the reference models of the families below them", NOTE, RULE,
     [STANDIN])
prop("T01", "The example drift guard reports in sync exactly when the blocks are equal",
     "The guard succeeds if and only if every generated block appears in the document under its name exactly once with an "
     "equal value and the document names no other block; formatting, key order and fence language do not "
     "matter, and unparsable or repeated blocks always fail.",
     ["inputs"], "all pairs over a value universe in every rendering; all documents of up to 3 (thorough 4) blocks x all "
     "manifests over two names", "Tests compare a few fixed documents.", ["tools/check_spec_examples.py"],
     [("compare/parse/main", "tools/check_spec_examples.py")],
     "exhaustive enumeration of documents and manifests against an independent equality oracle", NOTE,
     "a state is one (document, manifest) pair judged by the real command", )
prop("T02", "The example tagger only inserts correct markers and is idempotent",
     "Tagging changes a document only by inserting a marker directly before a fence whose value equals exactly one "
     "generated block and whose name is not already marked anywhere; running it again changes nothing, and a dry run "
     "never writes.",
     ["inputs", "histories"], "all documents of up to 3 (thorough 4) fences over a 12-fence alphabet x 5 manifests, run "
     "twice", "No test covers the tagger.", ["tools/tag_spec_examples.py"], [("tag", "tools/tag_spec_examples.py")],
     "exhaustive enumeration of documents, each tagged twice by the real command", NOTE,
     "a state is one (document, manifest) pair")
