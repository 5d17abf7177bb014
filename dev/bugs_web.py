W = "src/keri/db/webdbing.py"
BUGS = [
 dict(id="b01-ioset-remove-by-prefix", property="S03", file=W,
  edits=[("""            if cval == val:
                del db.items[iokey]
""", """            if cval.startswith(val):
                del db.items[iokey]
""")],
  needs="a set holding a value that begins with the removed value, added before it",
  breaks="removing a value from a set removes another value that begins with it",
  demo="""
d = opened(Disk()); db = d.env.open_db("s.")
d.putIoSetVals(db, b"k", [b"xy", b"x"])
assert d.remIoSetVal(db, b"k", b"x")
got = [v for _, v in d.getIoSetItemIter(db, b"k")]
assert got == [b"xy"], got
"""),
 dict(id="b02-remonall-neighbour", property="S02", file=W,
  edits=[("""            ckey, _ = splitOnKey(okey, sep=sep)
            if ckey != key:
                break
            doomed.append(okey)
""", """            ckey, _ = splitOnKey(okey, sep=sep)
            if not ckey.startswith(key):
                break
            doomed.append(okey)
""")],
  needs="two keys of which one begins with the other, both holding numbered entries",
  breaks="removing all numbered entries of a key removes those of longer keys that begin with it",
  demo="""
d = opened(Disk()); db = d.env.open_db("s.")
for k in (b"a", b"ab"):
    for n in range(2):
        d.putOnVal(db, k, n, b"v")
assert d.remOnAll(db, b"a")
assert d.cntOnAll(db, b"ab") == 2, d.cntOnAll(db, b"ab")
"""),
 dict(id="b03-empty-removal-forgets-dirty", property="S06", file=W,
  edits=[("""        if result:
            db.dirty = True

        return result
""", """        db.dirty = result

        return result
""")],
  needs="a removal that finds nothing, after a change that is not flushed yet, then flush and reopen",
  breaks="a removal that finds nothing makes the store forget its pending changes, so flush drops them",
  demo="""
disk = Disk()
d = opened(disk); db = d.env.open_db("s.")
d.putOnIoSetVals(db, b"k", on=0, vals=[b"a"])
assert not d.remOnAllIoSet(db, b"j")
asyncio.run(d.flush())
d = opened(disk); db = d.env.open_db("s.")
assert d.cntOnAllIoSet(db, b"k") == 1
"""),
 dict(id="b04-last-item-of-gap", property="S04", file=W,
  edits=[("""            if currentOn is not None and con != currentOn:
""", """            if currentOn is not None and con == currentOn + 1:
""")],
  needs="a gap in the ordinals of a key",
  breaks="the last value of a set before a gap in ordinals is not reported",
  demo="""
d = opened(Disk()); db = d.env.open_db("s.")
d.putOnIoSetVals(db, b"k", on=0, vals=[b"a", b"b"])
d.putOnIoSetVals(db, b"k", on=2, vals=[b"c", b"d"])
got = list(d.getOnAllIoSetLastItemIter(db, b"k"))
assert got == [(b"k", 0, b"b"), (b"k", 2, b"d")], got
"""),
 dict(id="b05-guard-containment", property="T01", file="tools/check_spec_examples.py",
  edits=[("""        for k in sorted(a_keys - e_keys):
""", """        for k in sorted(a_keys - e_keys if not path else e_keys - a_keys):
""")],
  needs="a document block with an extra field inside a nested object",
  breaks="extra fields in nested objects of a documented example are not reported as drift",
  kind="raw", demo="""
import json, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as t:
    m, s = os.path.join(t, "m.json"), os.path.join(t, "s.md")
    json.dump({"a": {"x": {"y": 1}}}, open(m, "w"))
    def run(body):
        open(s, "w").write("<!-- example: a -->\\n```json\\n%s\\n```\\n" % json.dumps(body))
        return subprocess.run([sys.executable, "tools/check_spec_examples.py", "--manifest", m, "--spec", s],
                              capture_output=True, text=True)
    ok, bad = run({"x": {"y": 1}}), run({"x": {"y": 1, "z": 2}})
    assert ok.returncode == 0, ok
    assert bad.returncode != 0, bad
"""),
]
