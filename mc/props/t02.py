"""The spec tagger only ever inserts markers, in front of fences whose value equals
exactly one generated block, never marks a block twice, and running it again
changes nothing: all small documents over a fence alphabet."""

import itertools
import json
import os
import re
import tempfile

from ..lib import explore_jobs, pick, run
from .t01 import call, same, tool

X, X2, Y, Z = {"a": 1, "b": "x"}, {"b": "x", "a": 1}, {"a": 2}, {"z": 9}
F = lambda v, lang="json": (f"```{lang}", json.dumps(v) if lang == "json" else repr(v), "```")
# (marker name or None, blank lines between, fence, value or None)
FENCES = [(None, 0, F(X), X), (None, 0, F(X2, "python"), X), (None, 0, F(Y), Y), (None, 0, F(Z), Z),
          ("x", 0, F(X), X), ("x", 1, F(X2), X), ("y", 0, F(Y), Y), ("y", 0, F(X), X),
          (None, 0, F([1]), None), (None, 0, ("```json", "{broken", "```"), None),
          (None, 0, ("``` python", repr(Y), "  ```"), Y), (None, 0, ("```text", json.dumps(X), "```"), None)]
MANIFESTS = [{}, {"x": X}, {"x": X, "y": Y}, {"x": X, "w": X2, "y": Y}, {"y": Y, "l": [1]}]
MARK = re.compile(r"<!-- example: (.*) -->")


def build(doc):
    lines, spots = ["# title", ""], []
    for marker, gap, fence, val in doc:
        if marker:
            lines.append(f"<!-- example: {marker} -->")
        lines += [""] * gap
        spots.append(len(lines))
        lines += fence
        lines.append("words")
    return lines, spots


def expected(doc, man):
    """indices of fences that get a marker -> name"""
    used = {m for m, *_ in doc if m}
    out = {}
    for i, (marker, _, _, val) in enumerate(doc):
        if val is None or marker:
            continue
        hits = [n for n, v in man.items() if isinstance(v, dict) and same(v, val)]
        if len(hits) == 1 and hits[0] not in used:
            used.add(hits[0])
            out[i] = hits[0]
    return out


def job(res, spec):
    first, depth = spec
    t = tool("tag_spec_examples")
    with tempfile.TemporaryDirectory() as d:
        mp, sp = os.path.join(d, "m"), os.path.join(d, "s")
        for n in range(depth):
            for tail in itertools.product(FENCES, repeat=n):
                doc = (first,) + tail
                lines, spots = build(doc)
                text = "\n".join(lines) + "\n"
                for man in MANIFESTS:
                    with open(mp, "w") as f:
                        json.dump(man, f)
                    with open(sp, "w") as f:
                        f.write(text)
                    res.add("states")
                    res.add("transitions", 3)
                    res.add("traces_validated_against_impl")
                    want = list(lines)
                    for i, name in sorted(expected(doc, man).items(), reverse=True):
                        want.insert(spots[i], f"<!-- example: {name} -->")
                    want = "\n".join(want) + "\n"
                    where = dict(document=text, manifest=man)
                    call(t, ["--manifest", mp, "--spec", sp, "--dry-run"])
                    if open(sp).read() != text:
                        res.violation(f"dry:{text}", "a dry run changed the document", where)
                    call(t, ["--manifest", mp, "--spec", sp])
                    got = open(sp).read()
                    if got != want:
                        res.violation(f"{man}:{text}", f"tagging {text!r} for {man!r} gave {got!r}, "
                                                       f"expected {want!r}", where)
                    call(t, ["--manifest", mp, "--spec", sp])
                    if open(sp).read() != got:
                        res.violation(f"twice:{man}:{text}", f"tagging {got!r} again gave "
                                                             f"{open(sp).read()!r}", where)
                    if res.full:
                        return
    res.sample({"document": text, "manifest": man})


def main(res):
    explore_jobs(res, job, [(f, pick(3, 4)) for f in FENCES])


def check():
    return run("T02", "model_checking", main)
