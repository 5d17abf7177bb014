"""The spec drift guard says "in sync" exactly when every generated block appears
once in the document with an equal value: all pairs of small values in every
rendering, and all small documents with missing, extra, repeated or broken blocks."""

import contextlib
import importlib.util
import io
import itertools
import json
import os
import tempfile

from ..lib import REPO, explore_jobs, pick, run


def tool(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, "tools", name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def call(m, argv):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            rc = m.main(argv)
        except SystemExit as ex:
            rc = ex.code
    return rc, out.getvalue()


LEAVES = [None, True, False, 5, 6, "", "x", "y", " x"]
KIDS = LEAVES[:3] + [5, "x", [], {}, ["x"], ["x", "y"], ["y", "x"], {"a": "x"}, {"a": None}, {"b": "x"}]


def values(full):
    out = list(KIDS) + [6, "", " x", "y"]
    kids = KIDS if full else KIDS[:9]
    for a in kids:
        out.append({"a": a, "c": 5})
        out.append([a, 5])
        out.append({"c": {"d": [a]}})
        out.append({"c": {"a": a}})
        out.append([{"a": a}])
    out += [{"c": {"a": "x", "d": 5}}, {"c": {"a": "x", "d": None}}, {"c": {"d": {"a": "x"}}},
            {"c": {"d": {"a": "x", "b": "x"}}}, {"c": {"d": {"a": {"a": "x", "b": "x"}}}},
            [{"a": "x", "b": "x"}], [["x", "y"], "x"], [["x"], "x"], {"c": {}}, [{}], [[]]]
    out += [{"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": 2, "b": 1}, {"a": 1}, {"a": 1, "b": 2, "c": 3},
            ["x", "x"], ["x", "x", "x"], {"a": "x", "b": "x"}, {"a": {"a": "x"}}]
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def flip(v):
    if isinstance(v, dict):
        return {k: flip(v[k]) for k in reversed(list(v))}
    if isinstance(v, list):
        return [flip(x) for x in v]
    return v


def render(name, v, style):
    lang, layout = style
    if lang == "json":
        body = [json.dumps(v), json.dumps(v, indent=2), json.dumps(flip(v), indent=4)][layout % 3]
    else:
        body = [repr(v), repr(flip(v)), "\n " + repr(v)][layout % 3]
        body = body.strip("\n")
    gap = ["\n", "\n\n", "\n \n"][layout % 3]
    mark = [f"<!-- example: {name} -->", f"<!--example:{name}-->", f"<!--  example:  {name}  -->"][layout % 3]
    fence = ["```" + lang, "``` " + lang, "```" + lang.upper()][layout % 3]
    nl = "\r\n" if layout == 3 else "\n"
    return (mark + gap + fence + "\n" + body + "\n```\n").replace("\n", nl)


STYLES = [(l, y) for l in ("json", "python") for y in range(4)]


class Box:
    def __init__(self):
        self.tmp = tempfile.TemporaryDirectory()
        self.m = os.path.join(self.tmp.name, "m.json")
        self.s = os.path.join(self.tmp.name, "s.md")
        self.tool = tool("check_spec_examples")

    def verdict(self, manifest, text):
        with open(self.m, "w", encoding="utf-8") as f:
            json.dump(manifest, f)
        with open(self.s, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return call(self.tool, ["--manifest", self.m, "--spec", self.s])


def judge(res, box, manifest, text, want):
    rc, out = box.verdict(manifest, text)
    res.add("transitions")
    res.add("states")
    res.add("traces_validated_against_impl")
    if (rc == 0) != want or rc not in (0, 1) or (rc == 0) != out.startswith("OK"):
        res.violation(f"{json.dumps(manifest)}|{text}",
                      f"verdict {rc} on manifest {manifest!r} and document {text!r}; they are "
                      f"{'in sync' if want else 'not in sync'}", dict(manifest=manifest, text=text))


def pairs(res, spec):
    i, n = spec
    box = Box()
    vals = values(pick(False, True))
    for j, (a, b) in enumerate(itertools.product(vals, repeat=2)):
        if j % n != i:
            continue
        styles = STYLES if same(a, b) else [STYLES[j % len(STYLES)], STYLES[(j * 5 + 3) % len(STYLES)]]
        for st in styles:
            judge(res, box, {"n1": a}, "intro\n\n" + render("n1", b, st) + "\ntail\n", same(a, b))
    res.sample({"manifest": {"n1": a}, "document": render("n1", b, st)})


X, Y = {"a": 1, "b": ["x"]}, {"a": 1, "b": ["x", None]}
PIECES = [("p", X), ("p", Y), ("q", X), ("q", Y), ("p", None), ("q", None), ("free", X)]


def piece(p, style):
    name, v = p
    if name == "free":
        return "```json\n" + json.dumps(v) + "\n```\n"
    if v is None:
        return f"<!-- example: {name} -->\n```json\n{{\"a\": 1,\n```\n"
    return render(name, v, style)


def documents(res, spec):
    first, depth = spec
    box = Box()
    manifests = [dict(zip(ns, vs)) for ns in ((), ("p",), ("q",), ("p", "q"))
                 for vs in itertools.product((X, Y), repeat=len(ns))]
    for n in range(depth):
        for tail in itertools.product(PIECES, repeat=n):
            doc = (first,) + tail if first else tail
            text = "\n".join(["# title\n"] + [piece(p, STYLES[(k + n) % 8]) + "words\n"
                                              for k, p in enumerate(doc)])
            marked = [p for p in doc if p[0] != "free"]
            names = [p[0] for p in marked]
            for man in manifests:
                want = (all(v is not None for _, v in marked) and len(set(names)) == len(names)
                        and set(names) == set(man) and all(same(man[k], v) for k, v in marked))
                judge(res, box, man, text, want)


def job(res, spec):
    (pairs if spec[0] == "p" else documents)(res, spec[1:])


def main(res):
    n = 16
    jobs = [("p", i, n) for i in range(n)]
    jobs += [("d", f, pick(3, 4)) for f in [None] + PIECES]
    explore_jobs(res, job, jobs)


def check():
    return run("T01", "model_checking", main)
