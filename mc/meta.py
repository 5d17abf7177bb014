"""The properties, and how each is decided.  `python -m mc.meta` writes
properties.jsonl and MANIFEST.json from this table."""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WEB = "src/keri/db/webdbing.py"
LMDB = "src/keri/db/dbing.py"
SUB = "src/keri/db/subing.py"
EVT = "src/keri/core/eventing.py"
STANDIN = ("the native LMDB library is replaced by an in-memory stand-in with the same ordering, "
           "duplicate, cursor, transaction and commit rules (validated by the repository's own "
           "database tests, see DESIGN.md)")
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, rule,
         assumptions=(), observe=None, state=None, level="model_checking"):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, rule=rule, assumptions=list(assumptions),
                  observe=observe, state=state, level=level))


def load():
    from importlib import import_module
    for m in ("meta_store", "meta_core"):
        try:
            import_module(f".{m}", __package__)
        except ModuleNotFoundError as ex:
            if m not in str(ex):
                raise
    return {p["id"]: p for p in P}


NOT_APPLICABLE = []


def planted():
    """table of planted bugs (absent where seeded/ is)"""
    rows = ["<!-- seeded -->", "| planted bug | needs | caught by |", "|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        rows.append(f"| {d} | {m['needs']} | {m.get('caught_by', m['property'])} |")
    return "\n".join(rows + ["<!-- seeded end -->"])


def main():
    props = load()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props.values():
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": p["files"], "mechanism": [dict(name=n, where=w) for n, w in p["mech"]]}
            if p["state"]:
                anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=anchors)) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="none", enable="no hooks: the checks drive the unmodified sources",
                          source_commits=[]),
               checks=[dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                            technique=p["technique"], level=p["level"], level_note=p["note"])
                       for i, p in props.items()
                       if os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py"))],
               not_applicable=NOT_APPLICABLE,
               notes="Every check explores the real Python sources in /repo (imported in process, no copy).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    head, _, rest = text.partition("<!-- generated -->\n")
    _, _, tail = rest.partition("<!-- end -->\n")
    body = "".join(f"### {i}: {p['title']}\n\n{p['statement']}\n\n*Explored:* {p['text']}.\n*Decided by:* {p['technique']}.\n"
                   f"*Counted:* {p['rule']}.\n*Bounds and limits:* {p['note']}\n*Why tests cannot:* {p['why']}\n\n"
                   for i, p in props.items())
    tail = re.sub("(?s)<!-- seeded -->.*<!-- seeded end -->", lambda _: planted(), tail)
    with open(path, "w") as f:
        f.write(f"{head}<!-- generated -->\n{body}<!-- end -->\n{tail}")
    missing = [i for i in props if not os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py"))]
    print(len(props), "properties", "unclaimed:", missing)


if __name__ == "__main__":
    from mc import meta
    meta.main()
