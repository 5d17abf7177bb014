"""Developer helper: turn an edit into a planted bug under seeded/, after confirming that
the changed tree builds, passes the stable tests, and that the demonstration tells the two apart.

usage: plant.py SPEC.py     (SPEC defines BUGS = [dict(id, property, file, edits=[(old,new)..], needs, breaks, demo)])
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
REPO = os.environ.get("PLANT_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

WEBDEMO = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
SHIMDEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
WEBHEAD = '''import importlib.util, sys, asyncio, os
spec = importlib.util.spec_from_file_location("webdbing_demo", os.path.join(os.getcwd(), "src/keri/db/webdbing.py"))
webdbing = importlib.util.module_from_spec(spec)
sys.modules["webdbing_demo"] = webdbing
spec.loader.exec_module(webdbing)
WebDBer = webdbing.WebDBer

class Disk:
    """what survives a restart"""
    def __init__(self):
        self.kept = {}
    async def __call__(self, ns):
        return Handle(self, ns)

class Handle(dict):
    def __init__(self, disk, ns):
        super().__init__(disk.kept.get(ns, {}))
        self.disk, self.ns = disk, ns
    async def sync(self):
        self.disk.kept[self.ns] = dict(self)

def opened(disk, stores=("s.",), **kwa):
    return asyncio.run(WebDBer.open("w", list(stores), storageOpener=disk, **kwa))

'''
MINILIB = '''import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    os.environ["KERI_REPO"] = os.getcwd()
    sys.path.insert(0, os.path.join(ROOT, "shim"))
    import kshim
    kshim.install()
    import logging
    logging.disable(logging.CRITICAL)
    return kshim
'''
KELHEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.kel import *
from mc.kel import lmdb

'''
SHIMHEAD = '''import os, sys
os.environ["KERI_REPO"] = os.getcwd()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim"))
import kshim
kshim.install()
import logging; logging.disable(logging.CRITICAL)
'''


def sh(cmd, cwd=None, **kwa):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kwa)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        kind = b.get("kind", "web")
        open(d + "/demo.sh", "w").write(WEBDEMO if kind == "web" else SHIMDEMO)
        os.chmod(d + "/demo.sh", 0o755)
        head = WEBHEAD if kind == "web" else SHIMHEAD if kind == "shim" else KELHEAD if kind == "kel" else ""
        open(d + "/demo.py", "w").write(head + b["demo"].lstrip("\n"))
        if kind == "kel":
            os.makedirs(d + "/mc")
            open(d + "/mc/__init__.py", "w")
            open(d + "/mc/lib.py", "w").write(MINILIB)
            shutil.copy(ROOT + "/mc/kel.py", d + "/mc/kel.py")
        if kind in ("shim", "kel"):
            shutil.copytree(ROOT + "/shim", d + "/shim", ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]]
        assert not sh("git status --porcelain", REPO).stdout.strip(), "dirty /repo"
        bad = None
        try:
            r0 = sh(f"timeout 300 bash {d}/demo.sh", REPO)
            if r0.returncode:
                bad = f"demo fails on the unchanged tree: {r0.stdout[-400:]}{r0.stderr[-800:]}"
            for ed in b["edits"]:
                f, old, new = ed if len(ed) == 3 else (files[0], *ed)
                p = os.path.join(REPO, f)
                s = open(p).read()
                n = s.count(old)
                assert n == 1, (b["id"], f, "matches", n, old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", REPO).stdout
            open(d + "/patch.diff", "w").write(diff)
            t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --confcutdir=tests/db --timeout=60 tests/db/test_webdbing.py "
                   "tools/test_check_spec_examples.py", REPO, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(REPO, "src/keri/db")))
            fails = [t.stdout[-400:]] if t.returncode or "41 passed" not in t.stdout else []
            if fails:
                bad = bad or f"stable tests fail: {fails[:3]}"
            r1 = sh(f"timeout 300 bash {d}/demo.sh", REPO)
            if r1.returncode == 0:
                bad = bad or "demo passes with the patch"
        finally:
            sh("git checkout -- .", REPO)
        if bad:
            print(b["id"], "REJECTED", bad)
            shutil.rmtree(d)
        else:
            print(b["id"], "kept; demo says:", (r1.stdout + r1.stderr).strip().splitlines()[-1][:150])


main()
