"""Developer helper: hand-written semantic bugs, to see which check notices which.

usage: batch.py REPOCOPY VERIFCOPY SPEC.py [NAME..]     (SPEC defines B = [(name, "CHECK,CHECK", file, old, new[, old, new..])])"""
import os, runpy, subprocess, sys, time
repo, verif, spec, only = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
for name, checks, file, *ed in runpy.run_path(spec)["B"]:
    if only and name not in only:
        continue
    p = os.path.join(repo, file)
    src = open(p).read()
    new, bad = src, None
    for o, n in zip(ed[::2], ed[1::2]):
        if new.count(o) != 1:
            bad = f"{new.count(o)} matches: {o[:60]!r}"
        new = new.replace(o, n)
    if bad:
        print("SPEC   ", name, bad, flush=True)
        continue
    try:
        compile(new, p, "exec")
        open(p, "w").write(new)
        t, out = time.time(), []
        for c in checks.split(","):
            r = subprocess.run(["./check", c, "quick"], cwd=verif, capture_output=True, text=True,
                               env=dict(os.environ, KERI_REPO=repo, MC_EAGER=c, PYTHONDONTWRITEBYTECODE="1"))
            out.append(f"{c}:{r.returncode}")
            if r.returncode:
                break
        print("caught " if r.returncode == 1 else "MISSED " if r.returncode == 0 else "BROKEN ", name, *out, f"{time.time()-t:.0f}s", flush=True)
    finally:
        open(p, "w").write(src)
