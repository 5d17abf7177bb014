"""Developer helper: automatic mutants, to find what the checks miss.

usage: mutate.py REPOCOPY VERIFCOPY FILE CHECK,CHECK.. [--stride N --from M] [--funcs a,b] [--stable]
Applies one small syntactic change at a time to FILE in REPOCOPY (a scratch clone), optionally requires the stable tests to pass,
runs the checks with KERI_REPO=REPOCOPY until one reports, and prints one line per mutant."""
import argparse, ast, os, subprocess, sys

ap = argparse.ArgumentParser()
ap.add_argument("repo"); ap.add_argument("verif"); ap.add_argument("file"); ap.add_argument("checks")
ap.add_argument("--stride", type=int, default=1); ap.add_argument("--start", type=int, default=0)
ap.add_argument("--funcs", default=""); ap.add_argument("--stable", action="store_true")
ap.add_argument("--lines", default=""); ap.add_argument("--ops", default="")
A = ap.parse_args()
path = os.path.join(A.repo, A.file)
src = open(path).read()
lines = src.split("\n")
offs = [0]
for l in src.encode().split(b"\n"):
    offs.append(offs[-1] + len(l) + 1)
raw = src.encode()


def pos(n, end=False):
    return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)


muts = []


def add(a, b, new, what, line):
    muts.append((a, b, new.encode(), what, line))


SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}


def text(n):
    return raw[pos(n):pos(n, True)].decode()


def logging(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith(("logger", "print"))


def visit(n, raising=False):
    for c in ast.iter_child_nodes(n):
        if isinstance(c, ast.Raise):
            add(pos(c), pos(c, True), "pass", "no raise", c.lineno)
            continue
        if logging(c):
            continue
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
            continue
        if isinstance(c, (ast.arguments,)):
            continue
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            op = type(c.ops[0])
            add(pos(c), pos(c, True), f"{text(c.left)} {SWAP[op]} {text(c.comparators[0])}", f"{SYM[op]} -> {SWAP[op]}", c.lineno)
        if isinstance(c, (ast.If, ast.While)) :
            add(pos(c.test), pos(c.test, True), "False", "if False", c.lineno)
            if isinstance(c, ast.If):
                add(pos(c.test), pos(c.test, True), "True", "if True", c.lineno)
        if isinstance(c, ast.BoolOp):
            for i, v in enumerate(c.values):
                rest = [text(x) for j, x in enumerate(c.values) if j != i]
                add(pos(c), pos(c, True), "(" + (" and " if isinstance(c.op, ast.And) else " or ").join(rest) + ")", f"drop {text(v)[:40]}", c.lineno)
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            add(pos(c), pos(c, True), text(c.operand), "drop not", c.lineno)
        if isinstance(c, ast.Constant) and type(c.value) is int:
            add(pos(c), pos(c, True), str(c.value + 1), "+1", c.lineno)
        if isinstance(c, ast.Constant) and type(c.value) is bool:
            add(pos(c), pos(c, True), str(not c.value), "flip", c.lineno)
        if isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Add, ast.Sub)):
            add(pos(c), pos(c, True), f"{text(c.left)} {'-' if isinstance(c.op, ast.Add) else '+'} {text(c.right)}", "+ <-> -", c.lineno)
        if isinstance(c, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(c, ast.Expr):
            add(pos(c), pos(c, True), "pass", "drop " + text(c)[:50].replace("\n", " "), c.lineno)
        if isinstance(c, (ast.Continue, ast.Break)):
            add(pos(c), pos(c, True), "pass", "drop " + text(c), c.lineno)
        if isinstance(c, ast.Return):
            add(pos(c), pos(c, True), "pass", "drop return", c.lineno)
        if isinstance(c, ast.Call) and len(c.keywords) >= 1:
            for k in c.keywords:
                if k.arg and len(c.args) + len(c.keywords) > 1:
                    parts = [text(x) for x in c.args] + [f"{j.arg}={text(j.value)}" if j.arg else f"**{text(j.value)}" for j in c.keywords if j is not k]
                    add(pos(c), pos(c, True), f"{text(c.func)}({', '.join(parts)})", f"drop arg {k.arg}", c.lineno)
        visit(c)


tree = ast.parse(src)
want = set(A.funcs.split(",")) - {""}
if want:
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in want:
            visit(n)
else:
    visit(tree)
rng = [int(x) for x in A.lines.split("-")] if A.lines else None
muts = [m for m in muts if not rng or rng[0] <= m[4] <= rng[1]]
print(len(muts), "mutants", flush=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
try:
    for n, (a, b, new, what, line) in enumerate(muts):
        if n < A.start or (n - A.start) % A.stride:
            continue
        cut = raw[:a] + new + raw[b:]
        try:
            compile(cut, path, "exec")
        except SyntaxError:
            continue
        open(path, "wb").write(cut)
        tag = f"{n} L{line} {what} | {lines[line-1].strip()[:90]}"
        if A.stable:
            e = dict(env, PYTHONPATH=os.path.join(A.repo, "src/keri/db"))
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--confcutdir=tests/db", "--timeout=20",
                                "tests/db/test_webdbing.py", "tools/test_check_spec_examples.py"], cwd=A.repo, env=e, capture_output=True, timeout=60)
                if r.returncode:
                    print("tests ", tag, flush=True)
                    continue
            except subprocess.TimeoutExpired:
                print("tests ", tag, flush=True)
                continue
        e = dict(env, KERI_REPO=A.repo)
        verdict = "SURVIVES"
        for c in A.checks.split(","):
            try:
                r = subprocess.run(["./check", c, "quick"], cwd=A.verif, env=dict(e, MC_EAGER=c), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                verdict = f"timeout {c}"; break
            if r.returncode == 1:
                verdict = f"{c}"; break
            if r.returncode:
                verdict = f"rc{r.returncode} {c}"; break
        print(verdict, tag, flush=True)
finally:
    open(path, "wb").write(raw)
