"""Lines of kikuchipy that no check ran: cov.py <directory given as VERIF_COV>.

Not a check: shows where the drivers do not reach."""
import ast
import glob
import json
import sys

SRC = "/repo/src/kikuchipy/"
seen = {}
for f in glob.glob(sys.argv[1] + "/*.json"):
    for name, n in json.load(open(f)):
        seen.setdefault(name, set()).add(n)
total = missed = 0
for path in sorted(glob.glob(SRC + "**/*.py", recursive=True)):
    name = path[len(SRC):]
    tree = ast.parse(open(path).read())
    rows = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(
            getattr(fn.body[0], "value", None), ast.Constant) else fn.body
        lines = sorted({k.lineno for b in body for k in ast.walk(b) if isinstance(k, ast.stmt)})
        miss = [k for k in lines if k not in seen.get(name, ())]
        total += len(lines)
        missed += len(miss)
        if miss:
            rows.append((fn.lineno, fn.name, len(lines), miss))
    for _, fname, n, miss in sorted(rows):
        what = "ALL" if len(miss) == n else ",".join(map(str, miss[:25]))
        print(f"{name}:{fname} {len(miss)}/{n} {what}")
print(f"{total - missed} of {total} statements in functions ran")
