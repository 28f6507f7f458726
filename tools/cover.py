#!/usr/bin/env python3
"""Development aid: which lines of docria the quick checks execute.  usage: cover.py [C01 ...]"""
import ast, os, subprocess, sys, tempfile, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.join(os.environ.get("DOCRIA_SRC", "/repo"), "py", "docria")
checks = sys.argv[1:] or ["C%02d" % i for i in range(1, 100) if os.path.exists(os.path.join(root, "mc/checks/c%02d.py" % i))]
hit = collections.defaultdict(set)
for c in checks:
    fd, path = tempfile.mkstemp()
    os.close(fd)
    subprocess.run([os.path.join(root, "bin/check"), c], env=dict(os.environ, MC_COVER=path), stdout=subprocess.DEVNULL)
    for l in open(path):
        f, n = l.rsplit(":", 1)
        hit[f].add(int(n))
    os.unlink(path)
for f in sorted(os.listdir(src)):
    if not f.endswith(".py"):
        continue
    tree = ast.parse(open(os.path.join(src, f)).read())
    body = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for st in ast.walk(fn):
                if isinstance(st, ast.stmt) and st is not fn and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    body.add(st.lineno)
    miss = sorted(body - hit[f])
    print("%-14s %d of %d statements inside functions; missed: %s" % (f, len(body & hit[f]), len(body), miss))
