#!/usr/bin/env python3
"""Development aid: small syntactic changes of the Python sources that pass the repository's tests, run against the checks that execute
the changed line.  usage: mutate.py COVERDIR OUT SEED COUNT [file ...]   (COVERDIR/Cxx: lines executed by check Cxx, from MC_COVER)"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
covers, outfile, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
files = sys.argv[5:] or ["model.py", "codec.py", "collection.py", "algorithm.py", "query.py", "printout.py"]
src = "/repo/py/docria"
SLOW = ["C27", "C06", "C22", "C28"]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}


def seg(lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def mutants(text):
    tree = ast.parse(text)
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or "repr" in fn.name:
            continue
        for n in ast.walk(fn):
            def alt(m, what):
                ast.copy_location(m, n)
                out.append((n, ast.unparse(ast.fix_missing_locations(m)), what, isinstance(n, ast.stmt)))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]; alt(m, "cmp")
            elif isinstance(n, ast.BoolOp):
                m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); alt(m, "bool")
                for i in range(len(n.values)):
                    m = copy.deepcopy(n); del m.values[i]
                    alt(m.values[0] if len(m.values) == 1 else m, "drop operand")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                alt(copy.deepcopy(n.operand), "not")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
                m = copy.deepcopy(n); m.op = BIN[type(n.op)](); alt(m, "arith")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                alt(ast.Constant(not n.value), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                alt(ast.Constant(n.value + 1), "const+1"); 
                if n.value: alt(ast.Constant(n.value - 1), "const-1")
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                t = n.test
                for v in (True, False):
                    if isinstance(n, ast.While) and v:
                        continue
                    out.append((t, str(v), "if " + str(v), False))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append((n, "pass", "drop call", True))
            elif isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.AugAssign, ast.Delete, ast.Assert)):
                out.append((n, "pass", "drop " + type(n).__name__, True))
            elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                out.append((n, "pass", "drop assign", True))
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                out.append((n, "return None", "return None", True))
            elif isinstance(n, ast.Call) and len(n.args) > 1:
                m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]; alt(m, "swap args")
    return out


cover = {}
for c in sorted(os.listdir(covers)):
    if c.startswith("C"):
        for l in open(os.path.join(covers, c)):
            cover.setdefault(l.strip(), set()).add(c)
size = {}   # checks that execute little of a file are tried first
for k, cs in cover.items():
    for c in cs:
        size[c, k.split(":")[0]] = size.get((c, k.split(":")[0]), 0) + 1
allm = []
for f in files:
    text = open(os.path.join(src, f)).read()
    lines = text.splitlines(True)
    for n, new, what, stmt in mutants(text):
        a, b, c, d = seg(lines, n)
        offs = [0]
        for l in lines:
            offs.append(offs[-1] + len(l.encode()))
        raw = text.encode()
        s, e = offs[a - 1] + b, offs[c - 1] + d
        old = raw[s:e].decode()
        if "\n" in old and len(old) > 400:
            continue
        if not stmt and what not in ("const", "const+1", "const-1") and not what.startswith("if "):
            new = "(" + new + ")"
        mut = raw[:s] + new.encode() + raw[e:]
        try:
            compile(mut, f, "exec")
        except SyntaxError:
            continue
        allm.append((f, a, what, old, new, mut))
random.Random(seed).shuffle(allm)
print(len(allm), "mutants", flush=True)
done = set()
if os.path.exists(outfile):
    done = {tuple(l.split("\t")[1:5]) for l in open(outfile)}
scratch = tempfile.mkdtemp(prefix="mutate")
copyd = os.path.join(scratch, "r")
shutil.copytree("/repo", copyd, symlinks=True)
log = open(outfile, "a")
try:
    for f, a, what, old, new, mut in allm[:count]:
        key = (f, str(a), what, (repr(old[:90]) + " -> " + repr(new[:90])).replace("\t", " "))
        if key in done:
            continue
        p = os.path.join(copyd, "py/docria", f)
        keep = open(p, "rb").read()
        open(p, "wb").write(mut)
        try:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=os.path.join(copyd, "py"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=60, env=dict(os.environ, PYTHONPATH=os.path.join(copyd, "py"), PYTHONDONTWRITEBYTECODE="1"))
                passed = r.returncode == 0
            except subprocess.TimeoutExpired:
                passed = False
            if not passed:
                res = "tests"
            else:
                cs = cover.get("%s:%d" % (f, a), set())
                if f == "model.py" or not cs:
                    pass
                order = sorted(cs, key=lambda c: (c in SLOW, size[c, f]))
                res = "SURVIVED" if order else "UNCOVERED"
                for c in order:
                    try:
                        r = subprocess.run([os.path.join(root, "bin/check"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400,
                                       env=dict(os.environ, DOCRIA_SRC=copyd, VERIF_TIER="quick", VERIF_SEED="1"))
                    except subprocess.TimeoutExpired:
                        res = "timeout " + c
                        break
                    if r.returncode:
                        res = "caught %s %d" % (c, r.returncode)
                        break
        finally:
            open(p, "wb").write(keep)
        log.write("\t".join((res,) + key) + "\n")
        log.flush()
finally:
    shutil.rmtree(scratch)
