#!/usr/bin/env python3
"""Development aid: small textual changes of the Java sources that compile, run against the checks of the file.
usage: mutate_java.py OUT SEED COUNT [file-substring ...]"""
import os, random, re, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
outfile, seed, count, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
MAP = [("hadoop/", "C37"), ("Boundary", "C28 C32"), ("ByteOutput", "C28 C32 C31"), ("Deflate", "C35 C32"), ("io/Document", "C32 C33 C37"), ("io/Msgpack", "C32 C33 C37"), ("algorithms", "C34"),
       ("MsgpackDocument.java", "C35 C37"), ("MsgpackCodec", "C31 C35 C30"), ("Layer", "C29 C30 C31"), ("/Document.java", "C30 C31"), ("Schema", "C30 C31"), ("DataType", "C36 C30 C31"),
       ("Text.java", "C36 C34 C31"), ("Offset", "C34 C31"), ("/Span.java", "C34 C36 C31"), ("NodeSpan", "C36 C29 C31"), ("Node", "C36 C29 C30 C31"), ("values/", "C36 C31"), ("Value.java", "C36 C31")]
RULES = [(r"<=", "<"), (r"(?<![<\w>])(?<=\s)<(?=\s)", "<="), (r">=", ">"), (r"(?<=\s)>(?=\s)", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[\(\s])!(?=[\w(])", ""), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="),
         (r"\bsynchronized ", ""), (r"(?<=[\(\s,=])(\d+)(?=[\);,\s])", lambda m: str(int(m.group(1)) + 1)), (r"\bstart(?=[,;.)\s])", "stop"), (r"\bleft\b", "right"),
         (r"\bif\s*\((.*)\)(?=\s*(\{|$|[a-z]))", "if(false)"), (r"\bif\s*\((.*)\)(?=\s*(\{|$|[a-z]))", "if(true)"), (r"^(\s*)(?!return|throw|import|package|[\w<>\[\], ]+ \w+ ?[=;]|final|private|public|protected|super|this\.\w+ = |\})[\w.]+.*;\s*$", r"\1;"),
         (r"^(\s*)this\.\w+ = .*;$", r"\1;"), (r"\bcontinue;", ";"), (r"\bthrow new .*;$", ";")]
base = "/repo/java"
files = [os.path.join(d, f) for p in ("core/src/main", "hadoop/src/main") for d, _, fs in os.walk(os.path.join(base, p)) for f in fs if f.endswith(".java")]
allm = []
for f in sorted(files):
    rel = f[len(base):]
    if only and not any(o in rel for o in only):
        continue
    lines = open(f).read().split("\n")
    comment = False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("/*"):
            comment = True
        if comment or t.startswith("//") or t.startswith("import") or t.startswith("*"):
            comment = comment and "*/" not in t
            continue
        for pat, new in RULES:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + m.expand(new) + l[m.end():] if isinstance(new, str) else l[:m.start()] + new(m) + l[m.end():]
                if n != l:
                    allm.append((rel, i, l, n))
allm = sorted(set(allm))
random.Random(seed).shuffle(allm)
print(len(allm), "mutants", flush=True)
done = {tuple(l.rstrip("\n").split("\t")[1:]) for l in open(outfile)} if os.path.exists(outfile) else set()
scratch = tempfile.mkdtemp(prefix="mutatej")
copyd = os.path.join(scratch, "r")
shutil.copytree("/repo", copyd, symlinks=True)
log = open(outfile, "a")
try:
    for rel, i, l, n in allm[:count]:
        key = (rel, str(i + 1), l.strip()[:110].replace("\t", " ") + "  ->  " + n.strip()[:110].replace("\t", " "))
        if key in done:
            continue
        p = copyd + "/java" + rel
        keep = open(p).read()
        lines = keep.split("\n")
        lines[i] = n
        open(p, "w").write("\n".join(lines))
        try:
            res = "SURVIVED"
            cs = next(c for k, c in MAP if k in rel).split()
            for c in cs:
                try:
                    r = subprocess.run([os.path.join(root, "bin/check"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500,
                                       env=dict(os.environ, DOCRIA_SRC=copyd, VERIF_TIER="quick", VERIF_SEED="1"))
                except subprocess.TimeoutExpired:
                    res = "timeout " + c
                    break
                if r.returncode:
                    res = "nocompile" if "do not compile" in r.stdout or r.returncode == 2 else "caught %s" % c
                    break
        finally:
            open(p, "w").write(keep)
        log.write("\t".join((res,) + key) + "\n")
        log.flush()
finally:
    shutil.rmtree(scratch)
