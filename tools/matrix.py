#!/usr/bin/env python3
"""Development aid: runs the quick check of the property each planted bug names (or the given checks, with -x) against scratch copies
of /repo with the bug applied.  usage: matrix.py [-c C01,C02 | -x C01,C02] [bug ...]; -c: bugs of these properties only"""
import json, os, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
only = None
if args[:1] == ["-x"]:
    checks, args = args[1].split(","), args[2:]
elif args[:1] == ["-c"]:
    only, args = args[1].split(","), args[2:]
bugs = args or sorted(os.listdir(os.path.join(root, "seeded")))
scratch = tempfile.mkdtemp(prefix="matrix")
try:
    for b in bugs:
        d = os.path.join(root, "seeded", b)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        if only and prop not in only:
            continue
        copy = os.path.join(scratch, "r")
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        p = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            print(b, "DOES NOT APPLY", p.stderr.strip()[:100], flush=True)
            continue
        for c in checks or [prop]:
            t = time.time()
            r = subprocess.run([os.path.join(root, "bin/check"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, DOCRIA_SRC=copy, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            tail = "" if r.returncode == 1 and v else r.stdout[-300:] if r.returncode else ""
            print("%-28s %s %s (%.0f s) %s" % (b, c, "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR", time.time() - t, tail), flush=True)
finally:
    shutil.rmtree(scratch)
