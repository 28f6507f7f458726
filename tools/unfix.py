#!/usr/bin/env python3
"""Development aid: takes each repair back in a scratch copy of /repo and runs the quick check of the property it is recorded under.
usage: unfix.py [-p C01,C02] [commit ...]"""
import os, re, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = None
if args[:1] == ["-p"]:
    only, args = args[1].split(","), args[2:]
scratch = tempfile.mkdtemp(prefix="unfix")
try:
    for line in open(os.path.join(root, "known_findings.txt")):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
        if not m or only and m.group(1) not in only or args and not any(m.group(2).startswith(a[:7]) for a in args):
            continue
        prop, commit, what = m.groups()
        copy = os.path.join(scratch, "r")
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "status"], stdout=subprocess.DEVNULL)
        diff = subprocess.run(["git", "-C", copy, "diff", commit, commit + "~1"], stdout=subprocess.PIPE, check=True).stdout
        p = subprocess.run(["git", "-C", copy, "apply", "--3way"], input=diff, stderr=subprocess.PIPE)
        if p.returncode:
            print(prop, commit, "CANNOT BE TAKEN BACK", what[:60], flush=True)
            continue
        t = time.time()
        r = subprocess.run([os.path.join(root, "bin/check"), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, DOCRIA_SRC=copy, VERIF_TIER="quick", VERIF_SEED="1"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        tail = "" if r.returncode == 1 and v else r.stdout[-300:] if r.returncode else ""
        print(prop, commit, "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR", "(%.0f s)" % (time.time() - t), what[:90], tail, flush=True)
finally:
    shutil.rmtree(scratch)
