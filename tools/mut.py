#!/usr/bin/env python3
"""Scratch tool: mut.py FILE CHECKS <<< 'old ==> new' applies a textual change to a scratch copy of /repo and runs the checks on it."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, checks = sys.argv[1], sys.argv[2].split(",")
old, new = sys.stdin.read().rstrip("\n").split(" ==> ")
d = tempfile.mkdtemp(prefix="mut_")
try:
    subprocess.run("git -C /repo archive HEAD altro examples | tar -x -C " + d, shell=True, check=True)
    p = os.path.join(d, f)
    t = open(p).read()
    assert old in t, "text not found"
    open(p, "w").write(t.replace(old, new, 1))
    for c in checks:
        r = subprocess.run([sys.executable, V + "/harness/run.py", c], env=dict(os.environ, ALTRO_REPO=d), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  [") or "ERROR" in l]
        print("%s exit %d %s" % (c, r.returncode, lines[0][:260] if lines else ""))
finally:
    shutil.rmtree(d)
