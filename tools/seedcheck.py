#!/usr/bin/env python3
"""seedcheck.py [--tests] [--prefix P] [-j N] [ID...]: for every planted bug, in a scratch copy: the stable tests
(--tests) and the check of its property. Prints one line per bug."""
import json, os, subprocess, sys, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]
tests = "--tests" in args
nocheck = "--no-check" in args
j = 2
if "-j" in args:
    j = int(args.pop(args.index("-j") + 1)); args.remove("-j")
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
stable = None
def run(i):
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    out = i.ljust(28)
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x" % (w, w))
        r = sh("git apply %s/patch.diff" % d, cwd=w)
        if r.returncode:
            return out + "DOES NOT APPLY " + r.stderr
        if tests:
            b = sh("CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g1' -DCMAKE_CXX_FLAGS=-DFMT_DEPRECATED_OSTREAM -DALTRO_BUILD_TESTS=ON -DALTRO_BUILD_EXAMPLES=ON -DALTRO_BUILD_BENCHMARKS=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C _build -j4", cwd=w)
            if b.returncode:
                return out + "BUILD FAILS " + b.stdout[-600:]
            t = sh("ctest --test-dir _build -j1 --timeout 120 -E '^TimerTest\\.' 2>&1 | sed -n '/tests passed/p;/Failed\\|Timeout/p'", cwd=w)
            out += "tests: " + " ".join(t.stdout.split("\n"))[:300] + " | "
            sh("rm -rf " + w + "/_build")
        if not nocheck:
            r = sh("python3 %s/harness/run.py %s" % (V, prop), env=dict(os.environ, ALTRO_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("  ")][:3]
            out += ("caught " if r.returncode == 1 and any("VIOLATION property=" + prop in l for l in v) else "MISSED rc=%d " % r.returncode) + " ".join(r.stdout.strip().split("\n")[-3:])[:260]
        return out
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(j) as ex:
    for l in ex.map(run, ids):
        print(l, flush=True)
