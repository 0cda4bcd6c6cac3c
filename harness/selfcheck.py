#!/usr/bin/env python3
"""Setup: checks that the tools the checks need are here and that every registered harness source exists."""
import os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from specs import SPECS
bad = [t for t in ("clang++", "g++", "valgrind") if not shutil.which(t)]
for p, s in SPECS.items():
    for f in s["src"]:
        f = f[0] if isinstance(f, tuple) else f
        if not os.path.exists(os.path.join(HERE, f)):
            bad.append(f)
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(os.path.dirname(HERE), d), exist_ok=True)
print("missing: %s" % bad if bad else "ok: %d checks" % len(SPECS))
sys.exit(1 if bad else 0)
