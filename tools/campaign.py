#!/usr/bin/env python3
"""Scratch tool: campaign.py FILE [-j N] [--only PREFIX]
FILE holds mutants, each:
  === id | C01,C05 | altro/ilqr/ilqr.hpp
  old text
  ==>
  new text          (several edits separated by a line ####; a first line @path names another file)
Each is applied to a scratch copy of /repo and the named checks are run on it (quick tier)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = int(a[a.index("-j") + 1]) if "-j" in a else 2
only = a[a.index("--only") + 1].split(",") if "--only" in a else None
muts = []
for line in open(a[0]):
    if line.startswith("=== "):
        i, props, f = [x.strip() for x in line[4:].split("|")]
        muts.append([i, props.split(","), f, ""])
    elif muts:
        muts[-1][3] += line


def run(m):
    i, props, f, text = m
    d = tempfile.mkdtemp(prefix="camp_")
    out = []
    try:
        subprocess.run("git -C /repo archive HEAD altro examples | tar -x -C " + d, shell=True, check=True)
        for ed in text.strip("\n").split("\n####\n"):
            p = f
            if ed.startswith("@"):
                p, ed = ed[1:].split("\n", 1)
            if "\n==>\n" in ed:
                old, new = ed.split("\n==>\n")
            else:
                assert ed.endswith("\n==>"), "bad edit " + i
                old, new = ed[:-4], ""
            t = open(os.path.join(d, p)).read()
            if old not in t:
                return "%-28s TEXT NOT FOUND: %s" % (i, old)
            open(os.path.join(d, p), "w").write(t.replace(old, new, 1))
        for c in props:
            t0 = __import__("time").time()
            r = subprocess.run([sys.executable, V + "/harness/run.py", c], env=dict(os.environ, ALTRO_REPO=d, VERIF_EVIDENCE="/tmp/camp_ev"), capture_output=True, text=True)
            lines = [l.strip() for l in r.stdout.splitlines() if l.startswith("  [") or "ERROR" in l]
            res = {0: "MISSED", 1: "caught"}.get(r.returncode, "exit %d" % r.returncode)
            out.append("%-28s %s %s (%d s) %s" % (i, c, res, __import__("time").time() - t0, lines[0][:170] if lines else r.stderr[-200:] if r.returncode not in (0, 1) else ""))
    except Exception as e:
        return "%-28s ERROR %r" % (i, e)
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


todo = [m for m in muts if not only or any(m[0].startswith(o) for o in only)]
with ThreadPoolExecutor(j) as ex:
    for s in ex.map(run, todo):
        print(s, flush=True)
