#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE NEEDS BREAKS < edit  (old ==> new, separated by a line '==>'; several edits by '####')
Writes seeded/ID/patch.diff and meta.json, checks that only lines of the base commit are replaced, then (with
--verify) builds a scratch copy, runs the stable tests and the demonstration with and without the change.
plant.py --verify ID [ID...]"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f0b42e1"
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def create(i, prop, path, needs, breaks, text):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant")
    sh("git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x" % (R, w, w))
    for ed in text.split("\n####\n"):
        f = path
        if ed.startswith("@"):
            f, ed = ed[1:].split("\n", 1)
        old, new = ed.split("\n==>\n") if "\n==>\n" in ed else (ed.split("\n==>")[0], "")
        new = new.rstrip("\n")
        s = open(w + "/" + f).read()
        if s.count(old) != 1:
            print("edit matches %d times:\n%s" % (s.count(old), old))
            shutil.rmtree(w)
            return 1
        open(w + "/" + f, "w").write(s.replace(old, new))
    diff = sh("git diff -U3", cwd=w).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # blame the removed lines
    cur, ln, bad = None, 0, []
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (R, ln, ln, cur)).stdout
            if not b.startswith("^" + BASE):
                bad.append(b.strip())
            ln += 1
        elif not l.startswith("+") and not l.startswith("\\"):
            ln += 1
    if bad:
        print("NOT ORIGINAL:", *bad, sep="\n  ")
    print(diff)
    return 0


def verify(ids):
    w = tempfile.mkdtemp(prefix="verify", dir="/tmp")
    for i in ids:
        d = V + "/seeded/" + i
        t = w + "/repo"
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        sh("git -C %s archive HEAD | tar -x -C %s" % (R, t))
        dd = w + "/demo"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd)
        a = sh("bash %s/demo.sh" % dd, cwd=t)
        p = sh("git init -q . ; git apply %s/patch.diff" % d, cwd=t)
        b = sh("bash %s/demo.sh" % dd, cwd=t)
        print(i, "clean", a.returncode, "patched", b.returncode, (b.stdout + b.stderr)[-300:].strip(), p.stderr)
        if a.returncode:
            print("   clean output:", (a.stdout + a.stderr)[-1500:])
    shutil.rmtree(w)


if sys.argv[1] == "--verify":
    verify(sys.argv[2:])
else:
    sys.exit(create(*sys.argv[1:6], sys.stdin.read()))
