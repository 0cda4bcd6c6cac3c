#!/usr/bin/env python3
"""Builds and runs one check: run.py <PROPERTY> [--tier quick|thorough] [--case ID] [--keep]

The harness of a property (harness/<id>*.cpp) is compiled together with /repo's current sources,
run in parallel shards over generated cases, and its monitors' reports are collected into
evidence/<ID>.json.  Exit 0: nothing violated.  Exit 1: VIOLATION line(s).  Exit 2: harness error.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ALTRO_REPO", "/repo")
sys.path.insert(0, HERE)
from specs import SPECS, FLAVORS  # noqa: E402

NPROC = os.cpu_count() or 8


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources(spec):
    src = [f for f in glob.glob(REPO + "/altro/**/*.cpp", recursive=True) if not f.endswith("/altro/main.cpp")]
    if spec.get("examples", False):
        src += [f for f in glob.glob(REPO + "/examples/**/*.cpp", recursive=True)]
    # files without code only cost compile time
    return [f for f in src if os.path.getsize(f) > 0 and re.search(r"[{;]", strip_comments(open(f).read()))]


def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t)
    return t


def build(prop, spec, flavor, work):
    """Compile every source with the flavour's flags, in parallel, and link. Returns the binary."""
    fl = FLAVORS[flavor]
    out = os.path.join(work, flavor)
    os.makedirs(out, exist_ok=True)
    units = []
    for name in spec["src"]:
        defs = []
        if isinstance(name, tuple):
            name, defs = name[0], ["-D" + d for d in name[1]]
        units.append((os.path.join(HERE, name), defs))
    units += [(f, []) for f in lib_sources(spec)]

    def one(i_u):
        i, (f, defs) = i_u
        o = os.path.join(out, "%d_%s.o" % (i, os.path.basename(f)[:-4]))
        cmd = fl["cc"] + defs + spec.get("defs", []) + ["-I" + REPO, "-I" + HERE, "-c", f, "-o", o]
        r = sh(cmd)
        return o, r, cmd

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, enumerate(units)))
    for o, r, cmd in res:
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("compilation failed: " + " ".join(cmd))
    exe = os.path.join(out, prop.lower())
    r = sh(fl["cc"] + [o for o, _, _ in res] + ["-o", exe, "-lfmt", "-lpthread"] + fl.get("link", []))
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("link failed")
    return exe


def load_known():
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


class Job:
    def __init__(self, name, exe, flavor, args, timeout, work, cases):
        self.name, self.exe, self.flavor, self.args = name, exe, flavor, args
        self.timeout, self.work, self.cases = timeout, work, cases
        self.violations, self.counters, self.samples, self.hashes = [], {}, [], set()
        self.evals = self.checks = 0
        self.notes = []
        self.restarts = 0
        self.errors = []

    def launch(self, extra, tag):
        out = os.path.join(self.work, self.name + tag + ".out")
        cur = os.path.join(self.work, self.name + tag + ".cur")
        err = os.path.join(self.work, self.name + tag + ".err")
        for p in (out, cur, err):
            if os.path.exists(p):
                os.unlink(p)
        env = dict(os.environ)
        env.update(FLAVORS[self.flavor].get("env", {}))
        cmd = FLAVORS[self.flavor].get("prefix", []) + [self.exe] + self.args + extra + ["--out", out, "--cur", cur]
        scratch = os.path.join(self.work, self.name + tag + ".d")
        os.makedirs(scratch, exist_ok=True)
        with open(err, "wb") as e:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL if not os.environ.get("MON_DEBUG") else None, stderr=e,
                                 env=env, cwd=scratch, start_new_session=True)
            try:
                rc = p.wait(self.timeout)
                timed_out = False
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
        curcase, curidx = None, 0
        if os.path.exists(cur):
            t = open(cur).read().split()
            if len(t) >= 2:
                curcase, curidx = int(t[0]), int(t[1])
        with open(err, "rb") as f:
            data = f.read()
            errtxt = (data[:20000] + b"\n...\n" + data[-20000:] if len(data) > 40000 else data).decode(errors="replace")
        return rc, timed_out, lines, curcase, curidx, errtxt

    def absorb(self, lines):
        done = False
        for l in lines:
            p = l.split("\t")
            if p[0] == "V" and len(p) >= 4:
                self.violations.append((p[1], int(p[2]), p[3]))
            elif p[0] == "C" and len(p) == 3:
                if p[1].startswith("max_"):
                    self.counters[p[1]] = max(self.counters.get(p[1], 0), int(p[2]))
                else:
                    self.counters[p[1]] = self.counters.get(p[1], 0) + int(p[2])
            elif p[0] == "S":
                self.samples.append(p[1])
            elif p[0] == "H":
                self.hashes.add(p[1])
            elif p[0] == "E":
                self.evals += int(p[1])
                self.checks += int(p[2])
            elif p[0] == "DONE":
                done = True
        return done

    def run(self):
        """Runs all cases; a crash or a confirmed hang is a violation of the case it happened in, and
        the shard goes on with the next case (a few times)."""
        start = 0
        timeouts = 0
        while True:
            rc, to, lines, cid, idx, err = self.launch(["--cases", str(self.cases), "--start", str(start)], "")
            if to:
                # A watchdog that fires is inconclusive: look at the case alone, then at the whole shard.
                self.absorb(lines)
                timeouts += 1
                if cid is None:
                    self.errors.append("no progress before the watchdog fired")
                    return
                confirmed = False
                for rep in range(2):
                    rc2, to2, lines2, _, _, err2 = self.launch(["--case", str(cid)], ".re%d" % rep)
                    if to2:
                        confirmed = True
                        break
                    self.absorb([l for l in lines2 if l.startswith("V")])
                if confirmed or timeouts >= 2:
                    self.violations.append(("hang", cid, "the case did not finish within %d s, twice" % self.timeout))
                    return
                start = idx  # once more from that case
                continue
            done = self.absorb(lines)
            if done and rc in (0, 1):
                return
            kind, msg = classify(rc, err)
            if kind is None or cid is None:
                self.errors.append("exit %s: %s" % (rc, err[-1500:]))
                return
            self.violations.append((kind, cid, msg))
            self.evals += max(0, idx - start)
            self.restarts += 1
            if self.restarts >= 3:
                return
            start = idx + 1
            if start >= self.cases:
                return


def classify(rc, err):
    m = re.search(r"Assert failed:\t([^\n]*)\n[^\n]*?Evaluated:\t'(.*?)' in", err)
    if m:
        return "assert:" + slug(m.group(2)), "assertion failed: " + m.group(1) + " " + m.group(2)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        fr = frames(err)
        return "tsan:" + slug(m.group(1).strip()) + ":" + slug("|".join(fr[:2])), m.group(1) + " at " + " / ".join(fr[:6])
    m = re.search(r"ERROR: AddressSanitizer: ([^\n ]*)", err)
    if m:
        fr = frames(err)
        return "asan:" + slug(m.group(1)) + ":" + slug("|".join(fr[:1])), m.group(0) + " at " + " / ".join(fr[:5])
    m = re.search(r"LeakSanitizer: detected memory leaks", err)
    if m:
        fr = frames(err)
        return "leak:" + slug("|".join(fr[:1])), "memory leak: " + " / ".join(fr[:5])
    m = re.search(r"([^\s:]+):\d+:\d+: runtime error: ([^\n]*)", err)
    if m:
        return "ubsan:" + slug(os.path.basename(m.group(1)) + ":" + m.group(2)[:50]), m.group(0)
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param)[^\n]*", err)
    if m and rc == 99:
        fr = re.findall(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: ([^\n]*)", err[m.start():])[:6]
        return "memcheck:" + slug(m.group(1)), m.group(0) + " " + " / ".join(fr)
    m = re.search(r"[^\n]*: Assertion `([^\n]*)' failed", err)
    if m:
        return "assert:" + slug(m.group(1)[:60]), m.group(0)
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", err)
    if m:
        return "terminate", m.group(0)
    if rc is not None and rc < 0:
        return "signal:%d" % -rc, "killed by signal %d: %s" % (-rc, err[-300:])
    return None, None


def frames(err):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:\(?/|<null>)", err):
        f = re.sub(r"\(.*", "", m.group(1))
        f = re.sub(r"<.*", "", f)
        if f.startswith(("altro", "mon", "gen")) or "altro" in f:
            out.append(f)
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:|-]+", "_", s)[:90]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only_case, keep, only_flavor = None, False, None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--case":
            only_case = a.pop(0)
        elif x == "--flavor":
            only_flavor = a.pop(0)
        elif x == "--keep":
            keep = True
        elif x == "--replay":
            rp = json.load(open(a.pop(0)))
            only_case, only_flavor = str(rp["case"]), rp.get("flavor")
        else:
            die("unknown argument " + x)
    spec = SPECS[prop]
    t0 = time.time()
    base = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix="altro_%s_" % prop, dir=base)
    try:
        rc = check(prop, spec, tier, seed, only_case, only_flavor, work, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept " + work)
    sys.exit(rc)


def check(prop, spec, tier, seed, only_case, only_flavor, work, t0):
    jobs = []
    flavors = spec["flavors"]
    exes = {}
    runs = [r for r in spec["runs"] if not only_flavor or r["flavor"] == only_flavor]

    def bld(f):
        return f, build(prop, spec, f, work)
    need = sorted({r["flavor"] for r in runs})
    with ThreadPoolExecutor(4) as ex:
        for f, e in ex.map(bld, need):
            exes[f] = e
    tb = time.time() - t0
    for ri, r in enumerate(runs):
        shards = r.get("shards", NPROC)
        cases = r[tier]
        factor = int(os.environ.get("VERIF_FACTOR", "1"))  # for soak runs
        cases *= factor
        timeout = r.get("timeout", {"quick": 150, "thorough": 3000}[tier]) * factor
        args = ["--seed", str(seed)] + (["--thorough"] if tier == "thorough" else []) + \
               (["--workload", str(r["workload"])] if "workload" in r else [])
        if only_case is not None:
            j = Job("r%d" % ri, exes[r["flavor"]], r["flavor"], args + ["--case", only_case], timeout, work, 1)
            jobs.append(j)
            continue
        for s in range(shards):
            jobs.append(Job("r%ds%d" % (ri, s), exes[r["flavor"]], r["flavor"],
                            args + ["--shard", str(s + 100 * ri)], timeout, work, cases))
    par = spec.get("parallel", NPROC)
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda j: j.run(), jobs))

    viol, counters, samples, hashes, evals, checks, errors = [], {}, [], set(), 0, 0, []
    for j in jobs:
        viol += [(k, c, m, j) for k, c, m in j.violations]
        for k, v in j.counters.items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        samples += j.samples[:1]
        hashes |= j.hashes
        evals += j.evals
        checks += j.checks
        errors += ["%s: %s" % (j.name, e) for e in j.errors]

    known = [(k, d) for p, k, d in load_known() if p == prop]
    new, seen_known = {}, {}
    for k, c, m, j in viol:
        hit = [d for kk, d in known if kk == k]
        if hit:
            seen_known.setdefault(k, hit[0])
        else:
            new.setdefault(k, (c, m, j))
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, d, "" if k in seen_known else " (not reached in this run)"))

    code = 0
    if new:
        code = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for k, (c, m, j) in sorted(new.items()):
            path = os.path.join(rdir, "%s_%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
            json.dump({"property": prop, "key": k, "case": c, "flavor": j.flavor, "message": m, "seed": seed,
                       "tier": tier, "args": j.args,
                       "replay": "python3 harness/run.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
            print("  [%s] case %d: %s" % (k, c, m[:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors:
        for e in errors[:5]:
            print(e)
        code = 2
    # A run that observed nothing decides nothing.
    minimum = spec.get("minimum", {})
    if code == 0 and only_case is None:
        for name, least in minimum.items():
            if counters.get(name, 0) < least:
                print("ERROR: inconclusive, counter %s=%d < %d" % (name, counters.get(name, 0), least))
                code = 2
        if evals == 0 or checks == 0:
            print("ERROR: no case was evaluated")
            code = 2
    wall = time.time() - t0
    if only_case is None:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
                           "samples": samples[:4] or ["(none)"], "monitor_checks": checks, "observed": counters,
                           "shards": len(jobs), "flavors": sorted({j.flavor for j in jobs})},
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d monitor checks, %d distinct, %d violation kinds, build %.1fs total %.1fs"
          % (prop, tier, seed, evals, checks, len(hashes), len(new), tb, wall))
    interesting = ", ".join("%s=%d" % kv for kv in sorted(counters.items()))
    if interesting:
        print("  observed: " + interesting)
    return code


if __name__ == "__main__":
    main()
