#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and harness/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from specs import SPECS
NAMES = {"asan": "ASan/bounds-instrumented build", "ubsan": "ASan+UBSan build", "tsan": "ThreadSanitizer build",
         "plain": "plain build", "memcheck": "valgrind memcheck"}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i not in SPECS:
        na.append({"property": i, "reason": "no check yet"})
        continue
    s = SPECS[i]
    fl = []
    for f in s["flavors"]:
        if NAMES[f] not in fl:
            fl.append(NAMES[f])
    checks.append({
        "property": i,
        "quick_cmd": "python3 harness/run.py %s --tier quick" % i,
        "thorough_cmd": "python3 harness/run.py %s --tier thorough" % i,
        "technique": s.get("technique", "runtime monitor over generated workloads") + " (" + ", ".join(fl) + ")",
        "level": "exploration",
        "level_note": s.get("note", "Every monitored execution satisfied the property; executions not generated are not covered. "
                                    "Trusts the harness's own reference computations and the sanitizer runtime.")})
json.dump({"version": 1, "setup_cmd": "python3 harness/selfcheck.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: everything is observed through the public API, user-supplied functions and sanitizers. "
                    "See DESIGN.md; repaired and known defects are in known-findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
