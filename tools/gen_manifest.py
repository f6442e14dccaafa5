#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = ("stateless model checking of the real code: controlled scheduler over every atomic and lock step, sleep-set reduction, then preemption-bounded",
  "All schedules of every listed program are executed on the real code (small programs completely, larger ones up to the stated number of preemptions; evidence lists which). "
  "Assumes sequentially consistent memory and that the listed programs (2-3 threads, 1-3 calls each) represent the use. Trusts the interposed runtime (self-tested on every run against litmus programs with known numbers of outcomes).")
SEQ = ("exhaustive bounded enumeration of operation sequences / inputs on the real code against a reference model (explicit-state)",
  "Every sequence or input up to the bounds in the evidence is run on the real code and compared with an independent reference after each step. Assumes the small alphabets of boundary values represent the rest; trusts the reference model.")
BOTH = ("model checking of the real code: exhaustive bounded operation sequences and preemption-bounded schedule exploration", SCHED[1] + " " + SEQ[1])
FAULT = ("exhaustive enumeration of fault points and operation sequences on the real code against a reference model", SEQ[1])
kind = {}
for i in "C01 C02 C03 C04 C05".split(): kind[i] = SCHED
for i in "C06 C07 F01 T01 D01 M01".split(): kind[i] = BOTH
kind["P01"] = FAULT
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = kind.get(p, SEQ)
    checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash mc/build.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: atomics, locks, clocks and /proc are intercepted below the unmodified source (see DESIGN.md)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
