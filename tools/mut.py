#!/usr/bin/env python3
"""mut.py SPEC.py [--all] [--timed] [ID...]: runs the checks against the changes of SPEC.py (see plant.py; 'property' may be a list,
'demo' may be missing) without touching /repo: copies of /repo and /verif are mounted over the real ones in a private namespace.
Prints per change which checks report a violation.  With 'equivalent': True the checks must stay quiet."""
import json, os, shutil, subprocess, sys, runpy
base = f"/tmp/mut{os.getpid()}"
args = sys.argv[2:]
allc = "--all" in args
only = [a for a in args if not a.startswith("--")]
IDS = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
if sys.argv[1] == "seeded":
    bugs = [dict(id=i, property=json.load(open(f"/verif/seeded/{i}/meta.json"))["property"], patch=f"/verif/seeded/{i}/patch.diff") for i in sorted(os.listdir("/verif/seeded"))]
else:
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
for b in bugs:
    if only and b["id"] not in only: continue
    repo, ver = base + "/repo", base + "/verif"
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["cp", "-a", os.environ.get("REPO","/repo"), repo])
    if not os.path.exists(ver): subprocess.check_call(["cp", "-a", "/verif", ver])
    subprocess.check_call("git checkout -q -- . && git clean -fdq", shell=True, cwd=repo)
    if "patch" in b: subprocess.check_call(["git", "apply", b["patch"]], cwd=repo)
    bad = False
    for f, old, new in b.get("edits", []):
        p = os.path.join(repo, f); s = open(p).read()
        if old not in s: print(b["id"], "EDIT NOT FOUND", f, repr(old[:70])); bad = True; break
        open(p, "w").write(s.replace(old, new) if b.get("all") else s.replace(old, new, 1))
    if bad: continue
    if "--test" in args:
        t = subprocess.run("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E 'FAILED|^error' | head -5", shell=True, cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        if t.strip(): print(b["id"], "TESTS:", t.strip()[:300])
    props = b["property"] if isinstance(b["property"], list) else [b["property"]]
    if allc: props = IDS
    hit, other = [], []
    for c in props:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {repo} /repo && mount --bind {ver} /verif && cd /verif && time timeout 900 bash check.sh {c} quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if r.returncode == 1 and v: hit.append(c)
        elif r.returncode != 0: other.append(f"{c}:rc={r.returncode} {r.stdout[-300:]}")
        if "-v" in args or (b.get("equivalent") and v): print(r.stdout[-1500:])
    eq = b.get("equivalent")
    print(("equivalent " if eq else "") + b["id"], props if not allc else "", "CAUGHT by" if hit else ("quiet" if eq else "MISSED"), *hit, *other, "<<<<<" if eq and (hit or other) else "", flush=True)
shutil.rmtree(base, ignore_errors=True)
