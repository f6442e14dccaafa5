#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns planted-bug specs into /verif/seeded/<id>/ and confirms each in a scratch copy of /repo:
applies, builds, passes the stable tests, demo passes without and fails with the change.  SPEC.py defines BUGS, a list of
dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=rust source)."""
import json, os, shutil, subprocess, sys, runpy
seeded = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Exit 0: the library behaves; nonzero: it does not.  Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap '/bin/rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
prometrics = { path = "$repo" }
[workspace]
E
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_TERM_COLOR=never
(cd "$d" && cargo build -q --release --offline) 2>"$d/log" || { tail -n 20 "$d/log"; exit 3; }
timeout 200 "$d/target/release/demo"
'''
def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    scratch = "/tmp/plantrepo"
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in bugs:
        if only and b["id"] not in only: continue
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", scratch])
        sh("git checkout -q -- . && git clean -fdq", scratch)
        d = os.path.join(seeded, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = sh(f"bash {d}/demo.sh", scratch)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(scratch, f); s = open(p).read()
            n = s.count(old)
            if n < 1: print(b["id"], "EDIT NOT FOUND in", f, repr(old[:60])); ok = False; break
            s = s.replace(old, new) if b.get("all") else s.replace(old, new, 1)
            open(p, "w").write(s)
        if not ok: continue
        diff = sh("git diff", scratch).stdout
        open(d + "/patch.diff", "w").write(diff)
        t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", scratch)
        fails = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        bad = sh(f"bash {d}/demo.sh", scratch)
        good = clean.returncode == 0 and bad.returncode not in (0, 3) and not fails and t.returncode == 0
        print(b["id"], "OK" if good else "BAD", "clean", clean.returncode, "bugged", bad.returncode, "tests", fails[:3])
        if not good:
            print("  clean:", clean.stdout[-600:], "\n  bugged:", bad.stdout[-600:])
            if t.returncode: print(t.stdout[-800:])
    shutil.rmtree(scratch, ignore_errors=True)
main()
