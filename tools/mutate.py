#!/usr/bin/env python3
"""mutate.py OUT [FILE...]: mechanical mutations of /repo/src, one at a time, in a private copy: those that compile and pass the existing
tests are run against the checks (cheapest first) until one reports a violation.  Prints the ones no check notices, to be judged by hand."""
import json, os, re, shutil, subprocess, sys
base = f"/tmp/mutate{os.getpid()}"
repo, ver = base + "/repo", base + "/verif"
out = open(sys.argv[1], "a", buffering=1)
done = set(l.split("|")[0] for l in open(sys.argv[1])) if os.path.exists(sys.argv[1]) else set()
files = sys.argv[2:] or ["src/atomic.rs", "src/timestamp.rs", "src/label.rs", "src/metric.rs", "src/registry.rs", "src/bucket.rs", "src/quantile.rs", "src/aggregated_metrics.rs",
    "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/metrics/process.rs", "src/metrics/builder.rs"]
FIRST = {"counter": "A01 C01", "gauge": "A02 C02", "histogram": "H01 H02 C03", "summary": "S01 C04", "label": "L01 C05 N01 L02", "timestamp": "T01", "registry": "G02 G01 C06",
    "aggregated": "G01", "process": "P01", "builder": "B01", "metric": "N01 E01 G01", "atomic": "A01 A02 C02 C01", "bucket": "H01 G01", "quantile": "S01 N01"}
ORDER = "T01 A01 A02 H01 H02 L02 D01 F01 N01 L01 S01 G02 E01 M01 C01 C02 C03 C05 B01 C04 P01 G01 C07 C06".split()
SUBS = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
    (r"cmp::max", "cmp::min"), (r"cmp::min", "cmp::max"), (r"if !", "if "), (r"\(!", "("), (r"if let Some\(ref (\w+)\) = ([\w.]+) \{", r"if let (Some(ref \1), false) = (\2.as_ref(), true) {"),
    (r"\bSome\(([^()]*)\)", "None"), (r"\.floor\(\)", ".ceil()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"), (r"is_sign_positive", "is_sign_negative"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b1000\b", "999"), (r"INFINITY", "MAX"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"swap_remove", "remove"),
    (r"\.clone\(\)", ".clone()"), (r"\\\\\\\\", r"\\\\"), (r"'_'", "'-'"), (r"\.skip\(1\)", ".skip(2)"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"-duration", "duration"), (r"-to_millis", "to_millis"),
    (r"add\(-", "add("), (r"'a'\.\.='z'", "'a'..='y'"), (r"'A'\.\.='Z'", "'B'..='Z'"), (r"'0'\.\.='9'", "'1'..='9'"), (r"utime", "cutime"), (r"stime", "cstime"), (r"subsec_nanos", "subsec_micros")]
def sh(cmd, cwd, t=400):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 99, "timeout")
def mutants(f):
    src = open("/repo/" + f).read().split("#[cfg(test)]\nmod test")[0]
    lines = src.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "extern", "mod ", "impl", "pub struct", "struct", "pub enum", "fn ", "pub fn", "pub(crate) fn", "where", "type ")): continue
        seen = set()
        for a, b in SUBS:
            for m in re.finditer(a, l):
                new = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                if new != l and new not in seen: seen.add(new); yield n, l, new
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")")) and s.count("(") == s.count(")") and re.match(r"[\w.*]+(\(|\.| [+-]?= |!)", s):
            yield n, l, ""
def main():
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", repo]); subprocess.check_call(["cp", "-a", "/verif", ver])
    for f in files:
        orig = open("/repo/" + f).read()
        for n, old, new in mutants(f):
            key = f"{f}:{n+1}:{new.strip()}".replace("|", "¦")
            if key in done: continue
            lines = orig.split("\n"); lines[n] = new
            open(os.path.join(repo, f), "w").write("\n".join(lines))
            t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo, 60)
            if t.returncode != 0:
                out.write(f"{key}| {'tests' if 'test result' in t.stdout else 'build' if t.returncode != 99 else 'hang'}\n"); continue
            stem = next((k for k in FIRST if k in f.split('/')[-1]), "")
            order = FIRST.get(stem, "").split(); order += [c for c in ORDER if c not in order]
            res = None; odd = []
            for c in order:
                r = sh(f"unshare -Urm bash -c 'mount --bind {repo} /repo && mount --bind {ver} /verif && cd /verif && timeout 900 bash check.sh {c} quick'", "/tmp", 950)
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = c; break
                if r.returncode != 0: odd.append(f"{c}:rc={r.returncode}")
                if r.returncode == 2: break
            out.write(f"{key}| {'caught ' + res if res else 'UNNOTICED'} {' '.join(odd)}   [{old.strip()}]\n")
        shutil.copy("/repo/" + f, os.path.join(repo, f))
    shutil.rmtree(base, ignore_errors=True)
main()
