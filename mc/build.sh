#!/bin/bash
# Builds the model checker against /repo's current working tree.  Usage: build.sh; prints the binary's path.
set -e
export HOME="${HOME:-/root}"
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="/usr/local/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
T="$here/target"
mkdir -p "$T/rt"
gcc -O2 -g -fno-omit-frame-pointer -Wall -Wextra -c rt/rt.c -o "$T/rt/rt.o.$$"
cmp -s "$T/rt/rt.o.$$" "$T/rt/rt.o" && /bin/rm -f "$T/rt/rt.o.$$" || { mv "$T/rt/rt.o.$$" "$T/rt/rt.o"; touch src/main.rs; }
# The instrumentation pass turns every atomic operation into a call to __tsan_atomic*, which rt.o provides, and every plain
# memory access into a call to __tsan_read* or __tsan_write* followed by the access.
export RUSTFLAGS="-Cpasses=forceattrs,tsan -Cllvm-args=-force-attribute=sanitize_thread -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-read-before-write=1 -Clink-arg=$T/rt/rt.o -Awarnings -Cforce-frame-pointers=yes"
cargo build --release --offline --target x86_64-unknown-linux-gnu >&2
B="$T/x86_64-unknown-linux-gnu/release/mc"
[ "$B.run" -nt "$B" -a "$B.run" -nt plain.py ] || { python3 plain.py "$B" "$B.run.$$" /repo/ >&2 && mv "$B.run.$$" "$B.run"; }
echo "$T/x86_64-unknown-linux-gnu/release/mc.run"
