#!/usr/bin/env python3
"""plain.py BINARY OUT PREFIX: leaves the instrumentation of plain memory accesses (calls of __tsan_read*, __tsan_write*) only
where the source file of the access, or of a function it is inlined into, begins with PREFIX; elsewhere the call becomes a no-op
(of __tsan_mem*, a call of mc_mem*)."""
import re, struct, subprocess, sys
src, out, prefix = sys.argv[1:]
sites, to = [], []  # the addresses of the calls, and what they become calls of
for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", src], stdout=subprocess.PIPE, check=True, text=True).stdout.splitlines():
    if "__tsan_" in l:
        m = re.match(r"\s*([0-9a-f]+):\s+(?:call|jmp)\s+[0-9a-f]+ <__tsan_((unaligned_)?(read|write)\d+|(mem\w+))>", l)
        if m: sites.append(int(m.group(1), 16)), to.append(m.group(5))
if not sites: sys.exit("plain.py: no instrumented accesses")
# One answer per address, ended by an empty line: the frames, innermost first.
sym = subprocess.run(["llvm-symbolizer", "--obj=" + src, "--inlines", "--functions=none"], input="\n".join(hex(a) for a in sites) + "\n", stdout=subprocess.PIPE, check=True, text=True).stdout
answers = sym.rstrip("\n").split("\n\n")
if len(answers) != len(sites): sys.exit("plain.py: %d answers for %d addresses" % (len(answers), len(sites)))
data = bytearray(open(src, "rb").read())
phoff, phentsize, phnum = struct.unpack_from("<Q", data, 32)[0], *struct.unpack_from("<HH", data, 54)
load = []
for i in range(phnum):
    t, _, off, va, _, fs, _, _ = struct.unpack_from("<IIQQQQQQ", data, phoff + i * phentsize)
    if t == 1: load.append((va, off, fs))
syms = {f[2]: int(f[0], 16) for f in (l.split() for l in subprocess.run(["nm", src], stdout=subprocess.PIPE, check=True, text=True).stdout.splitlines()) if len(f) == 3}
kept = 0
for a, t, frames in zip(sites, to, answers):
    if any(f.startswith(prefix) for f in frames.splitlines()):
        kept += 1
        continue
    off = next(o + a - va for va, o, fs in load if va <= a < va + fs)
    if data[off] not in ((0xE8, 0xE9) if t else (0xE8,)): sys.exit("plain.py: no call at %x" % a)
    data[off:off + 5] = data[off:off + 1] + struct.pack("<i", syms["mc_" + t] - a - 5) if t else b"\x0f\x1f\x44\x00\x00"
print("plain.py: %d of %d plain accesses remain instrumented" % (kept, len(sites)))
open(out, "wb").write(data)
import os
os.chmod(out, 0o755)
