"""Writes the objcopy --redefine-syms file from the simulator's own symbol table:
sim_X implements X, and __simp_X is the pointer that replaces __imp_X."""
import os, subprocess, sys
def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
out, objs = sys.argv[1], sys.argv[2:]
names = set()
for o in objs:
    for line in subprocess.run(["x86_64-w64-mingw32-nm", "--defined-only", o], capture_output=True, text=True, check=True).stdout.splitlines():
        s = line.split()[-1]
        if s.startswith("__simp_"):
            names.add(s[7:])
text = "".join(f"{n} sim_{n}\n__imp_{n} __simp_{n}\n" for n in sorted(names))
# Inline CRT wrappers: keep the code under test's copies apart from the simulator's own.
for n in ("_Z6printfPKcz", "_Z7fprintfP6_iobufPKcz", "_Z8vfprintfP6_iobufPKcPc", "_Z7vprintfPKcPc", "_Z7wprintfPKwz", "_Z8fwprintfP6_iobufPKwz"):
    text += f"{n} sut{n}\n"
write(out, text)
# Scenarios are no part of the process that exits.
write(out + ".sc", text.replace("atexit sim_atexit\n", "atexit sim_no_atexit\n"))
