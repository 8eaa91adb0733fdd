"""Makes harness/asmforms.txt: the instruction forms that both GNU as and the assembler under test accept.

Usage: asmforms.py MNEMONICS-FILE   (one mnemonic per line).  Run once; the file is committed.
"""
import itertools, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
from checks.C13 import Drv

KINDS = {
    "al": "%al", "ax": "%ax", "eax": "%eax", "rax": "%rax", "cl": "%cl", "dx": "%dx",
    "r8": "%bl", "r8x": "%sil", "r8y": "%r9b", "r8h": "%bh", "r16": "%bx", "r16y": "%r10w", "r32": "%ebx", "r32y": "%r11d", "r64": "%rbx", "r64y": "%r12",
    "i1": "$1", "i8": "$-5", "u8": "$200", "i16": "$0x1234", "u16": "$0xfedc", "i32": "$0x12345678", "n32": "$-0x12345678", "u32": "$0xfedcba98", "i64": "$0x123456789abc", "sym": "$foo",
    "m": "8(%rbx,%rcx,4)", "mr": "foo(%rip)", "ms": "%fs:(%rbx)", "x": "%xmm3", "xy": "%xmm9", "mm": "%mm3", "st0": "%st", "st": "%st(3)", "cr": "%cr3", "db": "%db6", "seg": "%ds", "segf": "%fs",
    "lab": "L0", "ext": "foo", "ir": "*%rbx", "iry": "*%r12", "im": "*8(%rbx,%rcx,4)", "ma": "0x1234",
}


def gas_ok(lines, d):
    src = os.path.join(d, "g.s")
    open(src, "w").write("".join("%s\n" % l for l in lines) + "L0:\n")
    p = subprocess.run(["as", "-o", os.path.join(d, "g.o"), src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    bad = set(int(m) - 1 for m in re.findall(r":(\d+): (?:Error|Warning)", p.stderr.decode()))
    return [i not in bad for i in range(len(lines))]


def main():
    mn = [l.strip() for l in open(sys.argv[1]) if l.strip()]
    d = build.scratch_dir()
    b = build.full(d, "p")
    exe = build.driver(d, "fuzzdrv", ["fuzzdrv.c"], [], san=False, root=b.root, libs=[b.libtcc, "-ldl", "-lm", "-lpthread"])
    drv = Drv(exe, b.tccdir, os.path.join(d, "w"), 10, 0, {})
    ks = list(KINDS)
    out = []
    for m in mn:
        forms = [()] + [(k,) for k in ks] + list(itertools.product(ks, ks)) + ([("i8", a, c) for a in ks for c in ks] + [("i32", a, c) for a in ks for c in ks] + [("u8", a, c) for a in ks for c in ks] + [("cl", a, c) for a in ks for c in ks] if 1 else [])
        lines = [m + " " + ", ".join(KINDS[k] for k in f) for f in forms]
        ok = gas_ok(lines, d)
        for f, l, o in zip(forms, lines, ok):
            if not o:
                continue
            src = os.path.join(d, "t.s")
            open(src, "w").write(l + "\nL0:\n")
            r = drv.run("o", src)
            if r[:2] == ("e", 0) and not r[3].strip():
                out.append(" ".join((m,) + f))
    sys.stdout.write("\n".join(out) + "\n")


main()
