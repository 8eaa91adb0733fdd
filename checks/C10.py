"""C10: the assembler against GNU as."""
import os, re
from vf import build, cbatch, proc
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FORMS = {}
for _l in open(os.path.join(HERE, "harness", "asmforms.txt")):
    _p = _l.split()
    FORMS[_p[0]] = [() if f == "-" else tuple(f.split(",")) for f in _p[1:]]
MNEM = list(FORMS)
SHORT = ("loop", "loope", "loopne", "loopnz", "loopz", "jecxz")

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"]
R64Y = ["r%d" % i for i in range(8, 16)]
SYMS = ["foo", "bar", "dat"]


def imm(d, lo, hi):
    n = hi - lo + 1
    return d.pick([lo, hi, lo + d.draw(n), lo + d.draw(min(n, 8)), hi - d.draw(min(n, 8)), lo + d.draw(min(n, 256))])


def mem(d, rip=False):
    s = d.pick(SYMS)
    k = d.draw(6)
    disp = ["", str(d.draw(128)), "-%d" % (1 + d.draw(128)), "0x%x" % d.draw(1 << 31), "-0x%x" % (1 + d.draw(1 << 31)), d.pick([s, s + "+%d" % d.draw(100), s + "-%d" % d.draw(100)])][k]
    if rip:
        return (d.pick([s, s, s + "+%d" % d.draw(1000), "L%d" % 0, str(d.draw(1000))])) + "(%rip)"
    r32 = d.draw(8) == 7
    regs = R64 + R64Y
    nm = lambda r: "%" + (r if not r32 else r + "d" if r[1:].isdigit() else "e" + r[1:])
    k = d.draw(4)
    if k == 0:
        return "%s(%s)" % (disp, nm(d.pick(regs)))
    idx = nm(d.pick([r for r in regs if r != "rsp"]))
    sc = d.pick(["", ",1", ",2", ",4", ",8"])
    if k < 3:
        return "%s(%s,%s%s)" % (disp, nm(d.pick(regs)), idx, sc)
    return "%s(,%s%s)" % (disp or "0", idx, sc)


def operand(d, k, lab):
    if k in ("al", "ax", "eax", "rax", "cl", "dx"):
        return "%" + k
    f = {
        "r8": lambda: "%" + d.pick(["al", "cl", "dl", "bl"]), "r8x": lambda: "%" + d.pick(["spl", "bpl", "sil", "dil"]), "r8y": lambda: "%%r%db" % d.int(8, 15), "r8h": lambda: "%" + d.pick(["ah", "ch", "dh", "bh"]),
        "r16": lambda: "%" + d.pick(R64)[1:], "r16y": lambda: "%%r%dw" % d.int(8, 15), "r32": lambda: "%e" + d.pick(R64)[1:], "r32y": lambda: "%%r%dd" % d.int(8, 15),
        "r64": lambda: "%" + d.pick(R64), "r64y": lambda: "%" + d.pick(R64Y),
        "i1": lambda: "$1", "i8": lambda: "$%d" % imm(d, -128, 127), "u8": lambda: "$%d" % imm(d, 128, 255), "i16": lambda: "$%d" % imm(d, 256, 32767), "u16": lambda: "$0x%x" % imm(d, 32768, 65535),
        "i32": lambda: "$0x%x" % imm(d, 65536, (1 << 31) - 1), "n32": lambda: "$-0x%x" % imm(d, 129, 1 << 31), "u32": lambda: "$0x%x" % imm(d, 1 << 31, (1 << 32) - 1), "i64": lambda: "$0x%x" % imm(d, 1 << 32, (1 << 63) - 1),
        "sym": lambda: "$" + d.pick(SYMS), "m": lambda: mem(d), "mr": lambda: mem(d, True), "ms": lambda: d.pick(["%fs:", "%gs:"]) + mem(d),
        "x": lambda: "%%xmm%d" % d.draw(8), "xy": lambda: "%%xmm%d" % d.int(8, 15), "mm": lambda: "%%mm%d" % d.draw(8), "st0": lambda: "%st", "st": lambda: "%%st(%d)" % d.draw(8), "cr": lambda: "%cr" + d.pick("0234"), "db": lambda: "%%db%d" % d.draw(8),
        "seg": lambda: "%" + d.pick(["ds", "es", "ss"]), "segf": lambda: "%" + d.pick(["fs", "gs"]), "lab": lab, "ext": lambda: d.pick(SYMS), "ir": lambda: "*%" + d.pick(R64), "iry": lambda: "*%" + d.pick(R64Y),
        "im": lambda: "*" + mem(d), "ma": lambda: "0x%x" % d.draw(1 << 31)}
    return f[k]()


SYN = [(re.compile(p), r) for p, r in [
    (r"\bmovabs\b", "mov"), (r"\b0x0\(", "("), (r"\s*#.*", ""), (r"\$1,", "$0x1,"), (r"\s+", " "), (r"^(rex\.\w+ )(push|pop|call|jmp|ret)", r"\2"), (r"\bjmp\b", "jmp"), (r"^rex.W nop$", "nop"), (r"^data16 (?=\w+w )", ""), (r"^data16 (?=mov .*%[defgs]s\b)", "")]]


def w32(r):
    """the 32-bit name of a register"""
    m = re.match(r"r(\d+)[dw]?$", r)
    if m:
        return "r%sd" % m[1]
    return {3: "e" + r[1:], 2: "e" + r}[len(r)] if r[-1] in "xpi" else r


def norm(t):
    for p, r in SYN:
        t = p.sub(r, t)
    t = t.strip()
    m = re.match(r"xchg (%\w+),(%\w+)$", t)
    if m:
        return "nop" if m[1] == m[2] and re.match(r"%r(\d+$|..$)", m[1]) else "xchg " + ",".join(sorted(m.groups()))
    m = re.match(r"(verr|verw|lldt|ltr|sldt|str|lar|lsl) (.*)$", t) or re.match(r"(mov) (%[c-gs]s,%[^,]*|%[^,]*,%[c-gs]s)$", t)
    if m:
        # only the low 16 bits of a source count, and writing 32 bits clears the others
        ops = m[2].split(",") if "(" not in m[2] else [m[2][:m[2].index(")") + 1]] + m[2][m[2].index(")") + 1:].split(",")[1:]
        for i, o in enumerate(ops):
            src = i == 0 and m[1] not in ("sldt", "str")
            if o.startswith("%") and not (m[1] == "mov" and o[2:] == "s") and "(" not in o and (src or not re.match(r"%([a-z]{2}|r\d+w)$", o)):
                ops[i] = "%" + w32(o[1:])
        t = m[1] + " " + ",".join(ops)
    return t


REL = re.compile(r"([0-9a-f]+): (R_X86_64_\w+)\s+([^\s]+)")


def reloc(l, a, n, rels):
    for q in REL.finditer(l):
        sym, add = re.match(r"(.*?)([+-]0x[0-9a-f]+)?$", q[3]).groups()
        add = int(add or "0", 16)
        ty = q[2][9:]
        if ty in ("PC32", "PLT32", "GOTPCREL", "GOTPCRELX", "REX_GOTPCRELX", "PC8", "PC16", "PC64"):
            add += a + n - int(q[1], 16)
            ty = {"PLT32": "PC32", "GOTPCRELX": "GOTPCREL", "REX_GOTPCRELX": "GOTPCREL"}.get(ty, ty)
        rels.append((ty, sym, add))


def disas(obj, cwd):
    """[(address, length, text, [(type, symbol, addend from the operand's end or absolute)])]"""
    r = proc.run(["objdump", "-dr", "-w", "--insn-width=16", obj], timeout=30, cwd=cwd)
    res = []
    for l in r.out.decode("latin-1").split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*(.*)$", l)
        if not m:
            if res and re.match(r"\s+[0-9a-f]+: R_X86", l):
                # a second relocation
                a, n, text, rels = res[-1]
                reloc(l, a, n, rels)
            continue
        a, n = int(m[1], 16), len(m[2].split())
        text = re.split(r"\t(?=[0-9a-f]+: R_X86)", m[3])[0]
        rels = []
        reloc(m[3], a, n, rels)
        res.append((a, n, text, rels))
    return res


def local_syms(obj, cwd):
    """symbols defined in a section: name -> (section, value, is local)"""
    r = proc.run(["objdump", "-t", "-w", obj], timeout=30, cwd=cwd)
    res = {}
    for l in r.out.decode("latin-1").split("\n"):
        m = re.match(r"([0-9a-f]{16}) (.).{6} (\S+)\t[0-9a-f]{16}\s+(?:\.hidden )?(\S+)$", l)
        if m and m[3][0] != "*":
            res[m[4]] = (m[3], int(m[1], 16), m[2] == "l")
    return res


def tidy(t):
    return re.sub(r"(?<![\w#])(-?0x0|0x0)(?=\()", "", re.sub(r"\s*#.*", "", t))


def listing(obj, cwd):
    """normalised disassembly: addresses within the code become instruction numbers"""
    ds = disas(obj, cwd)
    loc = local_syms(obj, cwd)
    at = {a: i for i, (a, n, t, r) in enumerate(ds)}
    if ds:
        at[ds[-1][0] + ds[-1][1]] = len(ds)
    where = lambda v: "@%d" % at[v] if v in at else "?"
    out = []
    for a, n, t, rels in ds:
        t0 = t
        dest, keep = None, []
        for ty, sym, add in rels:
            if sym in loc:
                sec, v, islocal = loc[sym]
                if sec == ".text" and ty.startswith("PC"):
                    dest = where(v + add)
                    continue
                if islocal:
                    sym, add = sec, where(v + add) if sec == ".text" else v + add
            elif ty.startswith("PC"):
                dest = "@"
            keep.append(({"32S": "32"}.get(ty, ty), sym, str(add)))
        m = re.match(r"(.*\s)([0-9a-f]+) <[^>]*>$", t)
        if m and "#" not in t:
            t = m[1] + (dest or where(int(m[2], 16)))
        m = re.search(r"(-?0x[0-9a-f]+)?\(%rip\)", t)
        if m:
            if dest:
                t = t.replace(m[0], dest + "(%rip)")
            else:
                v = a + n + int(m[1] or "0", 16)
                if v in at and v != a + n:
                    t = t.replace(m[0], where(v) + "(%rip)")
        out.append((norm(tidy(t)), sorted(keep), norm(tidy(t0)) if dest is None else ""))
    return out


def assemble(ctx, t, how):
    """-> (object or None, messages, source line of the error)"""
    o = ctx.work.path("t.o")
    if os.path.exists(o):
        os.unlink(o)
    if how == "c":
        # the whole file as top-level asm in C
        p = ctx.work.path("t.c")
        open(p, "w").write("asm(\n%s);\n" % "\n".join('"%s\\n"' % l.replace("\\", "\\\\").replace('"', '\\"') for l in t.split("\n")))
        r = proc.run([ctx.b.cjit, "-q", "-c", "-o", o, p], timeout=30, cwd=ctx.work.path())
        rc, err = r.rc, r.err
    else:
        p = ctx.work.path("t." + (how or "s"))
        open(p, "w").write(t)
        r = proc.run([ctx.b.tcc, "-B" + ctx.b.tccdir, "-c", "-o", o, p], timeout=30, cwd=ctx.work.path())
        rc, err = r.rc, r.err
    if rc == 0 and os.path.exists(o):
        return o, "", ""
    msg = err.decode("latin-1")
    m = re.search(r"t\.[sS]:(\d+)", msg) or re.search(r"<inline asm>:(\d+)", msg) or re.search(r"t\.c:\d+: error: .*?", msg) and None
    return None, msg, (t.split("\n") + [""])[int(m[1]) - 1] if m else ""


class Insn(Prop):
    name = "insn"
    rule = ("files of 5-60 instructions drawn from the %d operand forms of %d mnemonics that the assembler accepts, with random registers, addressing modes, displacements, immediates at the edges of their widths, symbols and labels, jumps "
            "over varying distances; oracle: the disassembly of the object GNU as makes of the same file (instruction by instruction, jump targets as instruction numbers, relocations by symbol, type and effective addend); "
            "non-trivial = at least 5 instructions remain after dropping those GNU as rejects") % (sum(map(len, FORMS.values())), len(FORMS))
    quick_n, quick_secs = 16000, 75
    thorough_n, thorough_secs = 200000, 500
    shrink_evals = 600

    def gen(self, d):
        n = d.int(5, 60)
        lab = lambda: "L%d" % d.draw(n + 1)
        L = []
        for i in range(n):
            m = d.pick(MNEM)
            f = d.pick(FORMS[m])
            # these only reach back (the assembler knows no byte distance to a label yet to come)
            at = (lambda: "L%d" % d.int(max(0, i - 4), i)) if m in SHORT else lab
            L.append((m + " " + ", ".join(operand(d, k, at) for k in f), d.draw(6) == 0 and d.draw(200)))
            if m in SHORT:
                for j in range(max(0, i - 4), i):
                    L[j] = (L[j][0], False)
        return {"n": n, "insns": L, "how": d.pick(["s", "S", "c"])}

    def text(self, c, skip=()):
        o = ["\t.text"]
        for i, (t, gap) in enumerate(c["insns"]):
            o.append("L%d:" % i)
            if i not in skip:
                o.append("\t" + t)
                if gap and t.startswith("j"):
                    # distance for short and near jumps
                    o += ["\tnop"] * gap
        o.append("L%d:" % c["n"])
        o.append("bar:\t.globl bar")
        return "\n".join(o) + "\n"

    def show(self, c):
        return self.text(c)

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def gas(self, ctx, text):
        p = ctx.work.path("g.s")
        open(p, "w").write(text)
        return proc.run(["as", "--warn", "-o", ctx.work.path("g.o"), p], timeout=30, cwd=ctx.work.path())

    def one(self, c, ctx):
        skip = set()
        for _ in range(6):
            t = self.text(c, skip)
            r = self.gas(ctx, t)
            bad = set(int(m) for m in re.findall(r":(\d+): (?:Error|Warning)", r.err.decode("latin-1")))
            if not bad and r.rc == 0:
                break
            at, i = {}, -1
            for ln, l in enumerate(t.split("\n"), 1):
                if re.match(r"L\d+:", l):
                    i = int(l[1:-1])
                at[ln] = i
            skip |= {at[b] for b in bad}
        else:
            return Discard()
        left = c["n"] - len(skip)
        if left < 1:
            return Discard()
        o, msg, line = assemble(ctx, t, c.get("how"))
        if not o:
            return Fail("rejected: %s: %s" % (line.strip(), msg.strip()[:300]), site="reject " + " ".join(line.split()[:1]))
        a, b = listing(o, ctx.work.path()), listing(ctx.work.path("g.o"), ctx.work.path())
        if a != b:
            for i, (x, y) in enumerate(zip(a, b)):
                if x[:2] != y[:2] and (x[1] != y[1] or not x[2] or x[2] != y[2]):
                    return Fail("instruction %d: GNU as has %s %s, cjit has %s %s" % (i, y[0], y[1], x[0], x[1]), site=y[0].split()[0] + "|" + x[0].split()[0])
            if len(a) != len(b):
                return Fail("%d instructions instead of %d" % (len(a), len(b)))
        return None

    def nontrivial(self, c, d):
        return c["n"] >= 5


class C(Check):
    id = "C10"
    parts = [Insn()]
    assumptions = ["GNU as and objdump 2.42 define the encodings; two encodings are the same when objdump prints the same instruction for them"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
