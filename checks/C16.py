"""C16: inline assembly exchanges values with C as its constraints say."""
from vf import build, cbatch
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

SUF = {1: "b", 2: "w", 4: "l", 8: "q"}
MOD = {1: "b", 2: "w", 4: "k", 8: "q"}
TYPES = {1: ["unsigned char", "signed char", "char"], 2: ["short", "unsigned short"], 4: ["int", "unsigned"], 8: ["long", "unsigned long", "long long", "unsigned long long"]}
FIXED = "abcdSD"
REGNAME = {"a": "rax", "b": "rbx", "c": "rcx", "d": "rdx", "S": "rsi", "D": "rdi"}

PRELUDE = cbatch.PRELUDE + r'''
/* calls f with known values in the registers a function has to preserve */
unsigned long keep_(void (*f)(void));
__asm__(".text\n.globl keep_\nkeep_:\n pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8, %rsp\n"
 " movq $0x11111111, %rbx\n movq $0x22222222, %r12\n movq $0x33333333, %r13\n movq $0x44444444, %r14\n movq $0x55555555, %r15\n movq %rsp, %rbp\n"
 " call *%rdi\n"
 " xorl %eax, %eax\n cmpq $0x11111111, %rbx\n je 1f\n orl $1, %eax\n1: cmpq $0x22222222, %r12\n je 1f\n orl $2, %eax\n1: cmpq $0x33333333, %r13\n je 1f\n orl $4, %eax\n"
 "1: cmpq $0x44444444, %r14\n je 1f\n orl $8, %eax\n1: cmpq $0x55555555, %r15\n je 1f\n orl $16, %eax\n1: cmpq %rsp, %rbp\n je 1f\n orl $32, %eax\n movq %rbp, %rsp\n1:"
 " addq $8, %rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n");
static unsigned long id_(unsigned long x) { return x * 3 + 1; }
static unsigned long mix_(unsigned long a, unsigned long b, unsigned long c) { return a * 31 + b * 7 + c; }
'''


class Fun:
    """One generated function around asm statements."""

    def __init__(self, d):
        self.d = d
        self.n = 0
        self.decl, self.after, self.top = [], [], []
        self.vars = {}          # size -> lvalue texts
        self.labels = []

    def val(self, size):
        d = self.d
        k = d.draw(5)
        v = d.draw(256) if k < 2 else d.pick([0, 1, 127, 128, 255, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 1 << 63, (1 << 64) - 1]) if k < 4 else d.draw(1 << 62)
        return v & ((1 << 8 * size) - 1)

    def lvalue(self, size):
        """a fresh object, as an lvalue of some kind"""
        d = self.d
        self.n += 1
        n, t, v = self.n, d.pick(TYPES[size]), self.val(size)
        c = "(%s)0x%xull" % (t, v)
        k = d.draw(12)
        if k < 3:
            self.decl.append("%s v%d = %s;" % (t, n, c))
            e = "v%d" % n
        elif k == 3:
            self.decl.append("static %s v%d; v%d = %s;" % (t, n, n, c))
            e = "v%d" % n
        elif k == 4:
            self.top.append("%s g%d_@ = %s;" % (t, n, c))
            self.decl.append("g%d_@ = %s;" % (n, c))
            e = "g%d_@" % n
        elif k == 5:
            j = d.draw(5)
            self.decl.append("%s a%d[5] = {1, 2, 3, 4, 5}; volatile int i%d = %d; a%d[i%d] = %s;" % (t, n, n, j, n, n, c))
            self.after.append("for (int i = 0; i < 5; i++) P((unsigned long long)a%d[i]);" % n)
            e = d.pick(["a%d[i%d]", "*(a%d + i%d)"]) % (n, n) if d.draw(2) else "a%d[%d]" % (n, j)
        elif k == 6:
            self.decl.append("struct { char p; %s f; char q; } s%d = {7, %s, 9};" % (t, n, c))
            self.after.append("P(s%d.p); P(s%d.q);" % (n, n))
            e = "s%d.f" % n
        elif k == 7:
            self.decl.append("struct { char p; %s f; short q; } s%d = {7, %s, 9}, *p%d = &s%d;" % (t, n, c, n, n))
            self.after.append("P(s%d.p); P(s%d.q);" % (n, n))
            e = "p%d->f" % n
        elif k == 8:
            self.decl.append("%s v%d = %s, *p%d = &v%d, **q%d = &p%d;" % (t, n, c, n, n, n, n))
            e = d.pick(["*p%d" % n, "**q%d" % n, "p%d[0]" % n, "(*q%d)[0]" % n])
        elif k == 9:
            self.decl.append("union { %s u; unsigned char b[8]; } u%d; for (int i = 0; i < 8; i++) u%d.b[i] = i + 17; u%d.u = %s;" % (t, n, n, n, c))
            self.after.append("for (int i = %d; i < 8; i++) P(u%d.b[i]);" % (size, n))
            e = "u%d.u" % n
        elif k == 10:
            self.decl.append("volatile %s v%d = %s;" % (t, n, c))
            e = "v%d" % n
        else:
            self.top.append("static %s ga%d_@[3];" % (t, n))
            self.decl.append("ga%d_@[0] = 5; ga%d_@[1] = %s; ga%d_@[2] = 6;" % (n, n, c, n))
            self.after.append("P((unsigned long long)ga%d_@[0]); P((unsigned long long)ga%d_@[2]);" % (n, n))
            e = "ga%d_@[1]" % n
        self.after.append("P((unsigned long long)%s);" % e)
        self.vars.setdefault(size, []).append(e)
        return e

    def rvalue(self, size):
        """an input expression of this size, any kind"""
        d = self.d
        k = d.draw(6)
        if k < 3:
            return self.lvalue(size)
        if k == 3 and self.vars.get(size):
            return d.pick(self.vars[size])
        t = d.pick(TYPES[size])
        if k == 4:
            return "(%s)(%s + %s)" % (t, self.lvalue(size), self.lvalue(8))
        if k == 5 and size == 8:
            return "id_(%s)" % self.lvalue(8)
        return "(%s)0x%xull" % (t, self.val(size) & 0x7f)


class Asm:
    def __init__(self, d, f):
        self.d, self.f = d, f
        self.outs, self.ins, self.lines, self.clob = [], [], [], []
        self.used = set()           # fixed registers taken
        self.regs = 0               # registers any of the operands may take

    def name(self, i, ops):
        """text that refers to operand i"""
        o = ops[i]
        return "[%s]" % o["name"] if o["name"] and self.d.draw(2) else str(i)


def operand(a, text, con, size, lim=False):
    d = a.d
    return {"e": text, "c": con, "size": size, "name": d.pick(["x", "y_1", "longer", "z"]) + str(len(a.outs) + len(a.ins)) if d.draw(3) == 2 else ""}


def gen_asm(d, f, goto=False):
    """-> text of one asm statement (no semicolon)"""
    a = Asm(d, f)
    size = d.pick([4, 8, 8, 4, 2, 1])
    R = "q" if size == 1 else d.pick(["r", "r", "q", "R"])
    nregs = [0]

    def reg(out):
        """a register constraint for this size"""
        k = d.draw(4)
        letters = "abcd" if size == 1 else FIXED
        free = [x for x in letters if x not in a.used]
        if k == 3 and free:
            c = d.pick(free)
            a.used.add(c)
            nregs[0] += 1
            return c
        nregs[0] += 1
        return R
    limit = 2 if size == 1 else 4
    shape = d.draw(9)
    nin = 1 + d.draw(3 if size > 1 else 2)
    touched = []

    def new_out(c):
        a.outs.append(operand(a, f.lvalue(size), c, size))
        return len(a.outs) - 1

    outs_first = []
    # output operands first: their numbers come first
    if shape == 0:
        # one output, written by the last instruction only
        kind = d.draw(4)
        o = new_out("=" + (reg(1) if kind < 3 else d.pick(["m", "m", "rm" if size > 1 else "qm"])))
        memout = kind == 3
    elif shape in (1, 2, 3, 4):
        n = 1 + d.draw(2 if size == 1 else 3)
        for i in range(n):
            k = d.draw(4)
            if nregs[0] >= limit:
                k = 2
            if k == 0:
                new_out("=&" + reg(1))
            elif k == 1:
                new_out("+" + d.pick(["", "&"]) + reg(1))
            elif k == 2:
                new_out("+" + d.pick(["m", "m", "rm" if size > 1 else "qm"]))
            else:
                new_out("=&" + reg(1))
    elif shape == 5:
        # matching operands
        n = 1 + d.draw(2)
        for i in range(n):
            new_out("=" + (d.pick(["&", ""]) if n == 1 else "&") + reg(1))
    nout = len(a.outs)
    matched = {}

    def new_in(must_reg=False):
        k = d.draw(8)
        if nregs[0] >= limit and not must_reg:
            k = 4
        if k < 3 or must_reg:
            if d.draw(6) == 5 and size > 1:
                # any type of this size
                a.ins.append(operand(a, f.rvalue(size), reg(0), size))
            else:
                a.ins.append(operand(a, f.rvalue(size), reg(0), size))
            a.ins[-1]["reg"] = True
        elif k < 5:
            a.ins.append(operand(a, f.lvalue(size), "m", size))
            a.ins[-1]["mem"] = True
        elif k == 5:
            v = d.pick([0, 1, 3, 7, 100, 127])
            a.ins.append(operand(a, d.pick(["%d", "%d + 0", "(%d)", "sizeof(char[1]) * %d"]) % v, d.pick(["i", "n", "I"][::2] if v > 31 else ["i", "I", "i", "e"]), size))
            a.ins[-1]["imm"] = True
        elif k == 6:
            a.ins.append(operand(a, f.lvalue(size), "rm" if size > 1 else "qm", size))
            a.ins[-1]["mem"] = True
            nregs[0] += 1
        else:
            nregs[0] += 1
            if d.draw(2):
                a.ins.append(operand(a, "(%s)%d" % (TYPES[size][0], d.draw(100)), "ri" if size > 1 else "qi", size))
                a.ins[-1]["imm"] = True
            else:
                a.ins.append(operand(a, f.lvalue(size), "g" if size > 1 else "qm", size))
                a.ins[-1]["mem"] = True
        return len(a.ins) - 1

    s, m = SUF[size], MOD[size]

    def ref(i):
        ops = a.outs + a.ins
        o = ops[i]
        who = a.name(i, ops)
        if "i" in o["c"] and o.get("imm") and d.draw(2):
            return "%" + who
        return "%" + (m if o["size"] == size and d.draw(3) else m) + who
    L = a.lines
    if shape == 5:
        for i in range(nout):
            t = a.outs[i]
            who = "[%s]" % t["name"] if t["name"] and d.draw(2) else str(i)
            a.ins.append(operand(a, f.rvalue(size), who, size))
            a.ins[-1]["reg"] = True
    if shape < 6:
        for _ in range(nin):
            new_in()
    ins = range(nout, nout + len(a.ins))
    OPS2 = ["mov", "add", "sub", "and", "or", "xor"]
    if shape == 0:
        src = d.pick(list(ins))
        si = a.ins[src - nout]
        mem_out = "m" in a.outs[0]["c"]
        if mem_out and si.get("mem"):
            src = nout + new_in(must_reg=True)
        L.append("mov%s %s, %s" % (s, ref(src), ref(0)))
    elif shape in (1, 2, 3, 4, 5):
        init = set()
        for i in range(nout):
            if a.outs[i]["c"][0] == "+" or shape == 5:
                init.add(i)
        for _ in range(1 + d.draw(6)):
            i = d.draw(nout)
            memo = "m" in a.outs[i]["c"]
            srcs = [x for x in list(ins) if not (memo and a.ins[x - nout].get("mem"))] + [x for x in init if not (memo and "m" in a.outs[x]["c"])]
            if i not in init:
                if not srcs:
                    L.append("mov%s $%d, %s" % (s, d.draw(100), ref(i)))
                else:
                    L.append("mov%s %s, %s" % (s, ref(d.pick(srcs)), ref(i)))
                init.add(i)
                continue
            k = d.draw(8)
            if k < 4 and srcs:
                L.append("%s%s %s, %s" % (d.pick(OPS2), s, ref(d.pick(srcs)), ref(i)))
            elif k == 4:
                L.append("%s%s %s" % (d.pick(["not", "neg", "inc", "dec"]), s, ref(i)))
            elif k == 5:
                L.append("%s%s $%d, %s" % (d.pick(["shl", "shr", "sar", "rol"]), s, d.draw(8 * size), ref(i)))
            elif k == 6 and not memo and size >= 4:
                regs = [x for x in init if "m" not in a.outs[x]["c"]] + [x for x in ins if a.ins[x - nout].get("reg")]
                # address arithmetic uses whole registers
                if size == 8 and regs:
                    L.append("leaq %d(%s,%s,%d), %s" % (d.pick([0, 5, -3, 1000]), ref(d.pick(regs)), ref(d.pick(regs)), d.pick([1, 2, 4, 8]), ref(i)))
                elif srcs:
                    L.append("imul%s %s, %s" % (s, ref(d.pick(srcs)), ref(i)))
            elif k == 7:
                # through a scratch register that is declared clobbered
                letters = [("r%d" % x, "r%d" % x) for x in range(8, 16)] + [(x, x) for x in ("rbx", "rsi", "rdi", "rcx", "rdx", "rax")]
                full, cl = d.pick(letters)
                fixed = {v: k2 for k2, v in REGNAME.items()}
                if full in fixed and (fixed[full] in a.used or nregs[0] > 2 or size == 1):
                    full = cl = "r%d" % (8 + d.draw(8))
                if full in fixed:
                    a.used.add(fixed[full])
                    nregs[0] += 1
                if cl not in a.clob:
                    a.clob.append(cl)
                low = {8: full, 4: full + "d" if full[1].isdigit() else "e" + full[1:], 2: full + "w" if full[1].isdigit() else full[1:], 1: full + "b" if full[1].isdigit() else None}[size]
                if low is None:
                    low, full = "r8b", "r8"
                    a.clob.append("r8") if "r8" not in a.clob else None
                x = d.pick(srcs) if srcs else i
                L.append("mov%s %s, %%%%%s" % (s, ref(x), low))
                L.append("add%s %%%%%s, %s" % (s, low, ref(i)))
        for i in range(nout):
            if i not in init:
                L.append("mov%s $%d, %s" % (s, d.draw(100), ref(i)))
    elif shape == 6:
        # wide multiplication or division in fixed registers
        t = size = d.pick([4, 8])
        s, m = SUF[t], MOD[t]
        if d.draw(2):
            o = [operand(a, f.lvalue(t), "=a", t), operand(a, f.lvalue(t), "=d", t)]
            a.outs += o
            a.ins.append(operand(a, f.rvalue(t), d.pick(["0", "a"]), t))
            a.ins.append(operand(a, f.lvalue(t), d.pick(["r", "m", "rm", "1"]), t))
            L.append("%smul%s %%%s3" % (d.pick(["", "i"]) if a.ins[1]["c"] != "i" else "", s, m))
        else:
            a.outs += [operand(a, f.lvalue(t), "=&a", t), operand(a, f.lvalue(t), "=&d", t)]
            a.ins.append(operand(a, f.rvalue(t), "0", t))
            a.ins.append(operand(a, "(%s)0" % TYPES[t][1], "1", t))
            a.ins.append(operand(a, "(%s)(%s | 1)" % (TYPES[t][1], f.lvalue(t)), d.pick(["r", "S", "c"]), t))
            L.append("div%s %%%s4" % (s, m))
        a.clob.append("cc")
    elif shape == 7:
        # strings
        n = 1 + d.draw(9)
        f.n += 1
        k = f.n
        f.decl.append("unsigned char src%d[16] = \"0123456789abcde\", dst%d[16] = {0}; void *s%dp = src%d, *d%dp = dst%d; unsigned long c%dn = %d;" % (k, k, k, k, k, k, k, n))
        f.after.append("for (int i = 0; i < 16; i++) P(dst%d[i]); P(c%dn); P((unsigned char *)d%dp - dst%d); P((unsigned char *)s%dp - src%d);" % (k, k, k, k, k, k))
        if d.draw(2):
            a.outs += [operand(a, "s%dp" % k, "+S", 8), operand(a, "d%dp" % k, "+D", 8), operand(a, "c%dn" % k, "+c", 8)]
        else:
            a.outs += [operand(a, "s%dp" % k, "=S", 8), operand(a, "d%dp" % k, "=D", 8), operand(a, "c%dn" % k, "=c", 8)]
            a.ins += [operand(a, "s%dp" % k, "0", 8), operand(a, "d%dp" % k, "1", 8), operand(a, "c%dn" % k, "2", 8)]
        if d.draw(2):
            L.append("cld\n\trep movsb")
        else:
            L += ["1: movb (%0), %%%%al", "xorb $0x20, %%al".replace("%%", "%%%%"), "movb %%%%al, (%1)", "inc %0", "inc %1", "dec %2", "jnz 1b"]
            L[:] = [x.replace("%%%%", "%%") for x in L]
            a.clob.append("rax")
        a.clob += ["memory", "cc"]
    else:
        # references to symbols, other sections, calls
        k = d.draw(4)
        f.n += 1
        q = f.n
        a.outs.append(operand(a, f.lvalue(8), "=r" if k else "=a", 8))
        if k == 0:
            f.top.append("unsigned long af%d_@(unsigned long); __asm__(\".text\\n.globl af%d_@\\naf%d_@: leaq %d(%%rdi,%%rdi), %%rax\\n ret\");" % (q, q, q, d.draw(1000)))
            a.ins += [operand(a, "(unsigned long)" + f.lvalue(8), "D", 8), operand(a, "af%d_@" % q, "i", 8)]
            L.append("call %P2")
            a.clob.append("memory")
        elif k == 1:
            f.top.append("static unsigned long sg%d_@[4] = {11, 22, 33, 44};" % q)
            a.ins.append(operand(a, "&sg%d_@[%d]" % (q, d.draw(4)) if d.draw(2) else "sg%d_@" % q, "i", 8))
            L.append("movq %c1(%%rip), %0" if d.draw(2) else "movq %P1(%%rip), %0")
        elif k == 2:
            L += [".pushsection .data", ".align 8", "9: .quad %d" % f.val(4), ".popsection", "movq 9b(%%rip), %0"]
        else:
            v = 1 + d.draw(100000)
            a.ins.append(operand(a, d.pick(["%d", "-%d", "-(%d)"]) % v, "i", 8))
            L.append(d.pick(["movq %1, %0", "movq $%c1, %0", "leaq %c1, %0", "movq $%n1, %0"]))
    if d.draw(3) == 2 and shape in (0, 1, 2, 3, 4, 5):
        a.clob.append("cc")
    if d.draw(4) == 3:
        a.clob.append("memory")
    clob = []
    for c in a.clob:
        if c not in clob:
            clob.append(c)
    ops = a.outs + a.ins
    seen = set()
    for o in ops:
        if o["name"] in seen:
            o["name"] = ""
        seen.add(o["name"])
    sep = d.pick(["\\n\\t", "; ", "\\n"])
    text = sep.join(x.replace("\n", "\\n").replace("\t", "\\t") for x in L)

    def opl(l):
        return ", ".join("%s\"%s\" (%s)" % ("[%s] " % o["name"] if o["name"] else "", o["c"], o["e"]) for o in l)
    st = "%s%s(\"%s\" : %s" % (d.pick(["__asm__", "asm", "__asm"]), d.pick(["", " volatile", " __volatile__"]), text, opl(a.outs))
    if a.ins or clob:
        st += " : %s" % opl(a.ins)
    if clob:
        st += " : " + ", ".join("\"%s\"" % c for c in clob)
    return st + ")", shape


def gen_goto(d, f):
    f.n += 1
    k = f.n
    size = d.pick([4, 8])
    s, m = SUF[size], MOD[size]
    x, y = f.rvalue(size), f.lvalue(size)
    cc = d.pick(["e", "ne", "l", "g", "b", "a", "s"])
    named = d.draw(2)
    text = "cmp%s %%%s1, %%%s0; j%s %%l%s; jmp %%l%s" % (s, m, m, cc, "[L%da]" % k if named else "2", "[L%db]" % k if named else "3") if d.draw(2) else \
        "cmp%s %%%s1, %%%s0; j%s %%l%s" % (s, m, m, cc, "[L%da]" % k if named else "2")
    clob = d.pick(["", "\"cc\"", "\"memory\", \"cc\"", "\"rbx\", \"r12\""])
    return "asm goto (\"%s\" : : \"r\" (%s), \"rm\" (%s) : %s : L%da, L%db);\nP(1%d); L%db: P(2); L%da: P(3);" % (text, x, y, clob, k, k, k % 10, k, k)


class Inline(cbatch.UnitProp):
    name = "inline"
    prelude = PRELUDE
    batch = 30
    ref_flags = ["-mno-red-zone", "-fno-pie", "-no-pie"]
    rule = ("one function per case with 1-4 asm statements: 0-3 outputs and 0-5 inputs of 1, 2, 4 and 8 bytes; constraints r q R a b c d S D m g rm ri i I e, =, +, &, numbered and named matching operands; operands that are locals, parameters, statics, globals, elements, members, "
            "dereferences, calls, constants and symbols; %0 and %[name] with b w k q c P n; clobbered registers (all), memory, cc; several instructions, local labels, strings, wide multiply and divide, other sections, calls, asm goto; statements alone, in loops and branches and as parts of expressions; "
            "the registers a function must preserve and the stack pointer are checked after every call; oracle: gcc -O0, and gcc -O2, clang and sanitizers must agree before a failure counts; non-trivial = an asm statement with at least two operands")
    quick_n, quick_secs = 12000, 70
    thorough_n, thorough_secs = 2000000, 600

    def gen(self, d):
        f = Fun(d)
        stmts = []
        shapes = []
        for _ in range(1 + d.draw(4)):
            if d.draw(8) == 7:
                stmts.append(gen_goto(d, f))
                shapes.append("goto")
                continue
            t, sh = gen_asm(d, f)
            shapes.append(sh)
            k = d.draw(6)
            if k < 3:
                stmts.append(t + ";")
            elif k == 3:
                stmts.append("for (int i%d = 0; i%d < %d; i%d++) { %s; }" % (len(stmts), len(stmts), 1 + d.draw(3), len(stmts), t) if sh not in (7,) else t + ";")
            elif k == 4:
                stmts.append("if (id_(%d) != %d) { %s; } else P(77);" % (d.draw(5), d.draw(5) * 3 + 1, t))
            else:
                v = f.lvalue(8)
                stmts.append("P(mix_(%s, ({ %s; (unsigned long)%s; }), id_(%d)) + (unsigned long)%s * 3);" % (v, t, f.vars.get(8, ["0"])[0], d.draw(9), v)
                             if d.draw(2) else "P((id_(4) * 5 + 1) ^ (({ %s; 9ul; }) + id_(2)));" % t)
        for s in shapes:
            d.label("shape %s" % s)
        body = "\n".join(f.decl) + "\n" + "\n".join(stmts) + "\n" + "\n".join(f.after)
        top = "\n".join(f.top) + "\nstatic void w@(void) {\n" + body + "\n}"
        return {"top": top, "body": "P(keep_(w@));", "nt": sum(x.count("\" (") for x in stmts) >= 2}

    def nontrivial(self, c, d):
        return c["nt"]


class C(Check):
    id = "C16"
    parts = [Inline()]
    assumptions = ["gcc and clang are right about constraints they agree on", "constraints cjit does not know (x, t, n, o, V, Q, Z, comma alternatives) and operands of vector or floating type are outside"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
