"""C13: any source text is compiled or rejected cleanly."""
import importlib, os, re, subprocess
from vf import build, cbatch
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SNIP = [s.strip() + "\n" for s in open(os.path.join(HERE, "harness", "snippets.c")).read().split("//---\n")]
ASM = [s.strip() + "\n" for s in open(os.path.join(HERE, "harness", "snippets.s")).read().split("#---\n")]

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_$][\w$]*|\.?\d(?:[eEpP][+-]|[\w.])*|##|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|//[^\n]*|/\*.*?\*/|\n|[ \t]+|.', re.S)

KW = ("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while "
      "_Alignas _Alignof _Atomic _Bool _Complex _Generic _Noreturn _Static_assert _Thread_local __func__ __typeof__ typeof __attribute__ __extension__ __label__ __builtin_offsetof __builtin_constant_p __builtin_choose_expr "
      "__builtin_types_compatible_p __builtin_expect __builtin_va_arg __builtin_va_start __builtin_va_end __builtin_frame_address __builtin_return_address __builtin_alloca __atomic_load __atomic_store __atomic_exchange "
      "__atomic_compare_exchange __atomic_fetch_add asm __asm__ alignas __alignof__ __int128 __real__ __imag__ defined __VA_ARGS__ __COUNTER__ __LINE__ __FILE__ __has_include __cleanup__ va_list __builtin_va_list").split()
PUNCT = list("{}[]()<>;,:?=+-*/%&|^!~.#\\'\"") + ["...", "->", "++", "--", "&&", "||", "<<", ">>", "##", "==", "<<=", "::", "[[", "]]", "({", "})", "/*", "*/", "//", "\\\n", "\n"]
NUM = ["0", "1", "-1", "2", "8", "63", "64", "127", "255", "256", "65535", "0x7fffffff", "0x80000000", "4294967295u", "0x7fffffffffffffff", "0xffffffffffffffffull", "-2147483648", "1e400", "0x1p-2000", "1.5f", "0.0L", "08", "0b12", "1e", "0x", "1uu",
       "'a'", "''", "'\\x'", "L'a'", "'abcdefghi'", "\"\"", "\"a\\0b\"", "L\"wide\"", "\"\\xfffff\"", "\"unterminated", "'\\777'", "1.2.3", "0x1.8p3", "99999999999999999999999", "1048576"]
DIRECT = ["#define M(x, ...) x ## __VA_ARGS__ #x", "#define", "#define X", "#define M(", "#define M(a,a) a", "#undef X", "#undef", "#if", "#if 1", "#if 1/0", "#if (", "#ifdef X", "#ifndef", "#else", "#elif 1", "#elif", "#endif", "#include", "#include <stdio.h>",
          "#include <stdarg.h>", "#include \"nonexistent.h\"", "#include X", "#include <", "#line 5 \"x.c\"", "#line", "#line 99999999999", "#error stop", "#warning careful", "#pragma pack(push, 1)", "#pragma pack(pop)", "#pragma pack(",
          "#pragma once", "#pragma push_macro(\"X\")", "#pragma pop_macro(\"X\")", "#pragma comment(lib, \"m\")", "#pragma", "# 5 \"y.c\" 1", "#", "#!x", "#if defined(", "#if defined X || __has_include(<stdio.h>)", "#define X X X", "#define E() E ()",
          "#define S(x) #x", "#define C(a,b) a##b", "X", "M(1,2,3)", "M(", "S(\"a\\n\" 'b')", "C(<,<=)", "C(.,.)", "C(/,/)", "E()()()", "__has_include(\"x\")", "#if 1 ? 2", "#if 'a' == 97", "#if 1 ||", "#include_next <stdio.h>", "#ident \"x\"", "#assert x"]
ATTR = ["__attribute__((packed))", "__attribute__((aligned(16)))", "__attribute__((aligned(3)))", "__attribute__((aligned))", "__attribute__((section(\".x\")))", "__attribute__((section(\".text\")))", "__attribute__((alias(\"f\")))", "__attribute__((weak))", "__attribute__((cleanup(f)))",
        "__attribute__((constructor))", "__attribute__((mode(DI)))", "__attribute__((mode(word)))", "__attribute__((regparm(3)))", "__attribute__((", "__attribute__((visibility(\"hidden\")))", "__attribute__((unknown(1, \"x\", int)))", "__attribute__((always_inline))", "__attribute__((noreturn))",
        "__attribute__((nodebug))", "__attribute__((destructor))", "__attribute__(())", "__attribute__((fastcall))", "__attribute__((unused))", "_Alignas(64)", "_Alignas(0)", "_Alignas(double)", "[[noreturn]]"]
FRAG = ["({ int q = 1; q; })", "(int[]){1, 2, 3}", "(struct S){ .a = 1 }", "struct { int a : 3; }", "enum { A, B = 5 }", "union { int a; double b; }", "int (*fp)(int, ...)", "&&lab", "goto *p;", "lab:", "case 1 ... 5:", "default:", "[1 ... 3] =", ".a.b[2] =", "a ?: b",
        "sizeof(int[n])", "__typeof__(x) y", "asm(\"nop\");", "asm volatile(\"mov %1, %0\" : \"=r\"(x) : \"r\"(y) : \"memory\");", "asm(\"%a0 %b0 %w0 %k0 %q0 %h0 %c1\" : \"=q\"(x) : \"i\"(5));", "asm goto(\"jmp %l0\" :::: lab);", "int f();", "int f(a, b) int a; char b; { return a; }",
        "_Generic((x), int: 1, default: 2)", "_Static_assert(1, \"x\");", "__label__ l1, l2;", "extern int e[];", "static int s[] = { [5] = 1, 2, [0] = 3 };", "char c[] = \"abc\";", "for (int i = 0;;)", "while (0)", "do ; while (0);", "switch (x) {", "if (x) else", "return;", "return x;",
        "typedef int T;", "T x;", "void v;", "int a[-1];", "int a[];", "struct S;", "struct S { struct S s; };", "struct F { int n; int f[]; };", "int x = x;", "static inline", "inline int g(void) { return 1; }", "_Thread_local int t;", "__builtin_va_arg(ap, int)", "(void)0,", "(void)x", "*(void *)p",
        "f(f)", "f()()", "x.y.z", "x->y", "1[x]", "*&*&x", "-\"s\"", "!(struct S){0}", "x = (int){1} = 2", "&1", "&x++", "(char)x = 1", "long long long", "unsigned float", "static extern", "const const", "int int", "int *const *volatile", "char a[2][]"]
AFRAG = [".align 0", ".skip 0x7fffffff", ".org 0x12345678901", ".skip -1", ".rept 0", ".data", ".text", ".bss", ".section .x,\"aw\",@progbits", ".section", ".previous", ".pushsection .y", ".popsection", ".byte 1,2,3", ".word x", ".long x-y", ".quad f+8", ".skip 4", ".space 8, 1", ".fill 3, 2, 0x55", ".fill 1,9", ".align 8", ".align 3", ".balign 16, 0x90", ".p2align 4", ".ascii \"a\\n\"",
         ".asciz \"x\"", ".string \"abc", ".globl f", ".weak f", ".hidden f", ".set a, 5", "b = a + 1", ".org 64", ".rept 3", ".endr", ".macro m", ".endm", ".if 1", ".endif", ".type f, @function", ".size f, .-f", ".ident \"x\"", ".file \"a.c\"", ".code64", ".code16", ".symver a,b", ".octa 1", ".reloc 0, R_X86_64_NONE, f",
         "1:", "1b", "1f", "jmp 1b", "jmp 2f", "f:", "call f", "call *%rax", "call *(%rax)", "mov $1, %eax", "movq $0x123456789abcdef, %rax", "movl (%rax,%rbx,4), %ecx", "mov %fs:0, %rax", "lea 8(%rip), %rdi", "lea f(%rip), %rax", "push %rbp", "pop %r15", "xor %eax, %eax", "addb $1, (%rax)", "add $1, (%rax)", "movzbl %al, %eax",
         "movss %xmm0, %xmm1", "cvtsi2sd %rax, %xmm0", "fld %st(1)", "fldl (%rax)", "rep movsb", "lock; incl (%rax)", "lock incl (%rax)", "ret", "ret $8", "int $3", "int $0x80", "nop", "jz f", "jmp *%rax", "sete %al", "cmovz %eax, %ebx", "shl %cl, %eax", "shl $3, %eax", "imul $3, %eax, %ebx", "in %dx, %al", "mov %cr0, %rax", "mov %db7, %rax",
         "mov %al, %r8b", "mov %ah, %r8b", "mov %rax, %eax", "mov 1(%eax), %eax", "mov (%rax,%rsp), %eax", "mov (,%rax,3), %eax", "%st(9)", "$", "%", "(", "$(1+", "-4(%rbp", "%xmm15", "*%rax", "$f-g", "f@PLT", "f@GOTPCREL(%rip)", ".-f", "(1<<63)/0", "~0", "'a", "\"x\"", ";", "#", "/*", "@", "xchg", "enter $8,$1", "sysretq", "pushw $1", "ud2", "cpuid"]


def tokens(text):
    return TOK.findall(text)


_parts = None


def bases():
    """generators of well-formed programs, from the other checks"""
    global _parts
    if _parts is None:
        _parts = []
        for m in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11"):
            for p in importlib.import_module("checks." + m).CHECK.parts:
                if isinstance(p, cbatch.UnitProp):
                    _parts.append(p)
    return _parts


def mutate(d, toks, frags, n, name):
    """n edits of a list of tokens"""
    ids = sorted(set(t for t in toks if re.match(r"[A-Za-z_]\w*$", t)))[:60]
    for _ in range(n):
        if not toks:
            toks = ["int", " ", "x", ";"]
        i = d.draw(len(toks))
        k = d.draw(16)
        d.label("edit%d" % k)
        if k == 0:
            del toks[i:i + 1 + d.draw(8)]
        elif k == 1:
            j = d.draw(len(toks))
            toks[i:i] = toks[j:j + 1 + d.draw(30)]
        elif k == 2:
            j = d.draw(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 3:
            toks[i] = d.pick(frags[0])
        elif k == 4:
            toks.insert(i, " " + d.pick(frags[0]) + " ")
        elif k == 5:
            toks[i] = d.pick(PUNCT)
        elif k == 6:
            toks.insert(i, d.pick(PUNCT))
        elif k == 7:
            # a number becomes another one
            at = [j for j, t in enumerate(toks) if t[:1].isdigit()]
            if at:
                i = d.pick(at)
            toks[i] = d.pick(NUM)
        elif k == 8 and ids:
            at = [j for j, t in enumerate(toks) if re.match(r"[A-Za-z_]\w*$", t)]
            if at:
                i = d.pick(at)
            toks[i] = d.pick(ids)
        elif k == 9:
            toks.insert(i, "\n" + d.pick(frags[1]) + "\n")
        elif k == 10:
            toks.insert(i, " " + d.pick(frags[2]) + " ")
        elif k == 11:
            toks.insert(i, " " + d.pick(frags[3]) + " ")
        elif k == 12:
            # cut here, or drop the head
            toks = toks[:i] if d.draw(2) else toks[i:]
        elif k == 13:
            # repeat a stretch
            w = 1 + d.draw(6)
            toks[i:i] = toks[i:i + w] * d.pick([2, 5, 30, 100])
        elif k == 14:
            t = toks[i]
            j = d.draw(len(t) + 1)
            c = chr(d.pick([0, 9, 10, 13, 32, 34, 39, 92, 127, 128, 255, d.draw(256)]))
            toks[i] = t[:j] + c + t[j + d.draw(2):]
        else:
            # a stretch turned round, or nested
            w = 1 + d.draw(10)
            o, c = d.pick([("(", ")"), ("{", "}"), ("[", "]"), ("({", ";})"), ("(int)(", ")"), ("sizeof(", ")"), ("*", ""), ("-", ""), ("&", "")])
            m = d.pick([1, 2, 20, 60])
            toks[i:i + w] = [o] * m + toks[i:i + w] + [c] * m
    return toks


class Drv:
    """one running driver"""
    def __init__(self, exe, lib, dir, secs, mb, env):
        os.makedirs(dir, exist_ok=True)
        self.dir = dir
        self.p = subprocess.Popen([exe, lib, dir, str(secs), str(mb)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, LC_ALL="C", **env), cwd=os.path.dirname(dir))

    def run(self, mode, path):
        self.p.stdin.write(("%s %s\n" % (mode, path)).encode())
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        if len(h) != 5:
            raise RuntimeError("driver ended: %r" % h)
        err = self.p.stdout.read(int(h[4]))
        return h[1].decode(), int(h[2]), h[3].decode(), err


def site(err):
    """where the sanitizer or a stack dump says it happened"""
    e = err.decode("latin-1")
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+) (\S+) in (\w+)", e)
    n = re.search(r"#\d+ 0x\w+ in (\w+) \S*lib/tinycc/(\w+\.[ch]):\d+", e)
    if m and n:
        return "%s in %s (%s)" % (m[1], n[1], n[2])
    if m:
        return "%s in %s (%s)" % (m[1], m[3], os.path.basename(m[2]))
    m = re.search(r"SUMMARY: \S+ (.*)", e)
    return m[1] if m else ""


class Fuzz(Prop):
    batch = 20
    shrink_evals = 1500
    shrink_secs = 120
    modes = ["o", "ow", "m", "og", "x", "mw", "ob", "E", "mgb", "ot", "d"]
    ext = ".c"

    def drivers(self, ctx):
        key = (os.getpid(), self.name)
        if getattr(self, "_drv", (None,))[0] != key:
            w = ctx.work.path()
            lib = ctx.b.tccdir
            env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:max_allocation_size_mb=600:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1"}
            self._drv = (key, [Drv(ctx.drv_asan, ctx.asan.tccdir, os.path.join(w, "a"), 20, 0, env),
                               Drv(ctx.drv, lib, os.path.join(w, "p"), 10, 1500, {"MALLOC_PERTURB_": "85"}),
                               Drv(ctx.drv, lib, os.path.join(w, "q"), 10, 1500, {"MALLOC_PERTURB_": "203", "PAD_" + "x" * 3000: "1"})])
        return self._drv[1]

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        p = ctx.work.path("in" + self.ext_of(c))
        with open(p, "wb") as f:
            f.write(c["text"].encode("latin-1"))
        out = []
        for i, drv in enumerate(self.drivers(ctx)):
            kind, code, h, err = drv.run(c["mode"], p)
            what = ("plain build", "sanitizer build")[i == 0]
            low = b"memory full" in err
            if kind == "t":
                if "_address" in c["text"]:
                    return None        # __builtin_return_address(n) legitimately takes time and code in proportion to n
                return Fail("%s: no end within the time limit (%s)" % (what, c["mode"]), site="hang")
            if kind == "s" or code not in (0, 1, 2):
                return Fail("%s (%s): %s %d %s\n%s" % (what, c["mode"], "signal" if kind == "s" else "exit status", code, site(err), err.decode("latin-1")[-2500:]), site=site(err))
            if code and not err.strip():
                return Fail("%s (%s): fails (%d) without any message" % (what, c["mode"], code), site="silent")
            out.append((code, h if code == 0 else "", err, low))
        if not any(o[3] for o in out):
            if out[1][:3] != out[2][:3]:
                return Fail("two runs differ: %s %s / %s %s" % (out[1][:2], out[1][2].decode("latin-1")[:600], out[2][:2], out[2][2].decode("latin-1")[:600]), site="unstable")
            if out[0][0] != out[1][0] or out[0][2].replace(ctx.asan.root.encode(), b"") != out[1][2].replace(ctx.b.root.encode(), b""):
                return Fail("sanitizer and plain build differ: %s %s / %s %s" % (out[0][:2], out[0][2].decode("latin-1")[:600], out[1][:2], out[1][2].decode("latin-1")[:600]), site="unstable")
        return None

    def ext_of(self, c):
        return ".c"

    def nontrivial(self, c, d):
        return "edited" in d.labels

    def show(self, c):
        return c["text"] if len(c["text"]) < 6000 else c["text"][-6000:]


class CText(Fuzz):
    name = "c"
    rule = ("C source: programs from the generators of C01-C08 and C11 and 60 snippets of other features, with 1-12 edits: tokens deleted, repeated, exchanged, replaced by keywords, built-ins, attributes, directives, fragments, extreme numbers or other "
            "names of the program, text cut, stretches nested or repeated, bytes changed; compiled to an object, an executable, a shared library, to memory, with warnings, debug information and bounds checking, and preprocessed; "
            "a build with the address sanitizer and two runs with different heap contents must end by themselves with status 0 or a message, and agree; non-trivial = at least one edit")
    quick_n, quick_secs = 60000, 60
    thorough_n, thorough_secs = 3000000, 600

    def gen(self, d):
        k = d.draw(5)
        if k < 3:
            text = d.pick(SNIP)
            if d.draw(4) == 3:
                text += d.pick(SNIP)
        else:
            p = d.pick(bases())
            u = p.gen(d)
            text = (p.prelude if d.draw(6) == 5 else "void P(unsigned long long); void S_(const char *);\n#define K_(e) sizeof(e)\n") + (u.get("top") or "").replace("@", "0") + "\nstatic void u0(void) {\n" + u["body"].replace("@", "0") + "\n}\n"
            text = "".join(c if ord(c) < 256 else "?" for c in text)
        n = d.pick([1, 2, 3, 5, 8, 12]) if d.draw(20) else 0
        if n:
            d.label("edited")
        toks = mutate(d, tokens(text), (KW, DIRECT, FRAG, ATTR + NUM), n, self.name)
        text = "".join(toks)[:40000]
        return {"mode": d.pick(self.modes), "text": text}


class Asm(Fuzz):
    name = "asm"
    rule = ("assembly source (plain and preprocessed), and inline asm in C: snippets with 1-12 edits as for C, with directives, operands and instructions; same judgement")
    quick_n, quick_secs = 30000, 30
    thorough_n, thorough_secs = 2000000, 400

    def gen(self, d):
        inl = d.draw(4) == 3
        text = d.pick(ASM)
        if d.draw(3) == 2:
            text += d.pick(ASM)
        n = d.pick([1, 2, 3, 5, 8, 12]) if d.draw(20) else 0
        if n:
            d.label("edited")
        text = "".join(mutate(d, tokens(text), (AFRAG, AFRAG, AFRAG, NUM), n, self.name))[:20000]
        ext = d.pick([".s", ".S"])
        if inl:
            ext = ".c"
            esc = text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
            if d.draw(2):
                text = 'asm("%s");\nint x; void f(void) { asm("%s"); }\n' % (esc, esc)
            else:
                out = d.pick(['"=r"(x)', '"+m"(x)', '"=a"(x), "=&d"(y)', '[o] "=q"(x)', '"=@ccz"(x)', '"=r"(*p)', '"=x"(z)', '"=r"(x) , "+r"(y)', ""])
                inp = d.pick(['"r"(y)', '"i"(5)', '"0"(y)', '"m"(*p)', '"g"(y), "n"(3)', '"c"(y), "D"(p)', '"9"(y)', '"[o]"(y)', '"p"(&x)', '"e"(1ll << 40)', '"A"(y)', '"r"(s)', ""])
                cl = d.pick(['"memory"', '"cc", "rax"', '"ebx"', '"foo"', '"xmm0"', ""])
                text = 'struct S { int a; } s; int x, y, *p; double z;\nint f(int a, long b) { asm %s("%s" : %s : %s : %s); return x; }\n' % (d.pick(["", "volatile", "goto"]), esc.replace("%", d.pick(["%", "%%"])), out, inp, cl)
        return {"mode": d.pick(["o", "m", "x", "og", "d"]), "text": text, "ext": ext}

    def ext_of(self, c):
        return c["ext"]


class C(Check):
    id = "C13"
    parts = [CText(), Asm()]
    assumptions = ["the address sanitizer and glibc's malloc perturbation reveal invalid reads and writes", "each input gets 20 CPU seconds and allocations up to 600 MB; an input may end with 'memory full'"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.asan = build.full(ctx.scratch, "a", "asan")
        ctx.work = cbatch.Work(ctx.scratch)
        mk = lambda b, san: build.driver(ctx.scratch, "fuzzdrv" + ("a" if san else ""), ["fuzzdrv.c"], [], san=False, root=b.root, libs=[b.libtcc, "-ldl", "-lm", "-lpthread"], extra=["-fsanitize=address"] if san else [])
        ctx.drv = mk(ctx.b, False)
        ctx.drv_asan = mk(ctx.asan, True)


CHECK = C()
