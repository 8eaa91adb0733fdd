"""C14: compilation states are independent."""
import os, struct, re
from vf import build, cbatch, pipe
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check


def i32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


BAD = ["int z(void) { return 1 + ; }", "int z(void) { return nope; }", "struct Q { int a; int a; };", "int z(void) { if (1) { return 1;", "int z(void) { int a[-2]; }", "#error stop here", "#if 1\nint z;", "#include \"missing_file.h\"",
       "int z(void) { struct Q2 q; }", "int z = \"a\" + ;", "#define FM(a, b) a + b\nint z = FM(1);", "int z(void) { goto nowhere; }", "int z(void) { ({ int q = 1; q + }) ; }", "int z(int a) { switch (a) { case 1: case 1: ; } }", "int z(void) { asm(\"no_such_insn %eax\"); }",
       "int z[] = { 1, 2, [5 = 3 };", "int z(void) { return sizeof(struct Undef); }", "typedef int T; T T2 = T;", "int z(void) { 5 = 6; }", "int z(void) { int x; x.a = 1; }", "#pragma pack(push, 1)\nstruct P { char c; int i; } zz; int z(void) { return }", "#define Z1 Z2 +\n#define Z2 )\nint z = Z1 1;",
       "static const char zz[] = \"unfinished", "int z(void) { while (1) { for (;;) { do { switch (1) { default: (( } } } } }", "/* no end", "int z(void) { int n = 3; int v[n]; { int w[n]; return v[0 } }", "int z(void) { return _Generic(1, char: 2); }", "_Static_assert(0, \"no\");", "enum E9 { A9, A9 };", "int z(a) int b; { }",
       "int z(void) { typeof(1 + ) q; }", "int z(void) { __builtin_choose_expr(1, 2; }", "#define SELF(x) #y x\n#if SELF(\nint z;", "int z(void) { return &&lab - ; lab: ; }", "double z = 1.5 % 2;", "int z(void) { static int q = z(); }", "extern int w; static int w; int z(void) { int w; int w; }", "\"string\";", "int z(struct { int a; } b, ) {}",
       "#if (1\n#endif", "#ifdef\n#endif", "#elif 1", "int z(void) { asm(\"mov %0, %1\" : \"=r\"(5)); }", "int z __attribute__((aligned(3)));", "int z = 1 ? 2;"]
TYPES = [("char", 1), ("short", 2), ("int", 4), ("long", 8), ("double", 8), ("float", 4), ("void *", 8), ("long double", 16)]
ARGS = [b"", b"a", b"-x", b"two words", b"\xff\xfe", b"%s%n", b"--", b"12345678901234567890"]


class State:
    """what one state has, while its commands are generated"""
    def __init__(self, d, slot, dirs):
        self.d, self.slot, self.dirs = d, slot, dirs
        self.ops = []           # (op, args, expected lines | None, function to call nested | False)
        self.live = False

    def op(self, o, args=(), want=None, nest=False):
        self.ops.append((o, [a if isinstance(a, bytes) else a.encode("latin-1") for a in args], want if self.known else None, nest))

    # ---- one life of a state
    def life(self):
        d = self.d
        self.known, self.failed = True, False
        self.macros, self.host, self.inc, self.sysinc, self.funs, self.vars = {}, {}, [], [], {}, {}
        self.uchar = False
        self.cm = [0]
        self.common = False
        self.unsig = self.undef = False
        self.n = 0
        kind = self.kind = d.wpick([(8, "mem"), (3, "run"), (3, "obj"), (1, "exe"), (1, "dll")])
        d.label("kind-" + kind)
        self.op("n", [], ["new 1"])
        if d.draw(4) == 3:
            self.op("e")
            d.label("second-handler")
        if d.draw(5) == 4:
            self.options()
        self.op("t", [{"mem": "1", "run": "1", "obj": "3", "exe": "2", "dll": "4"}[kind]], ["type 0"])
        for _ in range(d.draw(5)):
            self.config()
        for _ in range(1 + d.draw(3)):
            k = d.draw(12)
            if k == 11:
                self.bad()
            elif k == 10:
                self.noise()
            elif k == 9:
                self.unit(file=True)
            else:
                self.unit()
            if self.failed:
                break               # a state that failed is only good for deletion
            for _ in range(d.pick([0, 0, 1, 2])):
                self.config()
        if kind == "mem":
            if d.draw(12) == 11 and self.known:
                self.undef = True
                self.op("c", ["int not_there_%d(int); int u%d(int x) { return not_there_%d(x); }" % (self.slot, self.n, self.slot)], ["compile 0"])
                self.op("r", [], [("msg", "not_there_%d" % self.slot), "relocate -1"])
                self.known = False
            elif not self.failed:
                self.op("r", [], ["relocate 0"])
                if self.known:
                    self.use()
        elif kind == "run":
            self.run()
        elif not self.failed:
            if kind == "exe":
                self.op("c", ["int main(void) { return 3; }"], ["compile 0"])
            self.known = False      # compared with the state alone
            self.op("O", ["@OUT%d" % self.slot])
        self.known = True
        if d.draw(6):
            self.op("D", [], ["delete"])
        else:
            self.live = True

    def options(self):
        d = self.d
        k = d.draw(7)
        if k == 0:
            self.uchar = True
            self.op("o", ["-funsigned-char"], ["opt 0"])
        elif k == 1:
            m, v = "M%d" % d.draw(3), d.draw(1000)
            self.macros[m] = v
            self.op("o", ["-D%s=%d -w" % (m, v)], ["opt 0"])
        elif k == 2:
            self.op("o", ["-g"], ["opt 0"])
        elif k == 3:
            self.op("o", ["-Wall -Werror"], ["opt 0"])
        elif k == 4 and self.kind not in ("mem", "run"):
            self.op("o", ["-b"], ["opt 0"])
        elif k == 5:
            i = d.draw(len(self.dirs))
            self.inc.append(i)
            self.op("o", ["-I" + self.dirs[i][0]], ["opt 0"])
        else:
            m = "M%d" % d.draw(3)
            self.macros.pop(m, None)
            self.op("o", ["-U" + m], ["opt 0"])

    def config(self):
        d = self.d
        k = d.draw(7)
        if k == 0:
            m, v = "M%d" % d.draw(3), d.draw(1000)
            if m in self.macros:
                self.op("u", [m], [])      # a second definition would be warned about
            if d.draw(4) == 3:
                self.op("d", ["%s=%d" % (m, v)], [])
            elif d.draw(4) == 3:
                v = 1
                self.op("d", [m], [])
            else:
                self.op("d", [m, str(v)], [])
            self.macros[m] = v
        elif k == 1:
            m = "M%d" % d.draw(3)
            self.macros.pop(m, None)
            self.op("u", [m], [])
        elif k == 2:
            i = d.draw(len(self.dirs))
            self.inc.append(i)
            self.op("i", [self.dirs[i][0]], ["inc 0"])
        elif k == 3:
            i = d.draw(len(self.dirs))
            self.sysinc.append(i)
            self.op("y", [self.dirs[i][0]], ["sysinc 0"])
        elif k == 4 and self.kind in ("mem", "run"):
            h = "hs%d" % d.draw(2)
            if h not in self.host:
                self.host[h] = d.draw(3)
                self.op("s", [h, str(self.host[h])], ["sym 0"])
        elif k == 5 and self.kind in ("mem", "run"):
            if "hn" not in self.host:
                self.host["hn"] = 3
                self.op("s", ["hn", "3"], ["sym 0"])
        elif k == 6 and self.kind in ("mem", "run") and "hv" not in self.host:
            self.host["hv"] = 4
            self.op("s", ["hv", "4"], ["sym 0"])

    # ---- source text
    def unit(self, file=False, extra=""):
        d = self.d
        self.text, self.seen, self.incl = [], set(), set()
        self.counter = 0
        self.packed = False
        for _ in range(1 + d.draw(5)):
            self.fun()
        text = "\n".join(self.text) + "\n" + extra
        if file:
            self.op("f", ["@SRC" + text], ["file 0"])
        else:
            self.op("c", [text], ["compile 0"])

    def fun(self):
        d = self.d
        A, B = d.int(-500, 500), d.int(-50, 50)
        i = self.n
        self.n += 1
        f = "f%d" % i
        t = self.text.append
        nest = False
        k = d.draw(33)
        if k == 1:
            m = "M%d" % d.draw(3)
            t("#ifdef %s\nint %s(int x) { return x + (%s); }\n#else\nint %s(int x) { return x - 9; }\n#endif" % (m, f, m, f))
            v = self.macros[m] if m in self.macros else -9
            fn = lambda x: x + v
        elif k == 2:
            t("static int cnt%d = %d; int %s(int x) { cnt%d += x; return cnt%d; }" % (len(self.text), A, f, len(self.text), len(self.text)))
            c = [A]
            def fn(x):
                c[0] += x
                return c[0]
        elif k == 3:
            t("int %s(int x) { static int n = %d; return n += x; }" % (f, A))
            c = [A]
            def fn(x):
                c[0] += x
                return c[0]
        elif k == 4 and (self.host.keys() & {"hs0", "hs1"}):
            h = d.pick(sorted(self.host.keys() & {"hs0", "hs1"}))
            t("int %s(int); int %s(int x) { return %s(x) + %d; }" % (h, f, h, B))
            g = [lambda x: x * 3 + 1, lambda x: x ^ 0x55, lambda x: 7 - x][self.host[h]]
            fn = lambda x: g(x) + B
        elif k == 5 and "hv" in self.host:
            t("extern int hv; int %s(int x) { return hv + x; }" % f)
            fn = lambda x: 4711 + x
        elif k == 6 and self.funs:
            g = d.pick(sorted(self.funs))
            h, nest = self.funs[g]
            t("int %s(int); int %s(int x) { return %s(x + %d) + %d; }" % (g, f, g, B, A))
            fn = lambda x: h(x + B) + A
        elif k == 7:
            v = "v%d" % i
            t("int %s = %d; int %s(int x) { %s += x; return %s; }" % (v, A, f, v, v))
            c = self.vars[v] = [A]
            def fn(x):
                c[0] += x
                return c[0]
        elif k == 8:
            h = d.pick(["h.h", "g.h"])
            hv = None
            for j in self.inc + self.sysinc:
                if h in self.dirs[j][1]:
                    hv = self.dirs[j][1][h]
                    break
            if hv is None or ("H" if h == "h.h" else "G") in self.seen:
                t("int %s(int x) { return x; }" % f)
                fn = lambda x: x
            else:
                q = ("<%s>" if d.draw(2) else "\"%s\"") % h
                m = "HV" if h == "h.h" else "GV"
                self.seen.add(m[0])
                t("#include %s\nint %s(int x) { return x + %s; }" % (q, f, m))
                fn = lambda x: x + hv
        elif k == 9:
            T, s = d.pick(TYPES)
            al = s
            size = 3 * al if not self.packed else s + 2
            t("struct S%d { char a; %s b; char c; }; int %s(int x) { return sizeof(struct S%d) + x; }" % (len(self.text), T, f, len(self.text)))
            fn = lambda x: size + x
        elif k == 10:
            t(d.pick(["#pragma pack(1)", "#pragma pack(push, 1)"]))
            t("struct K%d { char a; long b; }; int %s(int x) { return sizeof(struct K%d) + x; }" % (len(self.text), f, len(self.text)))
            self.packed = True
            fn = lambda x: 9 + x
        elif k == 11:
            s = "".join(d.pick("abcxyz019") for _ in range(1 + d.draw(20)))
            t("static const char *str%d = \"%s\"; int %s(int x) { return str%d[(unsigned)x %% %d]; }" % (len(self.text), s, f, len(self.text), len(s)))
            fn = lambda x: ord(s[(x & 0xffffffff) % len(s)])
        elif k == 12:
            t("int %s(int x) { switch (x) { case %d: return 1; case %d ... %d: return 2; default: return x / 3; } }" % (f, A, A + 1, A + 40))
            fn = lambda x: 1 if x == A else 2 if A < x <= A + 40 else int(x / 3)
        elif k == 13:
            t("int %s(int x) { double y = x * 0.25; float z = 1.5f; return (int)(y * %d + z); }" % (f, B))
            fn = lambda x: int(x * 0.25 * B + 1.5)
        elif k == 14:
            t("int %s(int x) { int n = (x & 15) + 1, s = 0; int a[n]; for (int i = 0; i < n; i++) a[i] = i * %d; for (int i = 0; i < n; i++) s += a[i]; return s; }" % (f, B))
            fn = lambda x: sum(j * B for j in range((x & 15) + 1))
        elif k == 15:
            t("int %s(int x) { void *t[] = { &&a, &&b, &&c }; goto *t[(unsigned)x %% 3]; a: return %d; b: return %d; c: return x; }" % (f, A, B))
            fn = lambda x: [A, B, x][(x & 0xffffffff) % 3]
        elif k == 16:
            t("int %s(int x) { int r = %d; asm(\"addl %%1, %%0\" : \"+r\"(r) : \"r\"(x)); return r; }" % (f, A))
            fn = lambda x: A + x
        elif k == 17:
            m = d.pick(["LK0", "LK1"])
            if m in self.seen:
                t("int %s(int x) { return %s(x); }" % (f, m))
                w = self.lk[m]
                fn = lambda x: x * w
            elif d.draw(2):
                t("#ifdef %s\n#error %s is defined\n#endif\n#define %s(a) ((a) * %d)\nint %s(int x) { return %s(x); }" % (m, m, m, B, f, m))
                self.seen.add(m)
                if not hasattr(self, "lk"):
                    self.lk = {}
                self.lk[m] = B
                fn = lambda x: x * B
            else:
                t("#ifdef %s\nint %s(int x) { return 0; }\n#else\nint %s(int x) { return x + 77; }\n#endif" % (m, f, f))
                fn = lambda x: x + 77
        elif k == 18:
            c = self.counter
            self.counter += 2
            t("int %s(int x) { return x + __COUNTER__ * 100 + __COUNTER__; }" % f)
            fn = lambda x: x + c * 100 + c + 1
        elif k == 19 and any("o.h" in self.dirs[j][1] for j in self.inc + self.sysinc):
            v = next(self.dirs[j][1]["o.h"] for j in self.inc + self.sysinc if "o.h" in self.dirs[j][1])
            t("#include <o.h>\n#include <o.h>\nint %s(int x) { return x + once_v; }" % f)
            fn = lambda x: x + v
        elif k == 20:
            t("int %s(int x) { char c = 200; return c + x; }" % f)
            v = 200 if self.uchar else -56
            fn = lambda x: v + x
        elif k == 21 and self.kind in ("mem", "run"):
            t("int abs(int); unsigned long strlen(const char *); int %s(int x) { return abs(x) + strlen(\"abc\"); }" % f)
            fn = lambda x: abs(x) + 3
        elif k == 22:
            t("int cm; int %s(int x) { return cm += x; }" % f)
            self.common = True
            c = self.cm
            def fn(x):
                c[0] += x
                return c[0]
        elif k == 23 and "hn" in self.host:
            t("int hn(int); int %s(int x) { int a = x + %d; a += hn(x); return a; }" % (f, A))
            fn = lambda x: x + A + x + 5
            nest = True
        elif k == 24:
            n = len(self.text)
            t("struct L%d { int a, b; }; int %s(int x) { struct L%d l = (struct L%d){ x, %d }; int *p = (int[]){ x, l.b, %d }; return l.a + p[1] * 2 + p[2]; }" % (n, f, n, n, A, B))
            fn = lambda x: x + A * 2 + B
        elif k == 25:
            t("static int rec%d(int n) { int *p = (int[]){ n }; if (n > 0) rec%d(n - 1); return *p; } int %s(int x) { return rec%d((x & 7) + 1) + %d; }" % (i, i, f, i, A))
            fn = lambda x: (x & 7) + 1 + A
        elif k == 26:
            t("static int cl%d; static void cf%d(int *p) { cl%d += *p; } int %s(int x) { cl%d = %d; for (int i = 0; i < 3; i++) { int c __attribute__((cleanup(cf%d))) = i + x; if (i == 1) continue; } return cl%d; }" % (i, i, i, f, i, A, i, i))
            fn = lambda x: A + 3 * x + 3
        elif k == 27:
            t("int %s(int x) { int s = 0, i = 0; while (1) { if (i++ > 9) break; do { if (i & 1) continue; s += %d; } while (0); for (;;) { if (s > 100000) goto out; break; } } out: return s + x; }" % (f, B))
            fn = lambda x: 5 * B + x
        elif k == 28:
            t("int %s(int x) { int a = ({ int x = %d; x + 1; }); { long x = a; { int a = 2; a += x; x = a; } a = x; } return a + x + sizeof(({ long c[7]; *c; })); }" % (f, A))
            fn = lambda x: A + 3 + x + 8
        elif k == 29:
            t("int %s(int x) { int a = x, b = 0; switch (x & 3) { case 0: a++; case 1: b = 5; break; default: switch (a & 4) { case 4: b = 9; break; case 0: { int b2 = 3; b = b2; } } a -= 2; } return a * 2 + b; }" % f)
            def fn(x):
                a, b = x, 0
                if (x & 3) < 2:
                    a, b = a + ((x & 3) == 0), 5
                else:
                    b = 9 if a & 4 else 3
                    a -= 2
                return a * 2 + b
        elif k == 30:
            t("static int vs%d(int n, ...) { __builtin_va_list l; int s = 0; __builtin_va_start(l, n); while (n--) s += __builtin_va_arg(l, int); __builtin_va_end(l); return s; } int %s(int x) { return vs%d(4, x, 2, %d, 4); }" % (i, f, i, A))
            fn = lambda x: x + 6 + A
        elif k == 31:
            t("inline static int in%d(int x); int %s(int x) { return in%d(x) + sizeof(typeof(x)) + _Generic(x, char: 1, int: 2, default: 3); } inline static int in%d(int x) { return x + %d; }" % (i, f, i, i, A))
            fn = lambda x: x + A + 6
        elif k == 32:
            n = len(self.text)
            t("static int ar%d[] = { [3] = %d, 7, [0 ... 1] = %d }; static int *pt%d = &ar%d[3], *pl%d = (int[]){ 3, %d }; int %s(int x) { return *pt%d + pt%d[1] + ar%d[1] + pl%d[1] + x + sizeof ar%d; }" % (n, A, B, n, n, n, A, f, n, n, n, n, n))
            fn = lambda x: A + 7 + B + A + x + 20
        else:
            t("int %s(int x) { return x * %d + %d; }" % (f, A, B))
            fn = lambda x: x * A + B
        self.funs[f] = (lambda x: i32(fn(x)), nest)

    def bad(self):
        d = self.d
        d.label("bad")
        line = 1 + d.draw(500)
        pre = []
        if d.draw(2):
            self.text, self.seen, self.incl = [], set(), set()
            self.counter, self.packed = 0, False
            for _ in range(1 + d.draw(3)):
                self.fun()
            pre = self.text
        text = "\n".join(pre) + "\n#line %d \"bad%d.c\"\n" % (line, self.slot) + d.pick(BAD)
        if d.draw(2):
            text += "\n"
        if d.draw(5) == 4:
            self.op("f", ["@SRC" + text], [("msg", "bad%d.c:" % self.slot), "file -1"])
        else:
            self.op("c", [text], [("msg", "bad%d.c:" % self.slot), "compile -1"])
        self.known, self.failed = False, True

    def noise(self):
        from checks import C13
        d = self.d
        d.label("noise")
        self.known = False
        t = C13.CHECK.parts[d.draw(3) // 2]
        c = t.gen(d)
        text = c["text"]
        if t.name == "asm" and not c.get("ext", "").endswith("c"):
            text = 'asm("%s");\n' % text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
        if "_address" in text or ".incbin" in text:
            text = "int none;"
        self.op("c", [text.replace("\0", " ")])

    # ---- after relocation
    def use(self):
        d = self.d
        for _ in range(1 + d.draw(6)):
            k = d.draw(10)
            if k == 9:
                self.op("g", ["no_such_name"], ["get no_such_name 0"])
            elif k == 8:
                fs = sorted(list(self.funs) + list(self.vars) + (["cm"] if self.common else []) + sorted(self.host))
                self.op("b", [], [("list", fs)])
            elif k == 7 and self.vars:
                v = d.pick(sorted(self.vars))
                if d.draw(2):
                    self.vars[v][0] = d.int(-9999, 9999)
                    self.op("w", [v, str(self.vars[v][0])], [])
                else:
                    self.op("v", [v], ["var %s %d" % (v, i32(self.vars[v][0]))])
            elif self.funs:
                f = d.pick(sorted(self.funs))
                x = d.pick([0, 1, -1, 7, 1000, d.int(-2000, 2000)])
                fn, nest = self.funs[f]
                self.op("x", [f, str(x)], ["call %s %d" % (f, fn(x))], nest)

    def run(self):
        d = self.d
        if not self.known:
            return
        nest = "hn" in self.host and d.draw(2)
        self.unit()
        if not self.known:
            return
        args = [d.pick(ARGS) for _ in range(d.draw(5))]
        x = d.draw(100)
        body, val = "", 0
        if self.funs:
            f = d.pick(sorted(self.funs))
            body = "int %s(int); " % f
        how = d.pick(["return s;", "exit(s);", "leave(3, s);", "atexit(last); return s;"])
        text = ("%sint strcmp(const char *, const char *); unsigned long strlen(const char *); void exit(int); int atexit(void (*)(void)); int hn(int);\n"
                "static void leave(int n, int s) { if (n) leave(n - 1, s); else exit(s); }\nstatic int late; static void last(void) { late = 1; }\n"
                "int main(int argc, char **argv) { int s = argc; for (int i = 1; i < argc; i++) s = s * 7 + (int)strlen(argv[i]) + (unsigned char)argv[i][0]; %s%s s &= 0x7f; %s }\n") % (
                    body, "s += %s(%d);" % (f, x) if self.funs else "", " s += hn(2);" if nest else "", how)
        s = 1 + len(args)
        for a in args:
            s = s * 7 + len(a) + (a[0] if a else 0)
        n2 = nest
        if self.funs:
            fn, fnest = self.funs[f]
            s += fn(x)
            n2 = n2 or fnest
        if nest:
            s += 7
        self.op("c", [text], ["compile 0"])
        self.op("R", [b"prog"] + args, ["run %d" % (s & 0x7f)], n2)


def enc(op, slot, args):
    return bytes([ord(op), slot, len(args)]) + b"".join(struct.pack("<I", len(a)) + a for a in args)


class Hist(Prop):
    name = "history"
    rule = ("histories over 2-5 library states: options, defines, undefines, include paths, host symbols, sources as strings and files (24 kinds of function whose names are shared between the states), sources with errors (45 kinds) and mutated programs, relocation, "
            "symbol lookup and listing, calls, variables, tcc_run with return, exit and atexit, output files, deletion and re-creation; interleaved, from inside running code of another state, or from several threads; oracle: a model of what each state "
            "defines, and for everything (results, messages, output file contents) the same state's commands alone in a fresh process; non-trivial = at least two states with source each")
    batch = 25
    quick_n, quick_secs = 14000, 50
    thorough_n, thorough_secs = 1000000, 600
    threads = together = False
    shrink_evals = 4000

    def gen(self, d):
        dirs = [("@D0", {"h.h": 10, "o.h": 5}), ("@D1", {"h.h": 20, "g.h": 1}), ("@D2", {"g.h": 2, "o.h": 6}), ("@D3", {})]
        slots = []
        for k in range(2 + d.draw(4)):
            s = State(d, k, dirs)
            s.life()
            while not s.live and d.draw(4) == 3:
                s.life()
            slots.append(s)
        return {"slots": [[(o, a, w, n) for o, a, w, n in s.ops] for s in slots], "cmds": self.merge(d, slots)}

    def merge(self, d, slots):
        """-> list of (slot, index of op, [nested items]) | ("P", [slots], [items])"""
        pos = [0] * len(slots)
        out = []
        left = lambda k: pos[k] < len(slots[k].ops)
        burst = d.pick([1, 2, 4])

        def take(k, deep):
            i = pos[k]
            pos[k] += 1
            item = [k, i, []]
            if slots[k].ops[i][3] and deep < 2 and d.draw(3):
                for _ in range(1 + d.draw(6)):
                    o = [j for j in range(len(slots)) if left(j) and j != k and j not in self.stack]
                    if not o:
                        break
                    d.label("nested")
                    self.stack.append(k)
                    item[2].append(take(d.pick(o), deep + 1))
                    self.stack.pop()
            return item
        self.stack = []
        while any(left(k) for k in range(len(slots))):
            o = [k for k in range(len(slots)) if left(k)]
            if self.threads and len(o) > 1 and d.draw(3):
                d.label("parallel")
                items = []
                for k in o:
                    for _ in range(1 + d.draw(12)):
                        if left(k):
                            items.append([k, pos[k], []])
                            pos[k] += 1
                out.append(["P", o, items])
                continue
            k = d.pick(o)
            for _ in range(1 + d.draw(burst)):
                if left(k):
                    out.append(take(k, 0))
        return out

    def nontrivial(self, c, d):
        return sum(any(o in "cf" for o, a, w, n in s) for s in c["slots"]) >= 2

    def show(self, c):
        out = []

        def walk(items, ind):
            for it in items:
                if it[0] == "P":
                    out.append(ind + "threads for %s" % it[1])
                    walk(it[2], ind + "  ")
                    continue
                o, a, w, n = c["slots"][it[0]][it[1]]
                out.append("%s%d.%d %s %s   => %s" % (ind, it[0], it[1], o, [x.decode("latin-1") for x in a], w))
                walk(it[2], ind + "  ")
        walk(c["cmds"], "")
        return "\n".join(out)

    def encode(self, c, w):
        files = {}

        def arg(k, i, a):
            for j in range(4):
                a = a.replace(b"@D%d" % j, os.path.join(w, "d%d" % j).encode())
            if a.startswith(b"@SRC"):
                n = "s%d_%d.c" % (k, i)
                with open(os.path.join(w, n), "wb") as f:
                    f.write(a[4:])
                return os.path.join(w, n).encode()
            if a.startswith(b"@OUT"):
                return os.path.join(w, "out%d" % k).encode()
            return a

        def items(l):
            b = b""
            for it in l:
                if it[0] == "P":
                    b += enc("P", 0, [items(it[2]), "".join(str(k) for k in it[1]).encode()])
                    continue
                k, i, sub = it
                o, a, _, n = c["slots"][k][i]
                a = [arg(k, i, x) for x in a]
                if o == "x" and sub:
                    a.append(items(sub))
                if o == "R" and sub:
                    a = [b"nest", items(sub)] + a
                b += enc(o, k, a)
            return b
        return items(c["cmds"])

    def drv(self, ctx):
        return ctx.exe["p"]

    def run(self, cases, ctx):
        w = ctx.work.path()
        os.makedirs(w, exist_ok=True)
        for i, h in enumerate([{"h.h": "#define HV 10\n", "o.h": "#pragma once\nstatic int once_v = 5;\n"}, {"h.h": "#define HV 20\n", "g.h": "#ifndef G\n#define G\n#define GV 1\n#endif\n"},
                               {"g.h": "#ifndef G\n#define G\n#define GV 2\n#endif\n", "o.h": "#ifndef O_H\n#define O_H\nstatic int once_v = 6;\n#endif\n"}, {}]):
            p = os.path.join(w, "d%d" % i)
            os.makedirs(p, exist_ok=True)
            for n, t in h.items():
                with open(os.path.join(p, n), "w") as f:
                    f.write(t)
        out = []
        for c in cases:
            out.append(self.one(c, ctx, w))
        return out

    def one(self, c, ctx, w):
        b = self.encode(c, w)
        exe, lib = self.drv(ctx)
        n = len(c["slots"])
        import subprocess
        modes = bytes([255] + list(range(n)))
        if self.together:
            modes = modes[:1]       # what each state does is judged by the other parts
        q = bytes([len(modes)]) + modes + struct.pack("<I", len(b)) + b
        key = (os.getpid(), exe)
        if getattr(self, "_p", (None,))[0] != key:
            self._p = (key, subprocess.Popen([exe, lib, "20"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.work.path() if os.path.isdir(ctx.work.path()) else "/tmp",
                                             env=dict(os.environ, LC_ALL="C", **self.env)))
        p = self._p[1]
        p.stdin.write(struct.pack("<I", len(q)) + q)
        p.stdin.flush()
        rd = p.stdout.read
        res = []
        for m in modes:
            how, code = struct.unpack("<BI", rd(5))
            logs = []
            for k in range(8):
                (l,) = struct.unpack("<I", rd(4))
                logs.append(rd(l))
            (l,) = struct.unpack("<I", rd(4))
            res.append((how, code, logs, rd(l)))
        if self.together:
            how, code, logs, err = res[0]
            if code == 66 and b"data race" in err:
                return Fail("data race\n" + err.decode("latin-1")[:4000])
            return None
        for m in range(1, n + 1):
            if res[m][0] or res[m][1]:
                if res[m][0] == 2 or b"memory full" in res[m][3]:
                    return None
                # the noise itself ends badly: not about states (C13), unless the model knows the state
                if any(x[2] is None for x in c["slots"][m - 1]):
                    return None
                return Fail("state %d alone: %s %d\n%s" % (m - 1, ["status", "signal", "time"][res[m][0]], res[m][1], res[m][3].decode("latin-1")[-3000:]))
        how, code, logs, err = res[0]
        if how or code:
            return Fail("together: %s %d\n%s" % (["status", "signal", "time"][how], code, err.decode("latin-1")[-3000:]))
        for k in range(n):
            a, s = logs[k], res[k + 1][2][k]
            if a != s:
                return Fail("state %d: together\n%s\nalone\n%s" % (k, a.decode("latin-1")[-3000:], s.decode("latin-1")[-3000:]))
            f = self.model(c["slots"][k], a.decode("latin-1"))
            if f:
                return Fail("state %d: %s\n%s" % (k, f, a.decode("latin-1")[-3000:]))
        return None

    env = {}

    def model(self, ops, log):
        parts = log.split("\x01\n")[1:]
        if len(parts) != len(ops):
            return "%d of %d operations logged" % (len(parts), len(ops))
        for (o, a, want, _), got in zip(ops, parts):
            if want is None:
                continue
            g = got.split("\n")[:-1]
            i = 0
            for w in want:
                if isinstance(w, tuple) and w[0] == "msg":
                    seen = False
                    while i < len(g) and g[i][:4] in ("msg ", "MSG "):
                        seen = seen or w[1] in g[i]
                        i += 1
                    if not seen:
                        return "%s: no message with %s" % (o, w[1])
                    continue
                if i >= len(g):
                    return "%s: expected %s, got nothing" % (o, w)
                if isinstance(w, tuple):
                    names = set(g[i].split()[1:])
                    if not set(w[1]) <= names:
                        return "list lacks %s" % sorted(set(w[1]) - names)
                elif g[i] != w:
                    return "%s %s: expected %r, got %r" % (o, a[:1], w, g[i])
                i += 1
            if i < len(g):
                return "%s: unexpected %r" % (o, g[i])
        return None


class San(Hist):
    name = "sanitized"
    rule = "the same histories on a library built with the address sanitizer; non-trivial as before"
    quick_n, quick_secs = 4000, 40
    thorough_n, thorough_secs = 1000000, 300
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:max_allocation_size_mb=600:allocator_may_return_null=1"}

    def drv(self, ctx):
        return ctx.exe["a"]


class Threads(Hist):
    name = "threads"
    rule = "the same histories with stretches in which every state is used by a thread of its own; non-trivial as before, with such a stretch"
    threads = True
    quick_n, quick_secs = 8000, 40
    thorough_n, thorough_secs = 1000000, 400

    def nontrivial(self, c, d):
        return Hist.nontrivial(self, c, d) and "parallel" in d.labels


class Races(Threads):
    name = "races"
    rule = "the same as threads, on a library built with the thread sanitizer, which must report no data race in the library; non-trivial as for threads"
    quick_n, quick_secs = 2000, 40
    thorough_n, thorough_secs = 1000000, 300
    env = {"TSAN_OPTIONS": "exitcode=66"}
    together = True

    def drv(self, ctx):
        return ctx.exe["t"]


class C(Check):
    id = "C14"
    parts = [Hist(), San(), Threads(), Races()]
    assumptions = ["a process forked from one that never called the library is a fresh process", "threads are scheduled by the operating system"]

    def setup(self, ctx):
        ctx.work = cbatch.Work(ctx.scratch)
        ctx.exe = {}
        for t, v in (("p", "plain"), ("a", "asan")):
            b = build.full(ctx.scratch, t, v)
            e = build.driver(ctx.scratch, "states" + t, ["states.c"], [], san=False, root=b.root, libs=[b.libtcc, "-ldl", "-lm", "-lpthread"], extra=["-fsanitize=address"] if t == "a" else ["-DTRACE", "-rdynamic"])
            ctx.exe[t] = (e, b.tccdir)
            if t == "p":
                ctx.b = b
        b = ctx.b
        o = os.path.join(ctx.scratch, "libtcc-t.o")
        build.sh(["gcc", "-g", "-O1", "-w", "-fsanitize=thread", "-DONE_SOURCE=1", "-c", "libtcc.c", "-o", o], cwd=b.tccdir)
        ctx.exe["t"] = (build.driver(ctx.scratch, "statest", ["states.c"], [], san=False, root=b.root, libs=[o, "-ldl", "-lm", "-lpthread"], extra=["-fsanitize=thread"]), b.tccdir)


CHECK = C()
