"""Programs of several modules with a known result.

gen(d, nm) makes a program: modules share globals, arrays, structs, strings,
pointers and function tables; functions only call lower-numbered ones.  text()
writes the modules, Model runs the program in Python.
"""
from .pbt import Discard

M32 = 0xFFFFFFFF
STRS = ["abc", "hello world", "x", "caf\\303\\251", "tab\\there", "a\\\\b", "%d %s", "", "quote\\\"s", "0123456789abcdef"]
PLAIN = [b"abc", b"hello world", b"x", b"caf\xc3\xa9", b"tab\there", b"a\\b", b"%d %s", b"", b"quote\"s", b"0123456789abcdef"]


class Prog:
    """mods: number of modules; vars: list of (kind, module, data); funcs: list of (module, static, stmts, flags); main: list of stmts"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Prog(%r)" % sorted(self.__dict__.items())


def gen(d, nm, libc=True, atexits=True, statics=True):
    V, F = [], []
    nv = d.int(2, 9)
    for i in range(nv):
        m = d.draw(nm)
        k = d.wpick([(4, "int"), (2, "tent"), (3, "arr"), (1, "zarr"), (2, "str"), (1, "strp"), (2, "struct"), (1, "dbl"), (1, "chr"), (1, "big")])
        if k in ("int", "chr"):
            data = d.draw(256) if k == "chr" else d.draw(1 << 32)
        elif k in ("arr",):
            data = tuple(d.draw(d.pick([10, 1000, 1 << 32])) for _ in range(d.int(1, 7)))
        elif k == "zarr":
            data = d.pick([3, 17, 1000, 5000])
        elif k in ("str", "strp"):
            data = d.draw(len(STRS))
        elif k == "struct":
            data = (d.draw(1 << 32), d.draw(256), d.draw(1 << 16), d.draw(4))
        elif k == "dbl":
            data = d.draw(4000) - 2000
        elif k == "big":
            data = (d.pick([5, 300, 4000]), d.draw(1 << 32))
        else:
            data = 0
        V.append((k, m, data))
    # pointers to elements of what is there
    for i in range(d.draw(4)):
        c = [(j, v) for j, v in enumerate(V) if v[0] in ("int", "tent", "arr", "zarr", "big")]
        if c:
            j, v = d.pick(c)
            n = 1 if v[0] in ("int", "tent") else len(v[2]) if v[0] == "arr" else v[2] if v[0] == "zarr" else v[2][0]
            V.append(("ptr", d.draw(nm), (j, d.draw(n))))
    nf = d.int(1, 10)
    for i in range(nf):
        m = d.draw(nm)
        if i and d.chance(1, 4):
            V.append(("tab", d.draw(nm), tuple(d.draw(i) for _ in range(d.int(1, 4)))))
        st = []
        calls = 0
        kind = d.wpick([(6, "plain"), (1, "vararg"), (1, "byval"), (1, "dbl"), (1, "inline")])
        for _ in range(d.int(1, 5)):
            s = stmt(d, i, V, m, nm, libc)
            if s[0] in ("call", "tabcall"):
                calls += 1
                if calls > 2:
                    continue
            st.append(s)
        F.append((m, kind, tuple(st)))
    mainst = []
    for _ in range(d.int(1, 4)):
        mainst.append(("print", d.draw(nf), d.draw(1 << 32)))
    for i, v in enumerate(V):
        if v[0] in ("str", "strp") and d.chance(1, 2):
            mainst.append(("puts", i, 0))
        if v[0] == "dbl":
            mainst.append(("printd", i, 0))
    end = d.wpick([(4, "return"), (2, "exit"), (1, "fall"), (1, "_exit")])
    return Prog(nm=nm, V=tuple(V), F=tuple(F), main=tuple(d.shuffle(mainst)), end=end, code=d.wpick([(2, 0), (3, d.draw(256))]), mm=d.draw(nm),
                hidden=tuple(d.draw(1000) for _ in range(nm)), atexit=atexits and d.chance(1, 4), buf=d.draw(3), ctr=d.chance(1, 3) and statics)


def stmt(d, fi, V, m, nm, libc):
    k = d.wpick([(3, "add"), (2, "xor"), (2, "mul"), (4, "var"), (3, "setvar"), (3, "call"), (2, "tabcall"), (1, "switch"), (1, "cnt"), (1, "hidden"), (1, "loop"), (1, "line"),
                 (1, "fpeq"), (1, "libc"), (1, "goto"), (1, "vla")])
    if k in ("call",) and fi == 0:
        k = "add"
    if k == "tabcall":
        c = [j for j, v in enumerate(V) if v[0] == "tab"]
        if not c:
            k = "xor"
        else:
            j = d.pick(c)
            return ("tabcall", j, d.draw(1000))
    if k in ("var", "setvar"):
        c = [j for j, v in enumerate(V) if v[0] != "tab" and (k == "var" or v[0] not in ("str", "strp", "dbl"))]
        if not c:
            k = "mul"
        else:
            return (k, d.pick(c), d.draw(1 << 16))
    if k == "libc" and not libc:
        k = "add"
    if k == "call":
        return ("call", d.draw(fi), d.draw(1 << 32))
    if k == "fpeq":
        c = [j for j, v in enumerate(V) if v[0] == "tab"]
        if not c:
            return ("add", 5, 0)
        return ("fpeq", d.pick(c), d.draw(fi) if fi else 0)
    if k == "switch":
        return ("switch", tuple(d.draw(100) for _ in range(4)), d.draw(2))
    return (k, d.draw(1 << 32), d.draw(7))


def length(v):
    return {"arr": lambda: len(v[2]), "zarr": lambda: v[2], "big": lambda: v[2][0]}[v[0]]()


STRUCT = "struct S { unsigned a; unsigned char b; short c; unsigned d : 2; };\n"
HELP = ("#ifndef COMMON_H\n#define COMMON_H\n" + STRUCT +
        "unsigned vsum(int n, ...);\n"
        "struct P { unsigned a; double b; char c[5]; };\n"
        "struct P mkp(unsigned a, double b, struct P q);\n"
        "double dmix(float a, double b, long double c, unsigned u);\n#endif\n")
HDEF = ("#include <stdarg.h>\nunsigned vsum(int n, ...) { va_list ap; unsigned r = 0; int i; va_start(ap, n);\n"
        " for (i = 0; i < n; i++) { if (i % 3 == 2) r += (unsigned)va_arg(ap, double); else if (i % 3 == 1) r ^= (unsigned)va_arg(ap, long); else r += va_arg(ap, unsigned); }\n va_end(ap); return r; }\n"
        "struct P mkp(unsigned a, double b, struct P q) { struct P r; r.a = a + q.a; r.b = b - q.b; r.c[0] = q.c[4] + 1; r.c[4] = a; r.c[1] = r.c[2] = r.c[3] = 0; return r; }\n"
        "double dmix(float a, double b, long double c, unsigned u) { return (double)(a * 2 + b / 4 + c) + u; }\n")


class Writer:
    def __init__(self, p, merged, hdr):
        self.p, self.merged, self.hdr = p, merged, hdr
        self.tag = 0

    def decl(self, i):
        k, m, data = self.p.V[i]
        return {"int": "extern unsigned v%d;", "tent": "extern unsigned v%d;", "arr": "extern unsigned v%d[];", "zarr": "extern unsigned v%d[];", "big": "extern unsigned v%d[];", "str": "extern const char v%d[];",
                "strp": "extern const char *v%d;", "struct": "extern struct S v%d;", "dbl": "extern double v%d;", "chr": "extern unsigned char v%d;", "ptr": "extern unsigned *v%d;",
                "tab": "extern unsigned (*v%d[])(unsigned);"}[k] % i

    def define(self, i):
        k, m, data = self.p.V[i]
        if k == "int":
            return "unsigned v%d = %uu;" .replace("%u", "%d") % (i, data)
        if k == "tent":
            return "unsigned v%d;" % i
        if k == "arr":
            return "unsigned v%d[%d] = {%s};" % (i, len(data), ", ".join("%du" % x for x in data))
        if k == "zarr":
            return "unsigned v%d[%d];" % (i, data)
        if k == "big":
            return "unsigned v%d[%d] = {[%d] = %du};" % (i, data[0], data[0] - 1, data[1])
        if k == "str":
            return "const char v%d[] = \"%s\";" % (i, STRS[data])
        if k == "strp":
            return "const char *v%d = \"%s\";" % (i, STRS[data])
        if k == "struct":
            return "struct S v%d = {%du, %d, %d, %d};" % (i, data[0], data[1], data[2] - 32768, data[3])
        if k == "dbl":
            return "double v%d = %r;" % (i, data / 4.0)
        if k == "chr":
            return "unsigned char v%d = %d;" % (i, data)
        if k == "ptr":
            j, off = data
            return "unsigned *v%d = %s;" % (i, "&v%d" % j if self.p.V[j][0] in ("int", "tent") else "&v%d[%d]" % (j, off) if off % 2 else "v%d + %d" % (j, off))
        if k == "tab":
            return "unsigned (*v%d[])(unsigned) = {%s};" % (i, ", ".join(("f%d" if x % 2 else "&f%d") % x for x in data))

    def st(self, s, fi, m):
        k, a, b = s
        V = self.p.V
        if k == "add":
            return "x += %du;" % a
        if k == "xor":
            return "x ^= %du;" % a
        if k == "mul":
            return "x = x * %du + %d;" % (a | 1, b)
        if k == "var":
            v = V[a]
            return {"int": "x += v%d;", "tent": "x += v%d;", "chr": "x += v%d;", "strp": "x += (unsigned char)*v%d;", "str": "x += (unsigned char)v%d[0];", "struct": "x += v%d.a + v%d.b * 3 + v%d.c + v%d.d;",
                    "dbl": "x += (unsigned)(int)(v%d * 4);", "ptr": "x += *v%d;"}.get(v[0], "x += v%%d[x %% %du];" % (length(v) if v[0] in ("arr", "zarr", "big") else 1)).replace("%d", str(a)).replace("%%", "%")
        if k == "setvar":
            v = V[a]
            t = {"int": "v%d += x;", "tent": "v%d ^= x + " + str(b) + ";", "chr": "v%d += x;", "struct": "v%d.a -= x; v%d.b += 3; v%d.c ^= x; v%d.d++;", "ptr": "*v%d += x;"}.get(v[0])
            if t is None:
                t = "v%%d[(x >> 2) %% %du] += x + %d;" % (length(v), b)
                t = t.replace("%%", "%")
            return t.replace("%d", str(a))
        if k == "call":
            return self.call("f%d" % a, a, "x + %du" % b)
        if k == "tabcall":
            return "x ^= v%d[x %% %du](x + %d);" % (a, len(V[a][2]), b)
        if k == "switch":
            return "switch (x % 5) { case 0: x += C0; break; case 1: x ^= C1;%s case 3: x += C2; break; default: x -= C3; }".replace("C0", str(a[0])).replace("C1", str(a[1])).replace("C2", str(a[2])).replace("C3", str(a[3])) .replace(
                "%s", " break;" if b else "")
        if k == "cnt":
            return "{ static unsigned n = %du; x += n; n += 7; }" % (a % 1000)
        if k == "hidden":
            h = "hidden%s" % (m if self.merged else "")
            return "x += %s; %s += 3;" % (h, h)
        if k == "loop":
            return "{ unsigned i; for (i = 0; i < %d; i++) x = x * 33 + i; }" % (b + 1)
        if k == "line":
            self.tag += 1
            return "x += __LINE__; /*@%d-%d@*/" % (fi, a)
        if k == "fpeq":
            return "x += (v%d[0] == f%d) * 5;" % (a, b)
        if k == "libc":
            return {0: "x += (unsigned)strlen(\"%d\" + x %% 3);" % (1000 + a % 1000), 1: "{ char t[40]; x += sprintf(t, \"%u/%d\", x, (int)(x % 100)); x += t[1]; }",
                    2: "x += lenp == strlen;", 3: "x += (unsigned)lenp(\"four\");", 4: "{ unsigned *q = malloc(40); memset(q, 0, 40); q[3] = x; x = q[3] + q[4]; free(q); }",
                    5: "x += (unsigned)floor((double)(x % 1000) / 8);", 6: "x += abs(-(int)(x % 999));"}[b]
        if k == "goto":
            return "{ unsigned n = 0; again%s: x += n; if (++n < %d) goto again%s; }" % (self.lab(), b + 1, self.tag)
        if k == "vla":
            return "{ unsigned t[x %% 5 + 1]; t[x %% 5] = x; x += t[x %% 5] >> %d; }" % (b + 1)
        raise KeyError(k)

    def lab(self):
        self.tag += 1
        return self.tag

    def call(self, name, j, arg):
        return "x ^= %s(%s);" % (name, arg)

    def module(self, m):
        """text of module m (or of all when merged)"""
        p = self.p
        out = ["#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <unistd.h>\n"]
        out.append("#include \"common.h\"\n" if self.hdr else HELP)
        mods = range(p.nm) if self.merged else [m]
        for i in range(len(p.V)):
            out.append(self.decl(i) + "\n")
        for i, f in enumerate(p.F):
            out.append("unsigned f%d(unsigned x);\n" % i)
        out.append("extern size_t (*lenp)(const char *);\n")
        for mm in mods:
            body = []
            if mm == 0:
                body.append(HDEF)
                body.append("size_t (*lenp)(const char *) = strlen;\n")
            body.append("static unsigned hidden%s = %d;\n" % (mm if self.merged else "", p.hidden[mm]))
            for i, v in enumerate(p.V):
                if v[1] == mm:
                    body.append(self.define(i) + "\n")
            for i, (fm, kind, sts) in enumerate(p.F):
                if fm != mm:
                    continue
                t = "unsigned f%d(unsigned x) {\n" % i
                t += "".join("  %s\n" % self.st(s, i, mm) for s in sts)
                if kind == "vararg":
                    t += "  x += vsum(4, x, (long)x + 1, 2.5, x);\n"
                elif kind == "byval":
                    t += "  { struct P q = {1, 0.5, {0, 0, 0, 0, 7}}; q = mkp(x, 2.0, q); x += q.a + (unsigned)(q.b * 2) + (unsigned char)q.c[0] + (unsigned char)q.c[4]; }\n"
                elif kind == "dbl":
                    t += "  x += (unsigned)(long)dmix(1.5f, 8.0, 3.25L, x % 1000);\n"
                elif kind == "inline":
                    t = "static inline unsigned h%d(unsigned x) { return x * 3 + 1; }\n" % i + t + "  x += h%d(x);\n" % i
                body.append(t + "  return x;\n}\n")
            if mm == p.mm:
                t = ""
                if p.atexit:
                    t += "static void bye(void) { printf(\"bye %u\\n\", hidden@); }\n".replace("@", str(mm) if self.merged else "")
                if p.ctr:
                    t += "static int depth(int n) { char pad[100]; pad[n % 100] = n; return n ? depth(n - 1) + (pad[n % 100] == (char)n) : 0; }\n"
                t += "int main(int argc, char **argv) {\n"
                if p.atexit:
                    t += "  atexit(bye);\n"
                if p.buf == 1:
                    t += "  setvbuf(stdout, 0, _IONBF, 0);\n"
                for k, a, b in p.main:
                    if k == "print":
                        t += "  printf(\"%%u\\n\", f%d(%du));\n" % (a, b)
                    elif k == "puts":
                        t += "  puts(v%d);\n" % a
                    else:
                        t += "  printf(\"%%g\\n\", v%d);\n" % a
                if p.ctr:
                    t += "  printf(\"%d %d\\n\", depth(500), argc);\n"
                if p.end == "return":
                    t += "  return %d;\n" % p.code
                elif p.end == "exit":
                    t += "  exit(%d);\n" % p.code
                elif p.end == "_exit":
                    t += "  fflush(stdout); _exit(%d);\n" % p.code
                body.append(t + "}\n")
            out += body
        return "".join(out)


class Model:
    def __init__(self, p, lines):
        self.p, self.lines, self.fuel = p, lines, 20000
        self.v = {}
        for i, (k, m, data) in enumerate(p.V):
            if k in ("int", "chr"):
                self.v[i] = data
            elif k == "tent":
                self.v[i] = 0
            elif k == "arr":
                self.v[i] = list(data)
            elif k == "zarr":
                self.v[i] = [0] * data
            elif k == "big":
                self.v[i] = [0] * (data[0] - 1) + [data[1]]
            elif k == "struct":
                self.v[i] = [data[0], data[1], data[2] - 32768, data[3]]
        self.hidden = list(p.hidden)
        self.cnt = {}

    def f(self, i, x):
        m, kind, sts = self.p.F[i]
        V, v = self.p.V, self.v
        for n, (k, a, b) in enumerate(sts):
            self.fuel -= 1
            if self.fuel < 0:
                raise Discard()
            if k == "add":
                x += a
            elif k == "xor":
                x ^= a
            elif k == "mul":
                x = x * (a | 1) + b
            elif k == "var":
                t = V[a][0]
                if t in ("int", "tent", "chr"):
                    x += v[a]
                elif t in ("str", "strp"):
                    x += (PLAIN[V[a][2]] + b"\0")[0]
                elif t == "struct":
                    s = v[a]
                    x += s[0] + s[1] * 3 + s[2] + s[3]
                elif t == "dbl":
                    x += V[a][2]
                elif t == "ptr":
                    j, off = V[a][2]
                    x += v[j] if V[j][0] in ("int", "tent") else v[j][off]
                else:
                    x += v[a][x % len(v[a])]
            elif k == "setvar":
                t = V[a][0]
                if t == "int":
                    v[a] = (v[a] + x) & M32
                elif t == "tent":
                    v[a] = v[a] ^ ((x + b) & M32)
                elif t == "chr":
                    v[a] = (v[a] + x) & 255
                elif t == "struct":
                    s = v[a]
                    c = (s[2] ^ x) & 0xFFFF
                    v[a] = [(s[0] - x) & M32, (s[1] + 3) & 255, c - 65536 if c >= 32768 else c, (s[3] + 1) & 3]
                elif t == "ptr":
                    j, off = V[a][2]
                    if V[j][0] in ("int", "tent"):
                        v[j] = (v[j] + x) & M32
                    else:
                        v[j][off] = (v[j][off] + x) & M32
                else:
                    e = (x >> 2) % len(v[a])
                    v[a][e] = (v[a][e] + x + b) & M32
            elif k == "call":
                x ^= self.f(a, (x + b) & M32)
            elif k == "tabcall":
                t = V[a][2]
                x ^= self.f(t[x % len(t)], (x + b) & M32)
            elif k == "switch":
                r = x % 5
                if r == 0:
                    x += a[0]
                elif r == 1:
                    x ^= a[1]
                    if not b:
                        x += a[2]
                elif r == 3:
                    x += a[2]
                else:
                    x -= a[3]
            elif k == "cnt":
                c = self.cnt.get((i, n), a % 1000)
                x += c
                self.cnt[(i, n)] = (c + 7) & M32
            elif k == "hidden":
                x += self.hidden[m]
                self.hidden[m] += 3
            elif k == "loop":
                for q in range(b + 1):
                    x = (x * 33 + q) & M32
            elif k == "line":
                x += self.lines["%d-%d" % (i, a)]
            elif k == "fpeq":
                x += (V[a][2][0] == b) * 5
            elif k == "libc":
                if b == 0:
                    x += 4 - x % 3
                elif b == 1:
                    s = "%d/%d" % (x, x % 100)
                    x = x + len(s)
                    x += ord(s[1])
                elif b == 2:
                    x += 1
                elif b == 3:
                    x += 4
                elif b == 5:
                    x += x % 1000 // 8
                elif b == 6:
                    x += x % 999
            elif k == "goto":
                x += sum(range(b + 1))
            elif k == "vla":
                x += x >> (b + 1)
            x &= M32
        if kind == "vararg":
            r = x
            r ^= (x + 1) & M32
            r += 2
            r += x
            x += r
        elif kind == "byval":
            a = (x + 1) & M32
            x += a + 3 + 8 + (x & 255)
        elif kind == "dbl":
            x += int(1.5 * 2 + 8.0 / 4 + 3.25 + x % 1000)
        elif kind == "inline":
            x += x * 3 + 1
        return x & M32

    def run(self):
        out = []
        p = self.p
        for k, a, b in p.main:
            if k == "print":
                out.append(b"%d\n" % self.f(a, b))
            elif k == "puts":
                out.append(PLAIN[p.V[a][2]] + b"\n")
            else:
                out.append(b"%s\n" % (b"%g" % (p.V[a][2] / 4.0)))
        if p.ctr:
            out.append(b"500 1\n")
        if p.atexit and p.end != "_exit":
            out.append(b"bye %d\n" % self.hidden[p.mm])
        return b"".join(out), 0 if p.end == "fall" else p.code
