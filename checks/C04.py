"""C04: calls between code compiled by cjit and code compiled by gcc and clang."""
import os, re
from vf import build, cbatch, proc
from vf.ctypes_ import *
from vf.runner import Check

# One text, compiled once per side.  Side 0 has main and is cjit's; side 1 is
# gcc's or clang's, an object or a shared library.  Without SIDE both sides
# land in one translation unit: the reference.
HEAD = r'''
#ifndef SIDE
#define BOTH
#define SIDE 0
#include __FILE__
#undef SIDE
#define SIDE 1
#include __FILE__
#else
#undef ME
#undef TH
#undef TAB
#if SIDE == 0
#define ME(x) a_##x
#define TH(x) b_##x
#define TAB static
#else
#define ME(x) b_##x
#ifdef SO
#define TH(x) (*q_##x)
#else
#define TH(x) a_##x
#endif
#endif
#if SIDE == 0 || !defined BOTH
typedef unsigned long size_t; typedef int (*FP_)(void);
extern long write(int, const void *, unsigned long);
extern void *malloc(size_t); extern void free(void *);
#define NOI __attribute__((noinline))
static void (*out_)(int);
static void P(unsigned long long v) {
    char t[20]; int i = 0;
    do { t[i++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
    while (i) out_(t[--i]);
    out_(' ');
}
static void S_(const char *s) { while (*s) out_(*s++); out_(' '); }
static void D_(const void *p, size_t n) { const unsigned char *s = p; while (n--) { out_("0123456789abcdef"[*s >> 4]); out_("0123456789abcdef"[*s++ & 15]); } out_(' '); }
static void Z_(void *p, int c, size_t n) { unsigned char *s = p; while (n--) *s++ = c; }
static void Pf(float x) { unsigned char *s = (void *)&x; D_(s, 4); }
static void Pd(double x) { unsigned char *s = (void *)&x; D_(s, 8); }
static void Pl(long double x) { unsigned char *s = (void *)&x; D_(s, 10); }
static char G_[16] = "0123456789abcde"; static int GI_[4];
static struct { char a; char b[5]; int i; } GS_;
static const char *base_;
static int fa_(void) { return 11; } static int fb_(void) { return 22; }
static void Pp(const char *p) { if (!p) S_("null"); else P(*(unsigned char *)p); }
static void Pq(int (*p)(void)) { P(p ? p() : 0); }
static void Ps(const char *p) { S_(p ? p : "null"); }
static volatile int vi_ = 3; static volatile double vd_ = 1.25; static volatile long vl_ = -7; static volatile float vf_ = 2.5f; static volatile long double vld_ = 0.375L;
static void use_(void *p) { *(volatile char *)p = 1; }
static void AL_(void *p, int a) { if ((size_t)p & (a - 1)) { S_("misaligned"); P(a); } }
#endif
static int ME(nest_);
#if SIDE == 0
static char B_[1 << 16]; static int n_;
static void put_(int c) { if (n_ == sizeof B_) { write(1, B_, n_); n_ = 0; } B_[n_++] = c; }
#endif
'''


class Abi(cbatch.UnitProp):
    name = "calls"
    rule = ("2-5 functions per case over generated parameter lists (0-20 parameters of every scalar type, small structs and unions of every register class, larger and packed ones, function pointers) and results, "
            "fixed, variadic (va_list handed on, va_copy), unprototyped; each compiled by cjit and by the other compiler and called from the other side in generated forms (nested calls, function pointers, live values, "
            "alloca, callbacks, recursion across the border); receivers print every member of every parameter, callers every result; non-trivial = a call with at least 3 parameters or a struct")
    batch = 60
    quick_n, quick_secs = 20000, 45
    thorough_n, thorough_secs = 300000, 600
    MODES = [("gcc", ["-O2", "-shared", "-fPIC", "-DSO"]), ("clang", ["-O1", "-shared", "-fPIC", "-DSO"]), ("gcc", ["-O1", "-c"]), ("clang", ["-O2", "-c", "-fPIC"]), ("gcc", ["-O2", "-fno-pic", "-c", "exe"])]

    def program(self, units, idx=None):
        idx = list(idx or range(len(units)))
        out = [HEAD]
        for i, u in zip(idx, units):
            out.append("//unit %d" % i)
            out.append("#if SIDE == 0 || !defined BOTH\n%s\n#endif" % u["types"].replace("@", str(i)))
            out.append(u["top"].replace("@", str(i)))
            out.append("void ME(u%d)(void) {\n%s\n}" % (i, u["body"].replace("@", str(i))))
        out.append("//main")
        out.append("#if SIDE == 0\nvoid b_init(void (*)(int));")
        for i in idx:
            out.append("void b_u%d(void);" % i)
        out.append("int main(void) {\nout_ = put_; b_init(put_);")
        for i, u in zip(idx, units):
            out.append("\n".join("#ifdef SO\nvoid s_%s(void *); s_%s(a_%s);\n#endif" % (f, f, f) for f in u["fns"]).replace("@", str(i)))
            out.append('S_("\\n#%d"); a_u%d(); S_("/"); b_u%d(); if (n_) write(1, B_, n_); n_ = 0;' % (i, i, i))
        out.append('S_("\\n#end"); write(1, B_, n_); return 0; }\n#else')
        out.append("void b_init(void (*f)(int)) { out_ = f; }\n#endif\n#endif")
        return "\n".join(out) + "\n"

    def run_test(self, ctx, text, mode=None):
        w = ctx.work.path()
        src = os.path.join(w, "t.c")
        with open(src, "w", encoding="latin-1") as f:
            f.write(text)
        cc, fl = self.MODES[self.mode if mode is None else mode]
        so, exe = "-shared" in fl, "exe" in fl
        lib = os.path.join(w, "libt.so" if so else "t1.o")
        b = proc.run([cc, "-w", "-std=gnu11", "-fno-strict-aliasing", "-DSIDE=1"] + [x for x in fl if x != "exe"] + ["-o", lib, src], timeout=120, fsize=1 << 30)
        if b.rc != 0:
            return proc.R(0, b"", b"REF " + b.err, False)
        with open(w + "/a.c", "w") as f:
            f.write("#define SIDE 0\n%s#include \"t.c\"\n" % ("#define SO\n" if so else ""))
        if exe:
            r = proc.run([ctx.b.cjit, "-q", "-o", "t.x", "a.c", lib], cwd=w, timeout=20)
            if r.rc == 0:
                r = proc.run(["./t.x"], cwd=w, timeout=20)
            return r
        return proc.run([ctx.b.cjit, "-q", "a.c"] + (["-L" + w, "-lt"] if so else [lib]), cwd=w, timeout=20)

    def run(self, cases, ctx):
        res = [None] * len(cases)
        for m in range(len(self.MODES)):
            idx = [i for i, c in enumerate(cases) if c["mode"] == m]
            if idx:
                self.mode = m
                for i, r in zip(idx, super().run([cases[i] for i in idx], ctx)):
                    res[i] = r
        return res

    def confirm(self, u, ctx):
        self.mode = u["mode"]
        return super().confirm(u, ctx)

    def company(self, cases, ctx):
        self.mode = cases[0]["mode"]
        return super().company(cases, ctx)

    def show(self, u):
        return "other side by %s %s\n%s\n%s\nvoid ME(u@)(void) {\n%s\n}" % (self.MODES[u["mode"]][0], " ".join(self.MODES[u["mode"]][1]), u["types"], u["top"], u["body"])

    # --- generation ---------------------------------------------------
    def gen(self, d):
        return Gen(d).case()

    def nontrivial(self, c, d):
        return c["big"]


def pr(t, path):
    if t.cls in ("int", "enum"):
        return "P(%s);" % path
    if t.cls == "float":
        return {"float": "Pf", "double": "Pd", "long double": "Pl"}[t.name] + "(%s);" % path
    return {"ptr": "Pp", "cstr": "Ps", "fptr": "Pq"}[t.cls] + "(%s);" % path


def prall(t, path, cap=24):
    return " ".join(pr(s, p) for p, s, w in leaves(t, path, cap=cap))


class Fn:
    pass


def layout(t, off=0):
    """(size, alignment, [(offset, leaf)]), or None with attributes or bit-fields"""
    if isinstance(t, Sc):
        return t.size, t.size, [(off, t)]
    if isinstance(t, Arr):
        l = layout(t.el, off)
        if l is None:
            return None
        out = []
        for i in range(t.n):
            out += layout(t.el, off + i * l[0])[2]
        return l[0] * t.n, l[1], out
    if t.attr or t.pack:
        return None
    size, al, out = 0, 1, []
    for m in t.mems:
        if m.width is not None or m.attr or m.pre:
            return None
        s, a, _ = layout(m.ty) or (None, None, None)
        if s is None:
            return None
        o = 0 if t.union else (size + a - 1) // a * a
        out += layout(m.ty, off + o)[2]
        size = max(size, o + s)
        al = max(al, a)
    return (size + al - 1) // al * al, al, out


def mixed(t):
    """may this be a structure passed in registers of both kinds? (a known finding)"""
    if isinstance(t, Sc):
        return False
    # a union of a long double and something else: read in different ways by compilers
    if any(s.size == 16 for p, s, w in alll(t)) and len(alll(t)) > 1 and (layout(t) or (16,))[0] <= 16:
        return True
    if isinstance(t, St) and unnamed(t):
        return True    # an eightbyte of padding only
    kinds = {s.cls == "float" for p, s, w in alll(t)}
    if len(kinds) < 2:
        return False
    l = layout(t)
    if l is None:
        return True
    if l[0] > 16 or l[0] <= 8 or any(s.size == 16 for o, s in l[2]):
        return False
    cls = [any(s.cls != "float" for o, s in l[2] if o // 8 == k) for k in (0, 1)]
    return cls[0] != cls[1]


def unnamed(t):
    return isinstance(t, Arr) and unnamed(t.el) or isinstance(t, St) and any(m.name is None and m.width is not None or unnamed(m.ty) for m in t.mems)


def alll(t):
    """leaves, of unnamed members too"""
    if isinstance(t, Sc):
        return [("", t, None)]
    if isinstance(t, Arr):
        return alll(t.el)
    return [x for m in t.mems for x in alll(m.ty)]


class Gen:
    def __init__(self, d):
        self.d = d
        self.mode = d.draw(5)
        self.packed = d.draw(5) == 4    # (alignment attributes on parameter types: not in the property)
        self.g = TypeGen(d, flex=False, attrs=False, bits=d.draw(3) == 2)
        self.small = []

    def scalar(self):
        d = self.d
        return d.wpick([(6, self.g.scalar()), (2, Sc("float", "double", 8)), (2, Sc("float", "float", 4)), (1, Sc("float", "long double", 16)), (2, Sc("int", "int", 4, True)), (2, Sc("int", "long", 8, True))])

    def smallstruct(self):
        """mostly up to 16 bytes, of every class"""
        d, g = self.d, self.g
        mems, size = [], 0
        lim = d.pick([4, 8, 8, 12, 16, 16, 16, 20, 24])
        union = d.draw(6) == 5
        while size < lim and len(mems) < 17:
            k = d.draw(10)
            if k < 7:
                t = self.scalar()
                sz = t.size
            elif k < 9:
                el = self.scalar() if d.draw(4) else Sc("float", "float", 4)
                t = Arr(el, d.int(1, 4 if el.size < 8 else 2))
                sz = el.size * t.n
            else:
                if not self.small:
                    continue
                t = d.pick(self.small)
                sz = 8
            if size + sz > lim and mems:
                break
            if union and isinstance(t, Sc) and (t.cls in ("ptr", "cstr", "fptr") or t.name == "_Bool"):
                t = Sc("int", "long", 8, True)
            if union and not isinstance(t, Sc):
                if any(x.cls in ("ptr", "cstr", "fptr") or x.name == "_Bool" for p, x, w in leaves(t, "")):
                    continue
            wd = None
            if self.g.bits and isinstance(t, Sc) and t.cls == "int" and t.name not in ("_Bool", "char") and d.draw(3) == 2:
                wd = d.int(1, t.size * 8 - 1)
            mems.append(Mem(g.mname(), t, wd))
            size += sz if not union else 0
            if union and len(mems) >= 1 + d.draw(3):
                break
        attr = ""
        if self.packed and d.draw(4) == 3:
            attr = "packed"
        s = St("%s%d_@" % (g.prefix, g.n), mems, union, attr, 0)
        if union:
            # read back only the member of a class that has no padding bits
            pass
        s.hasptr = any(x.cls in ("ptr", "cstr", "fptr") or x.name == "_Bool" for p, x, w in leaves(s, "", cap=1000))
        g.n += 1
        g.structs.append(s)
        g.defs.append(s.define())
        self.small.append(s)
        return s

    def type(self):
        for _ in range(3):
            t = self.type1()
            if not mixed(t):
                return t
        return Sc("int", "int", 4, True)

    def type1(self):
        d = self.d
        k = d.draw(20)
        if k < 11:
            return self.scalar()
        if k < 14 and self.small:
            return d.pick(self.small)
        if k < 18:
            return self.smallstruct()
        return self.g.struct(2) if d.draw(2) else self.smallstruct()

    def value(self, t, static=False):
        """an expression of type t for an argument; statements go to self.pre"""
        d = self.d
        ini = InitGen(d, False, ["vi_", "vl_ + 1"])
        if isinstance(t, Sc):
            k = d.draw(8)
            if k < 3 or t.cls in ("ptr", "cstr", "fptr", "enum"):
                return ini.scalar(t) if t.cls not in ("ptr", "fptr", "cstr") else {"ptr": d.pick(["G_", "G_ + 3", "&G_[5]", "0", "(char *)&G_[2]"]), "cstr": d.pick(['"abc"', '"x y"', "0"]), "fptr": d.pick(["fa_", "fb_", "&fa_", "0"])}[t.cls]
            n = self.name()
            if k < 6:
                self.pre.append("%s = %s;" % (t.decl(n), ini.scalar(t)))
                self.vars.append((n, t))
                return n if k != 5 else {"int": "%s + 1", "float": "%s * 2"}.get(t.cls, "%s") % n
            if k == 6 and t.cls == "float":
                return d.pick(["vd_", "vf_", "vld_", "vi_", "-vd_", "vd_ * 3", "vld_ / 4", "vl_", "vi_ ? vd_ : vf_"])
            return d.pick(["vi_", "vl_", "vi_ * 3", "-vi_", "vi_ == 3", "(char)vl_", "vi_ ? 4 : 5", "vi_ + 70000", "vi_ && vl_", "vd_ > 1", "!vi_"])
        n = self.name()
        txt = self.init(ini, t)
        k = d.draw(5)
        if k == 0:
            return "(%s)%s" % (t.decl("").strip(), txt)
        self.pre.append("%s = %s;" % (t.decl(n), txt))
        if k == 1:
            self.pre.append("%s = &%s;" % (t.decl("*p" + n), n))
            return "*p" + n
        if k == 2:
            self.pre.append("struct { char c; %s; } w%s = { 1, %s };" % (t.decl("m"), n, n))
            return "w%s.m" % n
        if k == 3:
            self.pre.append("%s; a%s[1] = %s;" % (t.decl("a%s[2]" % n), n, n))
            return "a%s[vi_ - 2]" % n
        self.vars.append((n, t))
        return n

    def init(self, ini, t):
        """every leaf by name, so that nothing depends on initialiser rules or on union padding"""
        if isinstance(t, St) and t.union:
            m = next((m for m in t.mems if m.name), None)
            # the widest member gets the value
            ms = [m for m in t.mems if m.name and m.width is None]
            return "{ 0 }" if not ms else "{ .%s = %s }" % (ms[0].name, self.init(ini, ms[0].ty))
        if isinstance(t, St):
            parts = []
            for m in t.mems:
                if m.name is None:
                    continue
                parts.append(".%s = %s" % (m.name, self.init(ini, m.ty) if m.width is None else ini.scalar(m.ty, m.width)))
            return "{ %s }" % (", ".join(parts) or "0")
        if isinstance(t, Arr):
            return "{ %s }" % ", ".join(self.init(ini, t.el) for _ in range(t.n))
        if t.cls in ("ptr", "cstr", "fptr"):
            return {"ptr": self.d.pick(["G_", "G_ + 3", "0"]), "cstr": self.d.pick(['"abc"', '"q"', "0"]), "fptr": self.d.pick(["fa_", "fb_"])}[t.cls]
        return ini.scalar(t)

    def name(self):
        self.nv += 1
        return "v%d" % self.nv

    def show(self, t, e, cap=24):
        """what may be printed of a value: of a union only the member that was set"""
        if isinstance(t, Sc):
            return pr(t, e)
        if isinstance(t, Arr):
            return " ".join(self.show(t.el, "%s[%d]" % (e, i)) for i in range(t.n))
        if t.union:
            ms = [m for m in t.mems if m.name and m.width is None]
            return self.show(ms[0].ty, "%s.%s" % (e, ms[0].name)) if ms else ""
        return " ".join(pr(m.ty, "%s.%s" % (e, m.name)) if m.width is not None else self.show(m.ty, "%s.%s" % (e, m.name)) for m in t.mems if m.name)

    def fn(self, i):
        d = self.d
        f = Fn()
        f.i, f.name = i, "f%d_@" % i
        n = d.wpick([(1, 0), (3, d.int(1, 3)), (4, d.int(3, 8)), (3, d.int(8, 20))])
        f.pars = [self.type() for _ in range(n)]
        f.ret = None if d.draw(8) == 7 else self.type()
        f.var = f.valist = False
        f.knr = False
        k = d.draw(8)
        if k < 2 and n:
            f.var = True
            f.extra = [self.promo(self.type()) for _ in range(d.int(0, 9))]
            f.va2 = d.draw(3)
        elif k == 2 and all(not isinstance(t, Sc) or self.promo(t) is t for t in f.pars):
            f.knr = True
        return f

    def promo(self, t):
        """a type that default argument promotions leave alone"""
        if isinstance(t, Sc):
            if t.cls == "float" and t.name == "float":
                return Sc("float", "double", 8)
            if t.cls == "int" and t.size < 4:
                return Sc("int", "int", 4, True)
            if t.cls == "enum":
                return Sc("int", "unsigned", 4, False)
        return t

    def proto(self, f, name, names=None, knr=False):
        ps = ", ".join(t.decl("p%d" % j) for j, t in enumerate(f.pars)) or "void"
        if f.valist:
            ps += ", __builtin_va_list ap"
        if f.var:
            ps += ", ..."
        if knr:
            ps = ""
        return (f.ret.decl("%s(%s)" % (name, ps)) if not (isinstance(f.ret, Sc) and f.ret.cls == "fptr") else "int (*%s(%s))(void)" % (name, ps)) if f.ret else "void %s(%s)" % (name, ps)

    def ptrdecl(self, f, name):
        return self.proto(f, "(*%s)" % name)

    def call(self, f, callee, depth=0):
        args = [self.value(t) for t in f.pars]
        if f.var:
            args += [self.typed(t) for t in f.extra]
        if f.knr:
            args = [self.typed(t, a) for t, a in zip(f.pars, args)]
        # a call as an argument of a call
        if depth < 2:
            for j, t in enumerate(f.pars):
                src = [h for h in self.fns if h.ret is t or (h.ret and isinstance(h.ret, Sc) and isinstance(t, Sc) and h.ret.cls == t.cls == "int")]
                if src and self.d.draw(4) == 3 and not f.knr:
                    args[j] = self.call(self.d.pick(src), None, depth + 1)
                    self.d.label("nested")
                    break    # the order of two calls that print is not defined
        return "%s(%s)" % (callee or "TH(%s)" % f.name, ", ".join(args))

    def typed(self, t, e=None):
        e = e or self.value(t)
        return "(%s)(%s)" % (t.decl("").strip(), e) if isinstance(t, Sc) else e

    def case(self):
        d = self.d
        self.fns = []
        self.nv = 0
        top = []
        big = False
        for i in range(d.int(2, 5)):
            f = self.fn(i)
            big |= len(f.pars) >= 3 or any(t.agg for t in f.pars) or bool(f.ret and f.ret.agg)
            # declarations of both sides
            decl = "#if SIDE == 0 || !defined SO\n%s;\n#else\n%s; void s_%s(void *p) { q_%s = p; }\n#endif" % (self.proto(f, "TH(%s)" % f.name, knr=f.knr and d.draw(2) == 1), self.ptrdecl(f, "q_" + f.name), f.name, f.name)
            b = []
            self.pre, self.vars = [], []
            if d.draw(3) == 2:
                b.append("char pad_[%d]; use_(pad_);" % d.int(1, 30))
            if d.draw(4) == 3:
                b.append("_Alignas(16) char al_[16]; use_(al_); AL_(al_, 16);")
            if d.draw(4) == 3:
                b.append("long double ld_ = vld_; AL_(&ld_, 16); double x_[2]; AL_(x_, 8); use_(x_);")
            sh = [self.show(t, "p%d" % j) for j, t in enumerate(f.pars)]
            if d.draw(4) == 3:
                sh = [sh[j] for j in d.shuffle(range(len(sh)))]
            b += sh
            if f.var:
                b.append("__builtin_va_list ap; __builtin_va_start(ap, p%d);" % (len(f.pars) - 1))
                cut = d.int(0, len(f.extra))
                for j, t in enumerate(f.extra):
                    if f.va2 == 1 and j == cut:
                        b.append("__builtin_va_list aq; __builtin_va_copy(aq, ap);")
                    b.append("{ %s = __builtin_va_arg(ap, %s); %s }" % (t.decl("x"), self.tyname(t), self.show(t, "x")))
                if f.va2 == 1 and cut < len(f.extra):
                    for t in f.extra[cut:]:
                        b.append("{ %s = __builtin_va_arg(aq, %s); %s }" % (t.decl("x"), self.tyname(t), self.show(t, "x")))
                    b.append("__builtin_va_end(aq);")
                if f.va2 == 2:
                    # the other side reads the list
                    h = "g%d_@" % i
                    sig = "(int n, __builtin_va_list ap)"
                    top.append("#if SIDE == 0 || !defined SO\nvoid TH(%s)%s;\n#else\nvoid (*q_%s)%s; void s_%s(void *p) { q_%s = p; }\n#endif" % (h, sig, h, sig, h, h))
                    top.append("NOI void ME(%s)%s { %s P(n); }" % (h, sig, " ".join("{ %s = __builtin_va_arg(ap, %s); %s }" % (t.decl("x"), self.tyname(t), self.show(t, "x")) for t in f.extra)))
                    self.helpers = getattr(self, "helpers", []) + [h]
                    b.append("__builtin_va_end(ap); __builtin_va_start(ap, p%d); TH(%s)(%d, ap);" % (len(f.pars) - 1, h, i))
                    d.label("va_list")
                b.append("__builtin_va_end(ap);")
                d.label("variadic")
            # a callback into the other side, some levels deep
            cands = [h for h in self.fns if not h.var]
            if cands and d.draw(3) == 2:
                h = d.pick(cands)
                self.pre = []
                c = self.call(h, None, 2)
                b.append("if (ME(nest_) < 2) { ME(nest_)++; %s %s; ME(nest_)--; }" % (" ".join(self.pre), c))
                d.label("callback")
                if f.pars:
                    j = d.draw(len(f.pars))
                    b.append(self.show(f.pars[j], "p%d" % j))
            if f.ret:
                same = [j for j, t in enumerate(f.pars) if t is f.ret]
                if same and d.draw(2):
                    b.append("return p%d;" % d.pick(same))
                else:
                    self.pre, self.vars = [], []
                    e = self.value(f.ret)
                    b += self.pre
                    b.append("return %s;" % e)
            if f.knr and f.pars and d.draw(2):
                head = self.knrhead(f)
            else:
                head = self.proto(f, "ME(%s)" % f.name)
            top.append(decl)
            top.append("NOI %s {\n%s\n}" % (head, "\n".join(b)))
            self.fns.append(f)
        body = []
        nlive = d.draw(6)
        live = []
        for j in range(nlive):
            k = d.draw(4)
            ty, e = [("int", "vi_ + %d" % j), ("double", "vd_ * %d" % (j + 1)), ("long", "vl_ - %d" % j), ("float", "vf_ + %d" % j)][k]
            body.append("%s l%d = %s;" % (ty, j, e))
            live.append(("l%d" % j, k))
        if d.draw(5) == 4:
            body.append("char *al_ = __builtin_alloca(%s); use_(al_); AL_(al_, 16);" % d.pick(["vi_ * 8", "5", "vi_", "100"]))
        elif d.draw(5) == 4:
            body.append("char vla_[vi_ * %d]; use_(vla_);" % d.int(1, 9))
        for f in self.fns:
            for _ in range(d.int(1, 2)):
                self.pre, self.vars = [], []
                body += ["{"]
                callee = None
                k = d.draw(8)
                pre2 = ""
                if k == 0 and not f.knr:
                    pre2 = "%s = TH(%s);" % (self.ptrdecl(f, "fp"), f.name)
                    callee = "fp"
                elif k == 1 and not f.knr:
                    pre2 = "struct { int i; %s; } fs = { 1, TH(%s) };" % (self.ptrdecl(f, "m"), f.name)
                    callee = d.pick(["fs.m", "(*fs.m)"])
                elif k == 2 and not f.knr:
                    pre2 = "%s = { TH(%s), TH(%s) };" % (self.ptrdecl(f, "fv[2]"), f.name, f.name)
                    callee = "fv[vi_ - 2]"
                c = self.call(f, callee)
                body += self.pre + [pre2]
                if f.ret is None:
                    body.append(c + ";")
                    d.label("void")
                elif not f.ret.agg:
                    m = d.draw(6)
                    num = f.ret.cls in ("int", "float", "enum")
                    if m == 0 and num:
                        body.append("{ double s = vd_ + %s * 2 + vi_; Pd(s); }" % c)
                    elif m == 1 and num:
                        body.append("P(%s > 2);" % c)
                    elif m == 2 and num:
                        body.append("{ double s = 0.5; int k; for (k = 0; k < 2; k++) s += %s; Pd(s); }" % c)
                    elif m == 3 and num and f.ret.name not in ("double", "long double") and "ll" not in c:
                        body.append("{ long double s = %s + 0.5L; Pl(s); }" % c)
                    elif m == 4:
                        body.append("if (%s) S_(\"y\"); else S_(\"n\");" % c)
                    else:
                        body.append("{ %s = %s; %s }" % (f.ret.decl("r"), c, pr(f.ret, "r")))
                else:
                    m = d.draw(6)
                    ls = [(p, s) for p, s, w in leaves(f.ret, "", cap=40)] if not (isinstance(f.ret, St) and f.ret.union) else []
                    named = [x for x in f.ret.mems if x.name and isinstance(x.ty, Sc)]
                    if m == 0 and named and not f.ret.union:
                        x = d.pick(named)
                        body.append(pr(x.ty, "%s.%s" % (c, x.name)))
                    elif m == 1:
                        body.append("{ %s; r[0] = %s; r[1] = r[0]; %s }" % (f.ret.decl("r[2]"), c, self.show(f.ret, "r[1]")))
                    elif m == 2:
                        body.append("{ struct { char a; %s; char z; } r; Z_(&r, 0x5a, sizeof r); r.m = %s; P(r.a); P(r.z); %s }" % (f.ret.decl("m"), c, self.show(f.ret, "r.m")))
                    elif m == 3:
                        body.append("%s;" % c)
                    elif m == 4:
                        body.append("{ %s; %s = &x; *p = %s; %s }" % (f.ret.decl("x"), f.ret.decl("*p"), c, self.show(f.ret, "x")))
                    else:
                        body.append("{ %s = %s; %s }" % (f.ret.decl("r"), c, self.show(f.ret, "r")))
                for n, t in self.vars[:6]:
                    body.append(self.show(t, n))
                body += ["}"]
                if d.draw(3) == 2:
                    body += [["P(%s);", "Pd(%s);", "P(%s);", "Pf(%s);"][k] % n for n, k in live]
        body += [["P(%s);", "Pd(%s);", "P(%s);", "Pf(%s);"][k] % n for n, k in live]
        return {"types": "enum E@ { EA@, EB@, EC@ = 5 };\n" + "\n".join(self.g.defs), "top": "\n".join(top), "body": "\n".join(x for x in body if x), "fns": [f.name for f in self.fns] + getattr(self, "helpers", []),
                "expect": None, "big": big, "mode": self.mode}

    def tyname(self, t):
        return "FP_" if isinstance(t, Sc) and t.cls == "fptr" else t.decl("").strip()

    def knrhead(self, f):
        names = ", ".join("p%d" % j for j in range(len(f.pars)))
        ds = " ".join(t.decl("p%d" % j) + ";" for j, t in enumerate(f.pars))
        nm = "ME(%s)(%s)" % (f.name, names)
        r = "void " + nm if not f.ret else "int (*%s)(void)" % nm if isinstance(f.ret, Sc) and f.ret.cls == "fptr" else f.ret.decl(nm)
        self.d.label("k&r")
        return r + " " + ds


def mixed_canary(ctx):
    """struct { double d; long l; } to a function built by gcc"""
    w = ctx.work.path()
    with open(w + "/m1.c", "w") as f:
        f.write("struct S { double d; long l; };\nint take(struct S s, int k) { return s.d == 2.5 && s.l == 7 && k == 3; }\n")
    with open(w + "/m0.c", "w") as f:
        f.write("int printf(const char *, ...);\nstruct S { double d; long l; };\nint take(struct S s, int k);\nint main(void) { struct S s = { 2.5, 7 }; printf(\"%d\\n\", take(s, 3)); return 0; }\n")
    build.sh(["gcc", "-O1", "-c", "-o", w + "/m1.o", w + "/m1.c"])
    r = proc.run([ctx.b.cjit, "-q", "m0.c", "m1.o"], cwd=w)
    return None if r.out.strip() == b"1" else "struct { double d; long l; } passed to a function built by gcc does not arrive"


class C(Check):
    id = "C04"
    parts = [Abi()]
    known = {"mixed-class-struct": mixed_canary}
    assumptions = ["the reference is both sides compiled by gcc in one translation unit, confirmed by gcc -O2, clang and the sanitizers for every case reported",
                   "structs of 9 to 16 bytes with one floating and one integer half are a known finding and not generated", "no alignment attributes, no 128-bit or complex types"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
