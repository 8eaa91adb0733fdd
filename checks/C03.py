"""C03: layout and initialisation of objects, compared with gcc byte for byte."""
from vf import build, cbatch
from vf.ctypes_ import *
from vf.pbt import Discard
from vf.runner import Check

PRELUDE = cbatch.PRELUDE + r'''
typedef unsigned long size_t;
#define offsetof(t, m) __builtin_offsetof(t, m)
static void D_(const void *p, size_t n) { const unsigned char *s = p; while (n--) { if (n_ > (1 << 18) - 64) F_(); B_[n_++] = "0123456789abcdef"[*s >> 4]; B_[n_++] = "0123456789abcdef"[*s++ & 15]; } B_[n_++] = ' '; }
static void Z_(void *p, int c, size_t n) { unsigned char *s = p; while (n--) *s++ = c; }
static void Pf(float x) { unsigned char *s = (void *)&x; D_(s, 4); }
static void Pd(double x) { unsigned char *s = (void *)&x; D_(s, 8); }
static void Pl(long double x) { unsigned char *s = (void *)&x; D_(s, 10); }
static char G_[16] = "0123456789abcde"; static int GI_[4];
static struct { char a; char b[5]; int i; } GS_;
static int fa_(void) { return 11; } static int fb_(void) { return 22; }
static void Pp(const char *p) { if (!p) S_("null"); else if (p >= G_ && p < G_ + 16) { S_("G"); P(p - G_); } else if (p >= (char *)GI_ && p < (char *)(GI_ + 4)) { S_("I"); P(p - (char *)GI_); }
  else if (p >= (char *)&GS_ && p < (char *)(&GS_ + 1)) { S_("S"); P(p - (char *)&GS_); } else S_("other"); }
static void Pq(int (*p)(void)) { P(p ? p() : 0); }
static void Ps(const char *p) { S_(p ? p : "null"); }
'''


def show(t, path):
    """statements printing one scalar"""
    if t.cls in ("int", "enum"):
        return "P(%s);" % path
    if t.cls == "float":
        return {"float": "Pf", "double": "Pd", "long double": "Pl"}[t.name] + "(%s);" % path
    return {"ptr": "Pp", "cstr": "Ps", "fptr": "Pq"}[t.cls] + "(%s);" % path


def enum(d):
    return d.pick(["enum E@ { EA@, EB@, EC@ = 5 };", "enum E@ { EA@ = 3, EB@ = 1, EC@ };", "enum E@ { EA@ = 7, EB@ = EA@ - 4, EC@ = 2 };"])


def show_all(t, nm, d, cap=40):
    return " ".join(show(s, p) for p, s, w in leaves(t, nm, cap=cap))


def hasflex(t):
    return isinstance(t, St) and getattr(t, "flexible", False)


class Layout(cbatch.UnitProp):
    name = "layout"
    prelude = PRELUDE
    rule = ("generated struct/union types (nesting, anonymous members, bit-fields of all types and widths, packed/aligned/_Alignas/#pragma pack): "
            "size, alignment, offsets, and byte images after each of a series of member writes, compared with gcc; non-trivial = at least 4 scalars")
    batch = 60
    quick_n, quick_secs = 24000, 30
    thorough_n, thorough_secs = 300000, 400

    def gen(self, d):
        g = TypeGen(d)
        t = g.struct(d.int(1, 3), top=True)
        nm = t.decl("").strip()
        body = ["P(sizeof(%s)); P(_Alignof(%s));" % (nm, nm)]
        so = subobjects(t, "")
        for p, st in so:
            if p[0] == "." and "[" not in p:
                body.append("P(offsetof(%s, %s));" % (nm, p[1:]))
        for p, st in so[:12]:
            if isinstance(st, Arr) and st.n is None:
                continue
            body.append("P(sizeof(((%s *)0)->%s));" % (nm, p[1:]))
        if not hasflex(t):
            body.append("{ struct { char c; %s; } x_; P(sizeof x_); P((char *)&x_.t - (char *)&x_); P(sizeof(%s)); }" % (t.decl("t"), t.decl("[3]")))
            if d.draw(2):
                g.defs.append("static char pre_@[%d]; static %s;" % (d.int(1, 9), t.decl("al_@")))
                body.append("P(((size_t)&al_@ & (_Alignof(%s) - 1)) + pre_@[0]);" % nm)
        body.append("%s%s; Z_(&v, %d, sizeof v);" % (d.pick(["", "static "]), t.decl("v"), d.pick([0, 0, 255, 0xA5])))
        via = d.draw(2)
        if via:
            body.append("%s = &v;" % t.decl("*p"))
        ls = leaves(t, "(*p)" if via else "v")
        ini = InitGen(d, True)
        for _ in range(d.int(2, 7)):
            if not ls:
                break
            p, s, w = d.pick(ls)
            if s.name == "long double":
                # ten bytes of value, six of padding
                body.append("%s = %s; %s" % (p, ini.scalar(s, w), show(s, p)))
                continue
            if s.cls in ("int",) and d.draw(2):
                op = d.pick(["|=", "&=", "^=", "="])
                body.append("%s %s %s;" % (p, op, d.pick(["1", "2", "0x55", "~0", "0x3c", "-1", "0x7fffffff", "0xf0f0f0f0f0f0f0f0ull"])))
                d.label("rmw")
            elif s.cls == "int" and w and w < 32 and d.draw(2):
                body.append(d.pick(["%s++;", "%s--;", "++%s;", "%s += 3;", "%s -= 5;", "%s = %s + 1;" if False else "%s *= 3;"]) % p)
                d.label("bf-arith")
            else:
                body.append("%s = %s;" % (p, ini.scalar(s, w)))
            if w:
                d.label("bitfield")
            if s.cls == "float" or s.cls in ("ptr", "cstr", "fptr"):
                body.append(show(s, p))
                body.append("Z_(&%s, 7, sizeof(%s));" % (p, p))
            else:
                body.append("P(%s);" % p)
            body.append("D_(&v, sizeof v);")
        # floats and pointers hold other bit patterns: give them values before reading
        for p, s, w in ls:
            if s.cls not in ("int", "enum") :
                body.append("%s = %s;" % (p, ini.scalar(s)))
            elif s.name == "_Bool":
                body.append("%s = 1;" % p)
            elif not w and s.cls == "enum":
                body.append("%s = EB@;" % p)
        body.append(" ".join(show(s, p) for p, s, w in ls))
        if not hasflex(t):
            k = d.draw(4)
            if k == 0:
                body.append("{ %s = v; v = w; %s }" % (t.decl("w"), show_all(t, "w", d)))
            elif k == 1:
                body.append("{ %s; w[1] = v; w[0] = w[1]; %s }" % (t.decl("w[2]"), show_all(t, "w[0]", d)))
            elif k == 2:
                body.append("{ struct { char c; %s; char e; } q, r; Z_(&q, 0x33, sizeof q); q.s = v; r = q; P(q.c); P(q.e); P(r.c); P(r.e); %s }" % (t.decl("s"), show_all(t, "r.s", d)))
        return {"top": enum(d) + "\n" + "\n".join(g.defs), "body": "\n".join(body), "expect": None, "ops": len(ls)}

    def nontrivial(self, c, d):
        return c["ops"] >= 4


class Init(cbatch.UnitProp):
    name = "init"
    prelude = PRELUDE
    rule = ("objects of generated types initialised with generated lists (nested braces, elision, designators and ranges, overrides, strings, "
            "addresses, unknown and flexible array sizes, compound literals) in static and automatic storage; every scalar and, for static storage, "
            "every byte compared with gcc; non-trivial = at least 4 initialiser items")
    batch = 60
    quick_n, quick_secs = 24000, 30
    thorough_n, thorough_secs = 300000, 400

    def gen(self, d):
        g = TypeGen(d, attrs=d.draw(4) == 0)
        loc, top = [], []
        items = 0
        body = ["volatile int vi = %d; int va = %d; long vl = %d;" % (d.int(0, 9), d.int(-5, 300), d.int(0, 70000))]
        shows = []
        for i in range(d.int(1, 3)):
            k = d.draw(6)
            if k < 3:
                t = g.struct(d.int(1, 3), top=True)
            elif k == 3:
                t = Arr(g.type(2), d.wpick([(2, None), (3, d.int(1, 6))]))
            else:
                t = g.type(3)
            static = d.draw(2) == 0 or hasflex(t)
            ini = InitGen(d, static, ["va", "vi", "vl", "va + 1", "(char)vl"])
            unknown = isinstance(t, Arr) and t.n is None
            fl = t.mems[-1] if hasflex(t) else None
            nm = ("g%d_@" if static and d.draw(2) else "v%d") % i
            txt = ini.init(t) if not fl else self.flexinit(ini, t, d)
            items += ini.items
            decl = "%s%s = %s;" % ("static " if static else "", t.decl(nm), txt)
            if d.draw(6) == 0 and t.agg:
                decl = ("static const " if static else "const ") + decl.replace("static ", "", 1)
            (top if "@" in nm else loc).append(decl)
            if not static and d.draw(2):
                loc.append("char pad%d[%d]; Z_(pad%d, 0xEE, sizeof pad%d);" % (i, d.int(1, 40), i, i))
            if unknown:
                shows.append("P(sizeof %s);" % nm)
                shows.append("for (unsigned i_ = 0; i_ < sizeof %s / sizeof *%s; i_++) { %s }" % (nm, nm, " ".join(show(s, p) for p, s, w in leaves(t.el, nm + "[i_]", cap=20))))
            elif fl is not None:
                shows.append("P(sizeof %s); " % nm + show_all(t, nm, d))
                shows.append("for (unsigned i_ = 0; i_ < %d; i_++) { %s }" % (t.nflex, " ".join(show(s, p) for p, s, w in leaves(fl.ty.el, "%s.%s[i_]" % (nm, fl.name), cap=20))))
            else:
                shows.append(show_all(t, nm, d))
            if static and fl is None and not any(s.cls in ("ptr", "cstr", "fptr") for p, s, w in leaves(t if not unknown else t.el, "")):
                shows.append("D_(&%s, sizeof %s);" % (nm, nm))
            d.label("static" if static else "auto")
            # further uses of the same type
            if fl is None and t.agg and not unknown and d.draw(3) == 0:
                m = d.draw(5)
                ini2 = InitGen(d, False, ["va", "vi"])
                if isinstance(t, St):
                    if m == 0:
                        loc.append("%s = (%s)%s;" % (t.decl("c%d" % i), t.decl("").strip(), ini2.braced(t))); shows.append(show_all(t, "c%d" % i, d)); d.label("compound")
                    elif m == 1:
                        loc.append("%s = &(%s)%s;" % (t.decl("*c%d" % i), t.decl("").strip(), ini2.braced(t))); shows.append(show_all(t, "(*c%d)" % i, d)); d.label("compound")
                    elif m == 2:
                        top.append("static %s = &(%s)%s;" % (t.decl("*c%d_@" % i), t.decl("").strip(), InitGen(d, True).braced(t))); shows.append(show_all(t, "(*c%d_@)" % i, d)); d.label("static-compound")
                    elif m == 3 and "const" not in decl:
                        loc.append("struct { int h; %s; int z; } c%d = { va, %s, 5 };" % (t.decl("s"), i, nm)); shows.append("P(c%d.h); P(c%d.z);" % (i, i) + show_all(t, "c%d.s" % i, d)); d.label("struct-expr")
                    else:
                        loc.append("%s; c%d = (%s)%s;" % (t.decl("c%d" % i), i, t.decl("").strip(), ini2.braced(t))); shows.append(show_all(t, "c%d" % i, d)); d.label("compound")
                    items += ini2.items
        return {"top": enum(d) + "\n" + "\n".join(g.defs) + "\n" + "\n".join(top), "body": "\n".join(body + loc + shows), "expect": None, "ops": items}

    def flexinit(self, ini, t, d):
        fl = t.mems.pop()
        s = ini.braced(t) if t.named() else "{ }"
        t.mems.append(fl)
        n = d.int(1, 4)
        t.nflex = n
        el = fl.ty.el
        return s[:s.rindex("}")].rstrip().rstrip(",") + (", " if s.strip("{ },") else " ") + ".%s = { %s } }" % (fl.name, ", ".join(ini.init(el, None, 1) for _ in range(n)))

    def nontrivial(self, c, d):
        return c["ops"] >= 4


class C(Check):
    id = "C03"
    parts = [Layout(), Init()]
    known = {
        "member-aligned-lower": cbatch.canary("struct S { char c; long m __attribute__((aligned(2))); };\nint main(void) { printf(\"%d\\n\", (int)__builtin_offsetof(struct S, m)); }\n", "8"),
        "packed-full-width-bitfield": cbatch.canary("struct S { long a : 5; signed char b : 8; } __attribute__((packed));\nint main(void) { printf(\"%d\\n\", (int)sizeof(struct S)); struct S s = { 0, 1 }; return ((char *)&s)[0] != 32; }\n", "2"),
    }
    assumptions = ["gcc -O0 is the reference; a difference counts only if gcc -O2, clang and the sanitizers agree with it",
                   "automatic objects are not aligned beyond the stack alignment"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
