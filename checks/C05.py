"""C05: constant expressions have one value, whenever they are evaluated."""
import re, struct
from vf import build, cbatch, cflow, cint
from vf.cint import *
from vf.runner import Check
from checks import C02

H = cbatch.hex64
HOLE = re.compile("\x01(\\d+)\x02")


class CGen(Gen):
    """constant expressions whose leaves can also be volatile variables"""
    def __init__(self, d):
        Gen.__init__(self, d, const=True)
        self.lits = []

    def leaf(self):
        d = self.d
        t = d.pick(ALL) if d.draw(3) == 2 else d.pick(WIDE)
        v = value(d, t)
        self.lits.append((t, v, literal(d, t, v)[0]))
        return "\x01%d\x02" % (len(self.lits) - 1), 14, t, v

    def logic(self, depth):
        # what is not evaluated need not have a value
        d = self.d
        if d.chance(1, 4):
            s, p, t, v = self.expr(depth - 1)
            s = self.par(s, p, 14)
            bad = d.pick(["1 / 0", "5 % 0", "0 / 0", "1 << 3 / 0"])
            k = d.draw(4)
            self.ops += 1
            d.label("undefined-unevaluated")
            if k == 0:
                return "(0 && (%s) + %s)" % (bad, s), 16, INT, 0
            if k == 1:
                return "(1 || (%s) + %s)" % (bad, s), 16, INT, 1
            if k == 2:
                return "(1 ? %s : %s)" % (s, bad), 16, usual(t, INT), conv(v, usual(t, INT))
            return "(0 ? %s : %s)" % (bad, s), 16, usual(t, INT), conv(v, usual(t, INT))
        return Gen.logic(self, depth)

    def lit(self, s):
        return HOLE.sub(lambda m: self._l(int(m.group(1))), s)

    def _l(self, i):
        s = self.lits[i][2]
        return "(" + s + ")" if s[0] in "-+" else s

    def run(self, s):
        return HOLE.sub(lambda m: "k%d" % int(m.group(1)), s)

    def decls(self):
        return "\n".join("volatile %s k%d = %s;" % (t.name, i, s) for i, (t, v, s) in enumerate(self.lits))


def f32(v):
    return int.from_bytes(struct.pack("<f", float_round(v, 24)), "little")


def f64(v):
    return int.from_bytes(struct.pack("<d", float(v)), "little")


def float_round(v, bits):
    # round-half-even of an integer to bits of precision, exactly
    a, s = abs(v), -1 if v < 0 else 1
    n = a.bit_length() - bits
    if n > 0:
        q, r = a >> n, a & ((1 << n) - 1)
        half = 1 << (n - 1)
        if r > half or (r == half and q & 1):
            q += 1
        a = q << n
    return float(s * a)


class Integers(cbatch.UnitProp):
    name = "integers"
    rule = ("integer constant expressions in static and automatic initialisers, enumerators, case labels, array bounds and designators, bit-field widths, _Static_assert, "
            "__builtin_choose_expr and dead operands, and the same expression over volatile variables, against the reference interpreter; non-trivial = at least 4 operators")
    batch = 40
    quick_n, quick_secs = 300000, 25
    thorough_n, thorough_secs = 5000000, 250

    def gen(self, d):
        g = CGen(d)
        top, body, exp = [], [], []
        for i in range(d.int(1, 4)):
            s, t, v = g.full(d.int(1, 5))
            c, r = g.lit(s), g.run(s)
            body.append("P(%s);" % r); exp.append(H(v))
            for j in range(d.int(1, 3)):
                nm = "n%d_%d_@" % (i, j)
                k = d.draw(16)
                d.label(("static static local enum case bound designator bitfield assert choose dead float struct if constant_p caserange").split()[k])
                T = d.pick(ALL)
                if k < 2:
                    top.append("%s%s %s = %s;" % (d.pick(["static ", "static const ", ""]), T.name, nm, c)); body.append("P(%s);" % nm); exp.append(H(conv(v, T)))
                elif k == 2:
                    body.append("static %s %s = %s; P(%s);" % (T.name, nm, c, nm)); exp.append(H(conv(v, T)))
                elif k == 3:
                    e, w = (c, v) if INT.lo <= v <= INT.hi else ("(int)(%s)" % c, conv(v, INT))
                    if w < INT.hi and d.draw(2):
                        top.append("enum { %s = %s, x%s };" % (nm, e, nm)); body.append("P(x%s);" % nm); exp.append(H(w + 1))
                    else:
                        top.append("enum { %s = %s };" % (nm, e))
                    body.append("P(%s);" % nm); exp.append(H(w))
                elif k == 4:
                    pt = promote(T)
                    x = conv(v, pt)
                    if not T.lo <= x <= T.hi:
                        T, x = pt, x
                    body.append("{ volatile %s z = %s; switch (z) { case %s: P(7); break; default: P(8); } }" % (T.name, literal(d, INT if T.rank < 3 else T, x)[0], c)); exp.append("7")
                elif k == 5:
                    m = d.pick([1, 3, 7, 31])
                    top.append("static char %s[((%s) & %d) + 1];" % (nm, c, m)); body.append("P(sizeof %s); P(sizeof(char[(%s) ? 3 : 4]));" % (nm, c)); exp += [H((v & m) + 1), "3" if v else "4"]
                elif k == 6:
                    top.append("static int %s[] = { [(%s) & 7] = 5 };" % (nm, c)); body.append("P(sizeof %s / sizeof(int)); P(%s[%d]);" % (nm, nm, v & 7)); exp += [H((v & 7) + 1), "5"]
                elif k == 7:
                    w = (v & 15) + 1
                    top.append("static struct { unsigned a : ((%s) & 15) + 1; } %s;" % (c, nm)); body.append("%s.a = -1; P(%s.a);" % (nm, nm)); exp.append(H((1 << w) - 1))
                elif k == 8:
                    l = literal(d, t, v)[0] if t.rank >= 3 else literal(d, INT, v)[0]
                    (top if d.draw(2) else body).append("_Static_assert((%s) == %s, \"a\"); _Static_assert(sizeof(%s) == %d, \"s\");" % (c, l, c, SIZE[t]))
                elif k == 9:
                    body.append("P(__builtin_choose_expr(%s, 11, 12));" % c); exp.append("b" if v else "c")
                elif k == 10:
                    body.append("if (%s) P(1); else P(2); P((%s) ? 3 : 4); for (int q = 0; (%s) && q < 2; q++) P(5);" % (c, c, c)); exp += ["1", "3", "5", "5"] if v else ["2", "4"]
                elif k == 11:
                    if d.draw(2):
                        top.append("static double %s = %s; static float f%s = %s;" % (nm, c, nm, c))
                    else:
                        body.append("double %s = %s; float f%s = %s;" % (nm, c, nm, c))
                    body.append("{ union { double d; unsigned long u; } w; w.d = %s; P(w.u); union { float d; unsigned u; } x; x.d = f%s; P(x.u); }" % (nm, nm)); exp += [H(f64(v)), H(f32(v))]
                elif k == 12:
                    w = d.int(1, 31)
                    top.append("static struct { char p; %s a; int b : %d; unsigned c : %d; } %s = { 1, %s, %s, %s };" % (T.name, w, w, nm, c, c, c))
                    b = conv(v, INT) & ((1 << w) - 1)
                    body.append("P(%s.a); P(%s.b); P(%s.c);" % (nm, nm, nm)); exp += [H(conv(v, T)), H(b - (1 << w) if b >> (w - 1) else b), H(conv(v, UINT) & ((1 << w) - 1))]
                elif k == 13:
                    body.append("while (1) { if (%s) { P(1); break; } P(2); break; } P(!(%s)); P(!!(%s));" % (c, c, c)); exp += ["1" if v else "2", H(int(not v)), H(int(bool(v)))]
                elif k == 14:
                    body.append("P(__builtin_constant_p(%s) ? (%s) : 9);" % (c, c)); exp.append(H(conv(v, usual(t, INT))))
                else:
                    body.append("{ static const unsigned char %s[2][((%s) & 3) + 2] = { [1] = { [(%s) & 1] = 9 } }; P(sizeof %s); P(%s[1][%d]); }" % (nm, c, c, nm, nm, v & 1)); exp += [H(((v & 3) + 2) * 2), "9"]
        return {"top": "\n".join(top), "body": g.decls() + "\n" + "\n".join(body), "expect": " ".join(exp), "ops": g.ops}

    def nontrivial(self, c, d):
        return c["ops"] >= 4


class PP:
    """#if expressions with intmax_t semantics -> (text, prec, unsigned, value); U marks what is not evaluated"""
    def __init__(self, d, macros):
        self.d, self.macros, self.ops = d, macros, 0

    def fix(self, v, u):
        v &= (1 << 64) - 1
        return v if u or v < 1 << 63 else v - (1 << 64)

    def par(self, s, p, q):
        return "(" + s + ")" if p < q or (p < 16 and self.d.draw(6) == 5) else s

    def leaf(self):
        d = self.d
        k = d.draw(10)
        if k == 0:
            return d.pick(["undefined_@", "0", "defined undefined_@", "defined(undefined_@)", "int", "sizeof_@"]), 16, False, 0
        if k == 1:
            m = d.pick(self.macros)
            return d.pick(["defined %s", "defined(%s)", "defined ( %s )", "!!defined %s"]) % m[0], 14, False, 1
        if k < 4:
            m = d.pick(self.macros)
            return m[0], 16, m[1], m[2]
        if k == 4:
            c = d.draw(128)
            return charlit(d, c), 16, False, c
        if k == 5:
            m = d.pick([m for m in self.macros if m[3]])
            x = d.draw(100)
            return "%s(%d)" % (m[3], x), 16, False, x * 2 + 1
        u = d.draw(3) == 0
        v = value(d, ULLONG if u else LLONG)
        m = abs(v)
        if m >= 1 << 63 and not u:
            m = (1 << 63) - 1
        s = d.pick(["%d", "0x%x", "0X%X", "0%o"]) % m
        if u:
            s += d.pick(["u", "U", "ul", "UL", "LU", "ull", "ULL", "llu"])
        else:
            if m >= 1 << 31 and s.startswith("0") and m >= 1 << 63:
                pass
            s += d.pick(["", "", "l", "L", "ll", "LL"])
        if not u and s[0] == "0" and m >= 1 << 63:
            u = True
        return s, 16, u, m

    def expr(self, depth):
        d = self.d
        if depth <= 0 or d.draw(5) == 0:
            return self.leaf()
        k = d.draw(12)
        self.ops += 1
        if k < 6:
            op = d.pick(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="])
            s1, p1, u1, v1 = self.expr(depth - 1)
            s2, p2, u2, v2 = self.expr(depth - 1)
            q = PREC[op]
            if op in ("<<", ">>"):
                v2 = d.draw(64); s2, p2 = str(v2), 16
                if op == "<<":
                    if not u1 and (v1 < 0 or v1 << v2 >= 1 << 63):
                        s1, p1, u1 = "(%s + 0u)" % self.par(s1, p1, 12), 16, True
                        v1 = self.fix(v1, True)
                    r = self.fix(v1 << v2, u1)
                else:
                    r = v1 >> v2
                return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, u1, r
            u = u1 or u2
            a, b = self.fix(v1, u), self.fix(v2, u)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, False, compare(op, a, b)
            T = ULLONG if u else LLONG
            r = arith(op, T, a, b)
            if r is None:
                if op in "/%":
                    s2, p2, v2 = "7u", 16, 7
                else:
                    s1, p1 = "(%s + 0u)" % self.par(s1, p1, 12), 16
                u = True
                a, b = self.fix(v1, True), self.fix(v2, True)
                r = arith(op, ULLONG, a, b)
            return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, u, r
        if k < 8:
            op = d.pick(["-", "~", "!", "+"])
            s, p, u, v = self.expr(depth - 1)
            s = self.par(s, p, 14)
            if s[0] in "+-":
                s = "(" + s + ")"
            if op == "!":
                return "!" + s, 14, False, int(not v)
            if op == "-" and not u and v == -(1 << 63):
                return s, 14, u, v
            return op + s, 14, u, self.fix({"-": -v, "~": ~v, "+": v}[op], u)
        if k == 8:
            c, cp, _, cv = self.expr(depth - 1)
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            u = a[2] or b[2]
            if d.chance(1, 4):
                bad = ("1 / 0", 13, False, 0)
                a, b = (a, bad) if cv else (bad, b)
                u = a[2] or b[2]
            return "%s ? %s : %s" % (self.par(c, cp, 4), self.par(a[0], a[1], 3), self.par(b[0], b[1], 3)), 3, u, self.fix(a[3] if cv else b[3], u)
        if k == 9:
            s, p, u, v = self.expr(depth - 1)
            return "(%s)" % s, 16, u, v
        op = d.pick(["&&", "||"])
        s1, p1, _, v1 = self.expr(depth - 1)
        s2, p2, _, v2 = self.expr(depth - 1)
        if d.chance(1, 4) and bool(v1) != (op == "&&"):
            s2, p2, v2 = d.pick(["1 / 0", "3 % 0"]), 13, 1
        r = int(bool(v1) and bool(v2)) if op == "&&" else int(bool(v1) or bool(v2))
        q = PREC[op]
        return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, False, r


class Conditions(cbatch.UnitProp):
    name = "conditions"
    rule = ("#if, #elif and nested groups over expressions of integer and character constants of every spelling, macros, defined, and unevaluated divisions, against a reference "
            "interpreter with intmax_t arithmetic; non-trivial = at least 4 operators")
    batch = 40
    quick_n, quick_secs = 200000, 15
    thorough_n, thorough_secs = 4000000, 120

    def gen(self, d):
        ms, top = [], []
        for i in range(d.int(1, 4)):
            g0 = PP(d, ms) if ms else None
            if g0 and d.draw(2):
                s, p, u, v = g0.expr(2)
                if "defined" in s:
                    s, u, v = "12", False, 12
            else:
                u = d.draw(2) == 1
                v = d.draw(1 << 40)
                s = "%d%s" % (v, "u" if u else "")
            f = "F%d_@" % i
            top.append("#define M%d_@ (%s)\n#define %s(x) ((x) * 2 + 1)" % (i, s, f))
            ms.append(("M%d_@" % i, u, v, f))
        g = PP(d, ms)
        body, exp = [], []
        for i in range(d.int(1, 5)):
            s, p, u, v = g.expr(d.int(1, 5))
            k = d.draw(5)
            if k == 0:
                body.append("#if %s\nP(1);\n#else\nP(0);\n#endif" % s); exp.append(str(int(bool(v))))
            elif k == 1:
                body.append("#if (%s) == %s\nP(1);\n#else\nP(0);\n#endif" % (s, "%du" % v if u else "(%d)" % v if v != -(1 << 63) else "(-9223372036854775807 - 1)")); exp.append("1")
            elif k == 2:
                s2, _, _, v2 = g.expr(3)
                body.append("#if %s\nP(1);\n#elif %s\nP(2);\n#else\nP(3);\n#endif" % (s, s2)); exp.append("1" if v else "2" if v2 else "3")
            elif k == 3:
                # whether the result is unsigned shows in a comparison with -1
                body.append("#if (%s) * 0 - 1 > 0\nP(1);\n#else\nP(0);\n#endif" % (s if not u else s)); exp.append(str(int(u)))
            else:
                s2, _, _, v2 = g.expr(2)
                body.append("#if %s\n# if %s\nP(1);\n# else\nP(2);\n# endif\n#elif 1 /* %s */\nP(3);\n#elif 1/0\n#endif" % (s, s2, "x")); exp.append(("1" if v2 else "2") if v else "3")
        return {"top": "\n".join(top), "body": "\n".join(body), "expect": " ".join(exp), "ops": g.ops}

    def nontrivial(self, c, d):
        return c["ops"] >= 4


class FG(C02.G):
    def __init__(self, d):
        C02.G.__init__(self, d, [], [], None)
        self.lits = []

    def fleaf(self, const=False):
        d = self.d
        t = d.pick(C02.FT)
        self.lits.append((t, C02.literal(d, t)[0]))
        return "\x01%d\x02" % (len(self.lits) - 1), 14, t

    def lit(self, s):
        return HOLE.sub(lambda m: "(%s)" % self.lits[int(m.group(1))][1], s)

    def run(self, s):
        return HOLE.sub(lambda m: "k%d" % int(m.group(1)), s)


class Floats(cbatch.UnitProp):
    name = "floats"
    prelude = C02.PRELUDE
    rule = ("floating constant expressions in static initialisers of every real type, in conditions and in integer constants, and the same expressions over volatile variables, "
            "bit for bit against gcc; non-trivial = at least 3 operators")
    batch = 40
    quick_n, quick_secs = 40000, 20
    thorough_n, thorough_secs = 600000, 150

    def gen(self, d):
        g = FG(d)
        top, body = [], []
        for i in range(d.int(1, 4)):
            nm = "n%d_@" % i
            k = d.draw(6)
            if k < 4:
                s, p, t = g.f(d.int(1, 4), True)
                T = d.pick(C02.FT) if d.draw(2) else t if t in C02.FT else "double"
                body.append("%s((%s)(%s));" % (C02.PR[T], T, g.run(s)))
                if k == 0:
                    body.append("static %s %s = %s; %s(%s);" % (T, nm, g.lit(s), C02.PR[T], nm))
                elif k == 1:
                    top.append("static struct { char c; %s x[2]; } %s = { 1, { [1] = %s } };" % (T, nm, g.lit(s))); body.append("%s(%s.x[1]);" % (C02.PR[T], nm))
                elif k == 2:
                    body.append("%s %s = %s; %s(%s);" % (T, nm, g.lit(s), C02.PR[T], nm))
                else:
                    top.append("static %s %s[] = { %s, -(%s) };" % (T, nm, g.lit(s), g.lit(s))); body.append("%s(%s[0]); %s(%s[1]);" % (C02.PR[T], nm, C02.PR[T], nm))
            else:
                s = g.cond(d.int(1, 3), True)
                c = g.lit(s)
                body.append("P(%s);" % g.run(s))
                m = d.draw(4)
                if m == 0:
                    top.append("static int %s = %s;" % (nm, c)); body.append("P(%s);" % nm)
                elif m == 1:
                    top.append("enum { %s = %s };" % (nm, c)); body.append("P(%s);" % nm)
                elif m == 2:
                    body.append("if (%s) P(1); else P(2);" % c)
                else:
                    body.append("{ static unsigned char %s = (int)(%s) + 3; P(%s); P((_Bool)(%s)); }" % (nm, c, nm, c))
        # in-range conversions to integers
        for i in range(d.draw(3)):
            t = d.pick(list(C02.IT))
            lo, hi = C02.IT[t]
            v = d.pick([0, 1, 2, 3, 100, hi // 2, d.draw(min(hi, 1 << 52) + 1)])
            txt = "%d.%s%s" % (v, d.pick(["0", "25", "5", "75", "999"]), d.pick(["", "L"]))
            if lo and d.draw(2):
                txt = "-" + txt
            top.append("static %s c%d_@ = (%s)%s; enum { e%d_@ = (int)%d.75 };" % (t, i, t, txt, i, d.draw(1000)))
            body.append("P(c%d_@); P(e%d_@);" % (i, i)); g.n += 1
        return {"top": "\n".join(top), "body": "\n".join("volatile %s k%d = %s;" % (t, i, s) for i, (t, s) in enumerate(g.lits)) + "\n" + "\n".join(body), "expect": None, "ops": g.n}

    def nontrivial(self, c, d):
        return c["ops"] >= 3


# layout used by the address expressions: name -> (offset, type)
SC = {"char": 1, "short": 2, "int": 4, "long": 8}
E = ("struct", "E", 24, {"c": (0, "short"), "d": (8, ("arr", "long", 2))})
S = ("struct", "S", 96, {"a": (0, "char"), "b": (4, ("arr", "int", 4)), "e": (24, ("arr", E, 3))})
DEFS = "struct E_@ { short c; long d[2]; }; struct S_@ { char a; int b[4]; struct E_@ e[3]; };"


def tsize(t):
    return SC[t] if isinstance(t, str) else t[2] if t[0] == "struct" else tsize(t[1]) * t[2]


def tname(t, star="*"):
    if isinstance(t, str):
        return t + " " + star
    if t[0] == "struct":
        return "struct %s_@ %s" % (t[1], star)
    return tname(t[1], "(%s)[%d]" % (star, t[2]))


class Addr:
    """pointer constants with a model: (text, prec, pointee type, base, offset)"""
    def __init__(self, d):
        self.d, self.ops = d, 0

    def par(self, s, p, q):
        return s if p >= q else "(" + s + ")"

    def lval(self):
        """an lvalue path inside one of the objects -> text, type, base, offset"""
        d = self.d
        base = d.pick(["o", "o", "q", "z"])
        if base == "o":
            k = d.draw(3)
            s, t, off = "o_@[%d]" % k, S, k * 96
        elif base == "q":
            s, t, off = "q_@", S, 0
        else:
            k = d.draw(8)
            return "z_@[%d]" % k, "int", "z", k * 4
        while not isinstance(t, str) and d.draw(4):
            self.ops += 1
            if t[0] == "struct":
                m = d.pick(list(t[3]))
                o, t2 = t[3][m]
                s, t, off = (s + "." + m if d.draw(4) else "(&%s)->%s" % (s, m)), t2, off + o
            else:
                k = d.draw(t[2])
                s, t, off = (s + "[%d]" % k if d.draw(4) else "%d[%s]" % (k, s)), t[1], off + k * tsize(t[1])
        return s, t, base, off

    def ptr(self, depth):
        d = self.d
        if depth <= 0:
            s, t, b, o = self.lval()
            if not isinstance(t, str) and t[0] == "arr" and d.draw(2):
                return s, 16, t[1], b, o
            return "&" + s, 14, t, b, o
        s, p, t, b, o = self.ptr(depth - 1)
        self.ops += 1
        k = d.draw(9)
        if k < 3:
            z = tsize(t)
            size = {"o": 288, "q": 96, "z": 32}[b]
            lo, hi = -(o // z), (size - o) // z
            n = d.int(lo, hi)
            if n < 0:
                return "%s - %d" % (self.par(s, p, 12), -n), 12, t, b, o + n * z
            return d.pick([("%s + %d" % (self.par(s, p, 12), n), 12), ("%d + %s" % (n, self.par(s, p, 13)), 12), ("&%s[%d]" % (self.par(s, p, 16), n), 14)]) + (t, b, o + n * z)
        if k < 5:
            t2 = d.pick(["char", "char", "short", "int", "long", S, E])
            return "(%s)%s" % (tname(t2), self.par(s, p, 14)), 14, t2, b, o
        if k == 5:
            n = d.int(-o, {"o": 288, "q": 96, "z": 32}[b] - o)
            return "(%s)((char *)%s + %s)" % (tname(t), self.par(s, p, 14), "%d" % n if n >= 0 else "(%d)" % n), 14, t, b, o + n
        if k == 6:
            return "&*%s" % self.par(s, p, 14), 14, t, b, o
        if k == 7:
            c = d.draw(2)
            s2, p2, t2, b2, o2 = self.ptr(depth - 1)
            x = "(%s)%s" % (tname(t), self.par(s2, p2, 14))
            y = self.par(s, p, 4)
            d.label("conditional")
            return "(%s ? %s : %s)" % (d.pick(["1", "sizeof(int) == 4", "!0"]) if c else d.pick(["0", "sizeof(int) == 8", "!1"]), y if c else x, x if c else y), 16, t, b, o
        return "(%s)(%s)((unsigned long)%s + %d - %d)" % (tname(t), "void *", self.par(s, p, 14), 48, 48) if d.draw(2) else "(%s)(void *)%s" % (tname(t), self.par(s, p, 14)), 14, t, b, o


class Addresses(cbatch.UnitProp):
    name = "addresses"
    rule = ("address constants built from objects, members, elements, strings, functions and offsets with arithmetic, casts and conditionals in static initialisers, and the "
            "same expressions at run time, against the generator's layout; non-trivial = at least 3 operators")
    batch = 40
    quick_n, quick_secs = 200000, 12
    thorough_n, thorough_secs = 4000000, 100

    def gen(self, d):
        a = Addr(d)
        top = [DEFS, "%sstruct S_@ o_@[3]; static struct S_@ q_@ = { 5 }; int z_@[8]; static int f_@(int x) { return x + 5; } int h_@(int x);" % d.pick(["", "static ", "extern "])]
        body, exp = [], []
        tail = []
        for i in range(d.int(1, 5)):
            nm = "p%d_@" % i
            k = d.draw(11)
            if k < 7:
                s, p, t, b, o = a.ptr(d.int(0, 4))
                T = tname(t)
                base = "(char *)%s%s_@" % ("" if b == "o" or b == "z" else "&", b)
                m = d.draw(6)
                if m == 0:
                    top.append("static void *%s = %s;" % (nm, s)); x = nm
                elif m == 1:
                    top.append("static %s = %s;" % (tname(t, "*" + nm) if not (not isinstance(t, str) and t[0] == "arr") else tname(t[1], "(*%s)[%d]" % (nm, t[2])), s)); x = nm
                elif m == 2:
                    top.append("static struct { char c; const void *p[3]; } %s = { 1, { [%d] = %s } };" % (nm, i % 3, s)); x = "%s.p[%d]" % (nm, i % 3)
                elif m == 3:
                    top.append("static unsigned long %s = (unsigned long)%s + %d;" % (nm, a.par(s, p, 14), 8 * i)); x = "(%s - %d)" % (nm, 8 * i)
                elif m == 4:
                    body.append("static char *const %s[] = { 0, (char *)%s };" % (nm, a.par(s, p, 14))); x = "%s[1]" % nm
                else:
                    top.append("struct { char c; void *p; } __attribute__((packed)) %s = { 1, %s };" % (nm, s)); x = nm + ".p"
                body.append("P((char *)%s - %s); P((char *)(%s) - %s);" % (x, base, s, base)); exp += [H(o), H(o)]
            elif k == 7:
                # offsets of members
                s, t, b, o = a.lval()
                while not s.startswith("q_@."):
                    s, t, b, o = a.lval() if d.draw(3) else ("q_@.b", ("arr", "int", 4), "q", 4)
                path = s[4:]
                e = d.pick(["__builtin_offsetof(struct S_@, %s)", "(unsigned long)&((struct S_@ *)0)->%s", "(char *)&((struct S_@ *)0)->%s - (char *)0", "((unsigned long)&((struct S_@ *)16)->%s - 16)"]) % path
                if "->" in path or "(" in path:
                    e, o = "__builtin_offsetof(struct S_@, e[1].d)", 24 + 24 + 8
                top.append("static unsigned long %s = %s;" % (nm, e)); body.append("P(%s);" % nm); exp.append(H(o))
                if e.startswith("__builtin"):
                    top.append("enum { e%s = %s }; static char c%s[%s + 1];" % (nm, e, nm, e)); body.append("P(e%s); P(sizeof c%s);" % (nm, nm)); exp += [H(o), H(o + 1)]
            elif k == 10:
                # far offsets, as integers
                base = "(unsigned long)" + d.pick(["z_@", "o_@", "&q_@", "f_@", "h_@"])
                s, tot = base, 0
                for _ in range(d.int(1, 3)):
                    c = d.pick([1 << 31, (1 << 31) - 1, 1 << 32, 3 << 31, (1 << 32) + 5, 1 << 33, (1 << 63) + 1, 0x123456789abcdef, d.draw(1 << 32), d.draw(1 << 64), d.draw(1 << 16)]) + d.draw(3) - 1
                    n, l = d.pick([-1, 1]), "0x%xUL" % (c & 2 ** 64 - 1)
                    s = "(%s %s %s)" % (s, "+" if n > 0 else "-", l) if n < 0 or d.draw(2) else "(%s + %s)" % (l, s)
                    tot += n * c
                    a.ops += 1
                if d.draw(2):
                    body.append("P(%s - %s);" % (s, base))
                else:
                    body.append("{ unsigned long v = %s; P(v - %s); }" % (s, base))
                exp.append(H(tot))
            elif k == 8:
                n = d.draw(5)
                st = "w%dxyz" % i
                top.append("static const char *%s = %s;" % (nm, d.pick(["\"%s\" + %d", "&\"%s\"[%d]", "(const char *)\"%s\" + %d"]) % (st, n))); body.append("S_(%s);" % nm); exp.append(st[n:])
            else:
                top.append("static int (*%s)(int) = %s;" % (nm, d.pick(["f_@", "&f_@", "*f_@", "**&f_@", "1 ? f_@ : h_@", "0 ? h_@ : &f_@", "(int (*)(int))(void *)f_@", "h_@", "&h_@"])))
                w = "h" in top[-1].split("=")[1] and not ("?" in top[-1])
                body.append("P(%s(%d));" % (nm, i)); exp.append(H(i * 3 + 1 if w else i + 5))
        tail.append("int h_@(int x) { return x * 3 + 1; }")
        if "extern " in top[1]:
            tail.append("struct S_@ o_@[3];")
        return {"top": "\n".join(top + tail), "body": "\n".join(body), "expect": " ".join(exp), "ops": a.ops}

    def nontrivial(self, c, d):
        return c["ops"] >= 3


class Branches(cbatch.UnitProp):
    name = "branches"
    prelude = cflow.PRELUDE
    rule = ("nested statements with conditions decided at compile time (constants of every kind, short-circuits and conditionals over effects), labels, cases, declarations and "
            "statement expressions in unreached code; the log of effects compared with gcc; non-trivial = at least 8 statements")
    batch = 40
    quick_n, quick_secs = 60000, 25
    thorough_n, thorough_secs = 900000, 200

    def gen(self, d):
        f = cflow.Flow(d, const=True, name="f_@", vla=False)
        t = f.function(d.int(2, 5))
        args = [d.pick([0, 1, 2, 5, 255, 0xffffffff]) for _ in range(d.int(1, 2))]
        return {"top": "static unsigned g_@ = 4;\n" + t, "body": "\n".join("fu_ = %d; P(f_@(0, %du)); P(fu_ > 0);" % (d.pick([10, 40]), a) for a in args), "expect": None, "ops": f.size}

    def nontrivial(self, c, d):
        return c["ops"] >= 8


class C(Check):
    id = "C05"
    parts = [Integers(), Conditions(), Floats(), Addresses(), Branches()]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
