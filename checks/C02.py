"""C02: floating-point arithmetic, conversions and literals, bit for bit."""
import math, struct
from fractions import Fraction
from vf import build, cbatch
from vf.pbt import Discard
from vf.runner import Check

FT = ["float", "double", "long double"]
SUF = {"float": ["f", "F"], "double": [""], "long double": ["L", "l"]}
MANT = {"float": 24, "double": 53, "long double": 64}
EMIN = {"float": -126, "double": -1022, "long double": -16382}
EMAX = {"float": 127, "double": 1023, "long double": 16383}
IT = {"_Bool": (0, 1), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
      "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
      "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "char": (-128, 127)}
ITN = list(IT)

PRELUDE = cbatch.PRELUDE + r'''
static void Pf(float x) { union { float f; unsigned u; } v; if (x != x) { S_("fnan"); return; } v.f = x; S_("f"); P(v.u); }
static void Pd(double x) { union { double f; unsigned long long u; } v; if (x != x) { S_("dnan"); return; } v.f = x; S_("d"); P(v.u); }
static void Pl(long double x) { union { long double f; struct { unsigned long long m; unsigned short e; } u; } v; if (x != x) { S_("lnan"); return; }
  v.f = x; S_("l"); P(v.u.m); P(v.u.e); }
'''
PR = {"float": "Pf", "double": "Pd", "long double": "Pl"}


def rnd(x, t):
    """round a Fraction to type t; None on overflow"""
    if x == 0:
        return x
    s, a = (-1 if x < 0 else 1), abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, EMIN[t])
    q = Fraction(2) ** (e - MANT[t] + 1)
    n = a / q
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    v = k * q
    if v >= Fraction(2) ** (EMAX[t] + 1):
        return None
    return s * v


def hexlit(d, v):
    """exact hexadecimal literal body of a Fraction with power of two denominator"""
    if v == 0:
        return d.pick(["0x0p0", "0x0.0p+3", "0x.0p1", "0X0P0"])
    n, den = v.numerator, v.denominator
    e = -(den.bit_length() - 1)
    while n % 2 == 0:
        n //= 2; e += 1
    sh = d.int(0, 11)
    # n * 2^e, written with k fractional hex digits
    n <<= d.int(0, 3) if False else 0
    k = d.int(0, max(0, (n.bit_length() + 3) // 4))
    up = d.draw(2)
    # ensure exactness: value = N * 16^-k * 2^(e + 4k)
    h = "%x" % n
    if k > len(h):
        k = len(h)
    ip, fp = h[:len(h) - k], h[len(h) - k:]
    if not ip and d.draw(2):
        ip = "0"
    ex = e + 4 * k
    s = "0x" + "0" * d.pick([0, 0, 0, 1, 3]) + ip
    if fp or d.draw(3) == 0:
        s += "." + fp
    if s in ("0x", "0x."):
        s = "0x0" + s[2:]
    s += "p" + ("+" if ex >= 0 and d.draw(2) else "") + str(ex)
    if fp == "" and s[2] == "p":
        s = "0x0" + s[2:]
    return s.upper() if up else s


def declit(d, t):
    """arbitrary decimal literal text"""
    k = d.draw(8)
    if k == 0:
        return d.pick(["0.0", ".0", "0.", "1.0", "1.", ".5", "0.5", "1e0", "2.5e1", "1E+2", "100e-2", "00.10", "010.0", "1e-1", "0e5", "09.5", "1.e1", ".1e+1"])
    if k == 1:
        v = d.pick([16777215, 16777216, 16777217, 16777218, 16777219, 9007199254740991, 9007199254740992, 9007199254740993, 9007199254740995,
                    2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615,
                    18446744073709551616, 33554433, 33554435, 18014398509481985, 123456789012345678])
        return "%d.%s" % (v, d.pick(["0", "", "5", "00", "49999999999999999999", "50000000000000000001"]))
    digs = "".join(str(d.draw(10)) for _ in range(d.pick([1, 2, 3, 6, 9, 15, 17, 18, 20, 25, 40]))) or "0"
    if d.draw(3):
        p = d.int(0, len(digs))
        digs = digs[:p] + "." + digs[p:]
        if digs == ".":
            digs = "0."
        if d.draw(2):
            return digs
    m = {"float": 38, "double": 308, "long double": 4932}[t]
    e = d.wpick([(5, d.int(-8, 8)), (3, d.int(-m + 5, m - 40 if m > 60 else 2)), (1, d.int(-m - 20, -m + 12))])
    return "%s%s%d" % (digs, d.pick(["e", "E"]), e) if e < 0 else "%s%s%s%d" % (digs, d.pick(["e", "E"]), d.pick(["", "+"]), e)


def fvalue(d, t):
    """a finite Fraction representable in t (sign separate), biased to interesting ones"""
    p, emin, emax = MANT[t], EMIN[t], EMAX[t]
    k = d.draw(12)
    if k == 0:
        v = Fraction(d.pick([0, 0, 1, 2, 3, 10, 255, 256, 65535, 127, 128]))
    elif k == 1:
        v = Fraction(d.int(0, 1 << 20), 1 << d.int(0, 12))
    elif k == 2:
        v = Fraction(d.pick([2**24, 2**31, 2**32, 2**53, 2**63, 2**64, 2**16, 2**15, 2**7, 2**8]) + d.int(-3, 3)) + Fraction(d.int(0, 3), 4)
    elif k == 3:
        v = (2 - Fraction(2) ** (1 - p)) * Fraction(2) ** emax / d.pick([1, 1, 2, 4])
    elif k == 4:
        v = Fraction(2) ** (emin - p + 1) * d.pick([1, 2, 3, (1 << (p - 1)) - 1, 1 << (p - 1), (1 << (p - 1)) + 1, d.draw(1 << p)])
    elif k == 5:
        v = Fraction(d.pick([1, 2, 3, 5, 7, 9, 11]), d.pick([3, 5, 7, 10, 100, 1000]))
    elif k < 10:
        m = (1 << (p - 1)) | d.draw(1 << (p - 1))
        e = d.int(-30, 30)
        v = m * Fraction(2) ** (e - p + 1)
    elif k == 10:
        m = (1 << (p - 1)) | d.draw(1 << (p - 1))
        v = m * Fraction(2) ** (d.int(emin, emax) - p + 1)
    else:
        v = Fraction(d.draw(1 << 64))
    v = rnd(v, t)
    return Fraction(1) if v is None else v


class V:
    def __init__(self, text, t, val=None, neg=False, special=None, lprec=16, mut=False):
        self.text, self.t, self.val, self.neg, self.special, self.lprec, self.mut = text, t, val, neg, special, lprec, mut


def literal(d, t):
    """-> text, value (signed Fraction or None)"""
    k = d.draw(10)
    sfx = d.pick(SUF[t])
    if k < 4:
        v = fvalue(d, t)
        s = hexlit(d, v)
    elif k < 5:
        # hexadecimal with more digits than fit: correct rounding
        n = d.draw(1 << d.pick([30, 60, 64, 65, 70, 90]))
        e = d.int(-40, 20)
        s = "0x%xp%d" % (n, e) if d.draw(2) else "0x%x.%xp%d" % (n >> 20, n & 0xfffff, e)
        s2 = s[2:].split("p")
        ip, _, fp = s2[0].partition(".")
        v = rnd(Fraction(int(ip + fp, 16)) * Fraction(2) ** (int(s2[1]) - 4 * len(fp)), t)
        d.label("longhex")
    elif k == 5:
        s = d.pick(["1e999", "1e400", "0x1p2000"]) if t != "long double" else "1e5000"
        return s + sfx, None
    else:
        s = declit(d, t)
        v = rnd(Fraction(s), t)
    return s + sfx, v


def mkvar(d, i, top, loc):
    t = d.pick(FT)
    k = d.draw(14)
    if k == 0:
        sp = d.pick(["inf", "-inf", "nan", "-0"])
        s = {"inf": "1.0/0.0", "-inf": "-1.0/0.0", "nan": "0.0/0.0", "-0": "-0.0"}[sp]
        val, special = (Fraction(0), "-0") if sp == "-0" else (None, sp)
    else:
        s, val = literal(d, t)
        special = None
        if d.draw(3) == 0:
            s = "-" + s
            val = -val if val is not None else None
    nm = "v%d" % i
    k = d.draw(9)
    if k < 3:
        loc.append("%s %s = %s;" % (t, nm, s)); x = V(nm, t, val)
    elif k == 3:
        top.append("%sstatic %s g%d_@ = %s;" % (d.pick(["", "const "]), t, i, s)); x = V("g%d_@" % i, t, val)
    elif k == 4:
        loc.append("volatile %s %s = %s;" % (t, nm, s)); x = V(nm, t, val)
    elif k == 5:
        loc.append("%s a%d[4] = { 0, %s, 1 }; %s *%s = a%d;" % (t, i, s, t, nm, i)); x = V("%s[1]" % nm, t, val)
    elif k == 6:
        t2 = d.pick(FT + ["char", "int"])
        loc.append("struct { %s a; %s b; } %s = { 1, %s };" % (t2, t, nm, s)); x = V(nm + ".b", t, val)
    elif k == 7:
        top.append("static struct { char c; %s b[3]; } g%d_@ = { 'c', { 1, 2, %s } };" % (t, i, s)); x = V("g%d_@.b[2]" % i, t, val)
    else:
        loc.append("static %s s%d; s%d = %s; %s *%s = &s%d;" % (t, i, i, s, t, nm, i)); x = V("*" + nm, t, val, lprec=14)
    return x


class G:
    def __init__(self, d, vs, iv, calls):
        self.d, self.vs, self.iv, self.calls, self.n = d, vs, iv, calls, 0

    def par(self, s, p, q):
        return s if p >= q else "(" + s + ")"

    def ilit(self):
        d = self.d
        t = d.pick(["int", "int", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"])
        lo, hi = IT[t]
        v = d.wpick([(3, d.int(0, 9)), (1, hi), (1, hi - d.int(0, 600)), (1, d.draw(hi + 1)), (1, min(hi, d.pick([2**24 + 1, 2**25 + 3, 2**53 + 1, 2**54 + 3, 2**63 + 1025, 2**63, 2**31])))])
        return str(v) + {"int": "", "unsigned": "u", "long": "L", "unsigned long": "UL", "long long": "ll", "unsigned long long": "ull"}[t], t

    def ileaf(self):
        """(text, prec, type) of an integer operand"""
        d = self.d
        k = d.draw(4)
        if k == 0 or not self.iv:
            s, t = self.ilit()
            return s, 16, t
        x = d.pick(self.iv)
        return x.text, x.lprec, x.t

    def fleaf(self, const=False):
        d = self.d
        if const or d.draw(3) == 0 or not self.vs:
            t = d.pick(FT)
            s, v = literal(d, t)
            return s, 16, t
        x = d.pick(self.vs)
        return x.text, x.lprec, x.t

    def usual(self, a, b):
        for t in ("long double", "double", "float"):
            if a == t or b == t:
                return t
        return "int"

    def f(self, depth, const=False):
        """floating expression -> text, prec, type"""
        d = self.d
        if depth <= 0:
            return self.fleaf(const)
        self.n += 1
        k = d.draw(20)
        if k < 9:
            op, q = d.pick([("+", 12), ("-", 12), ("*", 13), ("/", 13)])
            a = self.f(depth - 1, const)
            b = self.f(depth - 1, const) if d.draw(3) else (self.ileaf() if not const else self.ilit()[0:1] + (16, "int"))
            if b[2] in FT and not const and d.draw(4) == 0:
                a = self.ileaf()
            t = self.usual(a[2], b[2])
            return "%s %s %s" % (self.par(a[0], a[1], q), op, self.par(b[0], b[1], q + 1)), q, t
        if k < 11:
            s, p, t = self.f(depth - 1, const)
            return d.pick(["-", "-", "+"]) + " " * 1 + self.par(s, p, 14), 14, t
        if k < 14:
            t = d.pick(FT)
            s, p, _ = self.f(depth - 1, const) if d.draw(3) else (self.ileaf() if not const else self.ilit()[0:1] + (16, "int"))
            return "(%s)%s" % (t, self.par(s, p, 14)), 14, t
        if k < 16:
            c = self.cond(depth - 1, const)
            a, b = self.f(depth - 1, const), self.f(depth - 1, const)
            if d.draw(4) == 0 and not const:
                b = self.ileaf()
            return "%s ? %s : %s" % (self.par(c, 3, 4), a[0] if a[1] > 3 else "(%s)" % a[0], self.par(b[0], b[1], 3)), 3, self.usual(a[2], b[2])
        if k == 16 and not const:
            a, b = self.f(depth - 1), self.f(depth - 1)
            return "(%s, %s)" % (a[0], b[0]), 16, b[2]
        if k < 19 and not const and self.calls is not None:
            return self.calls(self, depth)
        return self.fleaf(const)

    def cond(self, depth, const=False):
        """int-valued truth expression"""
        d = self.d
        k = d.draw(8)
        if k < 5:
            op = d.pick(["<", ">", "<=", ">=", "==", "!="])
            a, b = self.f(depth - 1, const), self.f(depth - 1, const)
            if d.draw(5) == 0 and not const:
                b = self.ileaf()
            if d.draw(5) == 0:
                b = a
            return "(%s %s %s)" % (self.par(a[0], a[1], 11), op, self.par(b[0], b[1], 11))
        if k == 5:
            a = self.f(depth - 1, const)
            return "!" + self.par(a[0], a[1], 14)
        op = d.pick(["&&", "||"])
        a, b = self.f(depth - 1, const), self.f(depth - 1, const)
        x = self.cond(depth - 1, const) if depth > 0 and d.draw(2) else self.par(a[0], a[1], 11)
        return "(%s %s %s)" % (x, op, self.par(b[0], b[1], 11))


class Calls:
    def __init__(self, d):
        self.d, self.n, self.text = d, 0, []

    def __call__(self, g, depth):
        d = self.d
        if self.n >= 3:
            return g.fleaf()
        n = d.wpick([(3, d.int(1, 3)), (1, d.int(6, 12))])
        args, ps, fv, iv = [], [], [], []
        for i in range(n):
            s, p, t = g.f(max(0, depth - 2)) if d.draw(3) else g.ileaf()
            if d.draw(3):
                pt = d.pick(FT); fv.append(V("p%d" % i, pt))
            elif t in FT:
                pt = t; fv.append(V("p%d" % i, pt))
            else:
                pt = t; iv.append(V("p%d" % i, pt))
            args.append(g.par(s, p, 3) if p > 1 else "(%s)" % s)
            ps.append("%s p%d" % (pt, i))
        g2 = G(d, fv, iv, None)
        s, p, t = g2.f(2)
        rt = d.pick(FT)
        k = self.n
        self.n += 1
        self.text.append("static %s h%d_@(%s) { return %s; }" % (rt, k, ", ".join(ps), s))
        g.n += g2.n
        return "h%d_@(%s)" % (k, ", ".join(args)), 16, rt


def inrange(v, t):
    if t == "_Bool":
        return True
    n = math.trunc(v)
    return IT[t][0] <= n <= IT[t][1]


def unit(d):
    top, loc, vs, iv = [], [], [], []
    for i in range(d.int(1, 4)):
        vs.append(mkvar(d, i, top, loc))
    for i in range(d.int(0, 2)):
        t = d.pick(ITN)
        lo, hi = IT[t]
        v = d.pick([0, 1, hi, max(lo, -1), lo + (1 if lo < -2**31 + 1 else 0), d.int(lo + 1, hi), d.int(0, min(hi, 2**24 + 3)), min(hi, 2**53 + 1)])
        if v == -2**31:
            v += 1
        loc.append("%s%s n%d = %s;" % (d.pick(["", "", "volatile ", "static "]), t, i, "%d%s" % (v, "ULL" if v > 2**63 - 1 else "LL" if abs(v) > 2**31 - 1 else "")))
        iv.append(V("n%d" % i, t, v))
    calls = Calls(d)
    g = G(d, vs, iv, calls)
    body = []
    for j in range(d.int(2, 7)):
        k = d.draw(16)
        dep = d.int(1, 4)
        if k < 5:
            s, p, t = g.f(dep)
            body.append("%s(%s);" % (PR[t], s) if p > 1 else "%s((%s));" % (PR[t], s))
            if d.draw(4) == 0:
                body.append("P(K_(%s));" % s if "(" not in s or p > 1 else "P(K_((%s)));" % s)
        elif k == 5:
            # constants only, at run time and as static initialiser
            s, p, t = g.f(d.int(1, 3), const=True)
            st = d.pick(FT)
            top.append("static %s c%d_@ = %s;" % (st, j, s))
            body.append("%s(c%d_@); %s(%s);" % (PR[st], j, PR[t], s))
            d.label("static-init")
        elif k == 6:
            c = g.cond(dep)
            body.append(d.pick(["P(%s);" % c, "if (%s) P(1); else P(2);" % c, "P((%s) ? 3 : 4);" % c, "{ int q_ = 0; while (%s) { P(9); if (++q_) break; } }" % c, "P(!(%s));" % c]))
        elif k == 7:
            s, p, t = g.f(dep)
            body.append(d.pick(["if (%s) P(1); else P(2);", "P(!(%s));", "P(!!(%s));", "P((_Bool)(%s));", "P((%s) ? 1 : 0);", "for (; %s; ) { P(6); break; }", "P((%s) && 1);"]) % s)
            d.label("truth")
        elif k in (8, 9):
            # float to integer with a value known to fit
            c = [x for x in vs if x.val is not None and not x.mut]
            if c and d.draw(3):
                x = d.pick(c); s, v = self_par(x), x.val
            else:
                t = d.pick(FT)
                s, v = literal(d, t)
                if v is None:
                    continue
            ts = [t for t in ITN if inrange(v, t)]
            if not ts:
                continue
            t = d.pick(ts)
            d.label("f2i")
            body.append(d.pick(["P((%s)%s);" % (t, s), "{ %s z_ = %s; P(z_); }" % (t, s), "{ %s z_ = 0; z_ = %s; P(z_); }" % (t, s)]))
        elif k == 10:
            # guarded conversion of a computed value
            s, p, t = g.f(dep)
            it = d.pick(["int", "long long", "unsigned", "unsigned long long", "short", "unsigned char", "signed char", "unsigned short"])
            lo, hi = IT[it]
            body.append("{ %s z_ = %s; if (z_ > %s.0L && z_ < %s.0L) P((%s)z_); else P(77); }" % (t, s, lo - 1 if lo > -2**31 else lo, hi, it))
            d.label("f2i-guarded")
        elif k == 11:
            s, p, t = g.ileaf()
            ft = d.pick(FT)
            body.append(d.pick(["%s((%s)%s);" % (PR[ft], ft, s), "{ %s z_ = %s; %s(z_); }" % (ft, s, PR[ft]), "{ %s z_[2]; z_[1] = %s; %s(z_[1]); }" % (ft, s, PR[ft])]))
            d.label("i2f")
        elif k in (12, 13):
            x = d.pick(vs)
            if "g" in x.text and "const" in " ".join(top):
                continue
            x.mut = True
            m = d.draw(4)
            if m == 0:
                e = d.pick(["%s++", "%s--", "++%s", "--%s"]) % ("(%s)" % x.text if x.lprec < 16 else x.text)
                body.append("%s(%s); %s(%s);" % (PR[x.t], e, PR[x.t], x.text))
            else:
                s, p, t = g.f(dep)
                op = d.pick(["=", "+=", "-=", "*=", "/="])
                body.append("%s %s %s; %s(%s);" % (x.text, op, s, PR[x.t], x.text))
            d.label("assign")
        elif k == 14 and iv:
            # integer op= floating, value known to fit
            x = d.pick(iv)
            if x.mut or x.t == "_Bool" or abs(x.val) > 1000:
                continue
            lo, hi = IT[x.t]
            f = d.pick([Fraction(1, 2), Fraction(3, 2), Fraction(5, 4), Fraction(2), Fraction(7, 8)])
            op = d.pick(["+", "-", "*", "/"])
            r = {"+": x.val + f, "-": x.val - f, "*": x.val * f, "/": x.val / f}[op]
            if not lo <= math.trunc(r) <= hi or (r < 0 and lo == 0 and r <= -1):
                continue
            body.append("%s %s= %s%s; P(%s);" % (x.text, op, float(f), d.pick(["", "f", "L"]), x.text))
            x.val = math.trunc(r)
            d.label("iop=f")
        else:
            a, b = g.f(1), g.f(1)
            o = d.pick(["<", ">", "<=", ">=", "==", "!="])
            body.append("{ %s x_ = %s; %s y_ = %s; P(x_ < y_); P(x_ > y_); P(x_ <= y_); P(x_ >= y_); P(x_ == y_); P(x_ != y_); P(!(x_ %s y_)); if (!(x_ %s y_)) P(5); P((x_ %s y_) ? 1 : 0); }"
                        % (a[2], a[0], b[2], b[0], o, o, o))
            d.label("relations")
    return {"top": "\n".join(top) + "\n" + "\n".join(calls.text), "body": "\n".join(loc) + "\n" + "\n".join(body), "expect": None, "ops": g.n}


def self_par(x):
    return x.text if x.lprec >= 14 else "(%s)" % x.text


class Expr(cbatch.UnitProp):
    name = "float"
    prelude = PRELUDE
    rule = ("functions over float, double and long double variables of every storage kind, decimal and hexadecimal literals, constant and run-time "
            "operands, conversions to and from all integer types, comparisons with NaN/infinities/zeros; compared with gcc on raw bits; "
            "non-trivial = at least 3 operators")
    batch = 80
    quick_n, quick_secs = 24000, 60
    thorough_n, thorough_secs = 400000, 760
    ref_flags = ["-fno-trapping-math", "-Wno-overflow"]

    def gen(self, d):
        return unit(d)

    def nontrivial(self, c, d):
        return c["ops"] >= 3


class C(Check):
    id = "C02"
    parts = [Expr()]
    assumptions = ["gcc -O0 is the reference; a difference counts only if gcc -O2, clang and the sanitizers agree with it"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
