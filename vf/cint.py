"""Integer C programs generated together with their values.

Every expression is generated with the value it has when it is reached
(a reference interpreter for C's integer semantics, LP64 two's complement,
runs alongside the generator), so undefined behaviour is avoided by
construction and the expected output is known without running a compiler.
"""


import re
_FX = re.compile(r"\+\+|--|[^=!<>]=[^=]|<<=|>>=")


def has_effect(s):
    return _FX.search(s) is not None


class T:
    __slots__ = ("name", "bits", "signed", "rank", "spell", "lo", "hi", "suffix")

    def __init__(self, name, bits, signed, rank, spell):
        self.name, self.bits, self.signed, self.rank, self.spell = name, bits, signed, rank, spell
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def __repr__(self):
        return self.name


BOOL = T("_Bool", 1, False, 0, ["_Bool"])
CHAR = T("char", 8, True, 1, ["char"])
SCHAR = T("signed char", 8, True, 1, ["signed char", "char signed"])
UCHAR = T("unsigned char", 8, False, 1, ["unsigned char"])
SHORT = T("short", 16, True, 2, ["short", "short int", "signed short"])
USHORT = T("unsigned short", 16, False, 2, ["unsigned short", "unsigned short int", "short unsigned"])
INT = T("int", 32, True, 3, ["int", "signed", "signed int"])
UINT = T("unsigned", 32, False, 3, ["unsigned", "unsigned int"])
LONG = T("long", 64, True, 4, ["long", "long int"])
ULONG = T("unsigned long", 64, False, 4, ["unsigned long", "long unsigned int"])
LLONG = T("long long", 64, True, 5, ["long long", "long long int"])
ULLONG = T("unsigned long long", 64, False, 5, ["unsigned long long"])
ALL = [INT, UINT, CHAR, SCHAR, UCHAR, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, BOOL]
WIDE = [INT, UINT, LONG, ULONG, LLONG, ULLONG]
UNS = {INT: UINT, LONG: ULONG, LLONG: ULLONG}
SIZE = {BOOL: 1, CHAR: 1, SCHAR: 1, UCHAR: 1, SHORT: 2, USHORT: 2, INT: 4, UINT: 4, LONG: 8, ULONG: 8, LLONG: 8, ULLONG: 8}
GENERIC = {t: i for i, t in enumerate([BOOL, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG])}


def conv(v, t):
    if t is BOOL:
        return 1 if v else 0
    v &= (1 << t.bits) - 1
    if t.signed and v >> (t.bits - 1):
        v -= 1 << t.bits
    return v


def promote(t, bitw=None):
    if t.rank < 3:
        return INT
    return t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.bits > u.bits:
        return s
    return UNS[s]


SPECIAL = sorted(set([0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 255, 256, 1000, 12345, 65535, 65536, 65537,
                      0xff00, 0xfff, 0x1000, 0xabcdef, 0xdeadbeef, 0x12345678, 0x123456789abcdef0, 0x8000000080000000, 0x00ff00ff00ff00ff] +
                     [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(1, 65)] + [(1 << k) + 1 for k in range(1, 63)]))
NSP = len(SPECIAL)
SMALL = list(range(0, 17)) + [31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257]


def value(d, t):
    """a value of type t, biased to boundaries"""
    k = d.draw(8)
    if k < 3:
        v = SMALL[d.draw(len(SMALL))]
        if d.draw(2):
            v = -v
    elif k < 6:
        v = SPECIAL[d.draw(NSP)]
        if d.draw(2):
            v = -v
    elif k == 6:
        v = (t.lo, t.hi, t.hi - 1, t.lo + 1, -1)[d.draw(5)]
    else:
        v = d.draw(1 << 62) << d.draw(3)
        if d.draw(2):
            v = -v
    return conv(v, t)


def literal(d, t, v):
    """spell value v of type t (int or wider) as a constant expression of exactly that type -> (text, prec)"""
    if t.rank < 3:
        s, p = literal(d, INT, v)
        return "(%s)%s" % (t.name, s if p == 16 else "(" + s + ")"), 14
    suf = {INT: "", UINT: "u", LONG: "l", ULONG: "ul", LLONG: "ll", ULLONG: "ull"}[t]
    if suf and d.draw(2):
        suf = {"u": "U", "l": "L", "ul": d.pick(["UL", "Lu", "uL", "LU"]), "ll": "LL", "ull": d.pick(["ULL", "LLu", "uLL"])}[suf]
    neg = v < 0
    m = -v
    if not neg:
        m = v
    if neg and m > t.hi:
        # the most negative value
        s, _ = literal(d, t, t.hi)
        return "(-%s - 1)" % s, 16
    f = d.draw(6)
    if f <= 2:
        s = str(m)
    elif f == 3:
        s = "0x%x" % m
    elif f == 4:
        s = "0X%X" % m
    else:
        s = "0%o" % m
    if t is INT and not neg and m < 128 and f == 5 and d.draw(2):
        s = charlit(d, m)
    s += suf
    if neg:
        return "-" + s, 14
    return s, 16


def charlit(d, m):
    named = {10: "\\n", 9: "\\t", 13: "\\r", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 92: "\\\\", 39: "\\'", 34: "\\\"", 63: "\\?"}
    if m in named and d.draw(2):
        return "'%s'" % named[m]
    if 32 <= m < 127 and m not in (39, 92, 64):
        return "'%c'" % m
    return ("'\\x%x'" if d.draw(2) else "'\\%o'") % m


class Var:
    __slots__ = ("text", "t", "val", "width", "const", "lprec", "addr")

    def __init__(self, text, t, val, width=None, const=False, lprec=16, addr=True):
        self.text, self.t, self.val, self.width, self.const, self.lprec, self.addr = text, t, val, width, const, lprec, addr

    def store(self, v):
        """-> the value the variable holds after assigning v"""
        v = conv(v, self.t)
        if self.width is not None and self.t is not BOOL:
            v &= (1 << self.width) - 1
            if self.t.signed and v >> (self.width - 1):
                v -= 1 << self.width
        return v

    def rtype(self):
        if self.width is not None:
            # int promotion of bit-fields that fit in int
            if self.t is not BOOL and self.t.rank == 3 and not self.t.signed and self.width < 32:
                return INT
            # and of wider types where they are no wider than int
            if self.t.rank > 3 and self.width <= 32:
                return INT if self.t.signed or self.width < 32 else UINT
        return self.t


PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9,
        "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}
OPS = ["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "<", ">", "<=", ">=", "==", "!="]


def arith(op, t, a, b):
    """a op b in type t -> value, or None when undefined"""
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    elif op in ("/", "%"):
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if op == "/" else a - q * b
        if not (t.lo <= q <= t.hi):
            return None
    else:
        raise AssertionError(op)
    if t.signed:
        return r if t.lo <= r <= t.hi else None
    return r & ((1 << t.bits) - 1)


def compare(op, a, b):
    return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])


class Gen:
    """Expression generator.  vars: list of Var.  const=True: constant expressions only."""

    def __init__(self, d, vars=(), const=False, calls=None, consts_ok=True):
        self.d, self.vars, self.const, self.calls = d, list(vars), const, calls
        self.used, self.banned, self.live = set(), set(), True
        self.ops = 0
        self.effects = not const
        self.nofx = 0

    def full(self, depth, lits=None):
        """one full expression -> (text, type, value)"""
        self.used, self.banned = set(), set()
        s, p, t, v = self.expr(depth)
        return s, t, v

    # -- helpers
    def par(self, s, p, need):
        if p < need or (p < 16 and self.d.draw(6) == 5):
            return "(" + s + ")"
        return s

    def leaf(self):
        d = self.d
        avail = None
        if not self.const and d.draw(20) >= 7:
            avail = [i for i, v in enumerate(self.vars) if i not in self.banned]
        if avail:
            i = d.pick(avail)
            v = self.vars[i]
            self.used.add(i)
            return v.text, v.lprec, v.rtype(), v.val
        t = d.pick(ALL) if d.draw(3) == 2 else d.pick(WIDE)
        v = value(d, t)
        s, p = literal(d, t, v)
        return s, p, t, v

    def expr(self, depth):
        d = self.d
        if depth <= 0:
            return self.leaf()
        k = d.draw(24)
        if k < 11:
            return self.binary(depth)
        if k < 13:
            return self.unary(depth)
        if k < 15:
            return self.cast(depth)
        if k == 15:
            return self.ternary(depth)
        if k == 16:
            return self.logic(depth)
        if k == 17 and self.effects:
            return self.effect(depth)
        if k == 18 and self.calls is not None and self.nofx == 0:
            return self.calls(self, depth)
        if k == 19 and not self.const:
            s1, p1, t1, v1 = self.expr(depth - 1)
            s2, p2, t2, v2 = self.expr(depth - 1)
            return "(%s, %s)" % (s1, s2 if p2 > 1 else "(" + s2 + ")"), 16, t2, v2
        if k == 20:
            # sizeof and _Generic: the operand is not evaluated, only its type counts
            live, self.live = self.live, False
            save = [v.val for v in self.vars]
            self.nofx += 1
            s, p, t, v = self.expr(depth - 1)
            self.nofx -= 1
            for x, y in zip(self.vars, save):
                x.val = y
            self.live = live
            if "." in s or "->" in s:       # bit-fields have no sizeof
                s = "+(%s)" % s; t = promote(t)
            if d.draw(2):
                return "sizeof(%s)" % s, 16, ULONG, SIZE[t]
            return "K_(%s)" % s, 16, INT, GENERIC[t]
        return self.leaf()

    def binary(self, depth):
        d = self.d
        op = d.pick(OPS)
        s1, p1, t1, v1 = self.expr(depth - 1 - d.draw(2))
        s2, p2, t2, v2 = self.expr(depth - 1 - d.draw(2))
        return self.combine(op, s1, p1, t1, v1, s2, p2, t2, v2)

    def combine(self, op, s1, p1, t1, v1, s2, p2, t2, v2):
        d = self.d
        self.ops += 1
        if op in ("<<", ">>"):
            t = promote(t1)
            v1 = conv(v1, t)
            if not (0 <= v2 < t.bits):
                if self.const or (d.draw(2) and not has_effect(s2)):
                    n = d.draw(t.bits)
                    if d.draw(3) == 0:
                        n = (0, 1, t.bits - 1, 31 % t.bits, 32 % t.bits, 8)[d.draw(6)]
                    s2, p2, t2, v2 = str(n), 16, INT, n
                else:
                    s2, p2 = "(%s & %d)" % (self.par(s2, p2, 9), t.bits - 1), 16
                    t2 = usual(t2, INT)
                    v2 = conv(v2, t2) & (t.bits - 1)
            if op == "<<" and t.signed and (v1 < 0 or (v1 << v2) > t.hi):
                t = UNS[t]
                s1, p1 = "(%s)%s" % (t.name, self.par(s1, p1, 14)), 14
                v1 = conv(v1, t)
            r = conv(v1 << v2, t) if op == "<<" else v1 >> v2
            return "%s %s %s" % (self.par(s1, p1, 11), op, self.par(s2, p2, 12)), 11, t, r
        t = usual(t1, t2)
        a, b = conv(v1, t), conv(v2, t)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            q = PREC[op]
            return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, INT, compare(op, a, b)
        r = arith(op, t, a, b)
        if r is None and op in ("/", "%") and b == 0:
            s2, p2 = "(%s | 1)" % self.par(s2, p2, 6), 16
            t2 = usual(t2, INT)
            v2 = conv(v2, t2) | 1
            t = usual(t1, t2)
            a, b = conv(v1, t), conv(v2, t)
            r = arith(op, t, a, b)
        if r is None:
            t = UNS[t]
            s1, p1 = "(%s)%s" % (t.name, self.par(s1, p1, 14)), 14
            a, b = conv(v1, t), conv(v2, t)
            r = arith(op, t, a, b)
            if r is None:       # divisor became zero is impossible; keep total
                op, r = "^", a ^ b
        q = PREC[op]
        s = "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1))
        return s, q, t, r

    def unary(self, depth):
        d = self.d
        op = d.pick(["-", "~", "!", "+"])
        s, p, t, v = self.expr(depth - 1)
        self.ops += 1
        if op == "!":
            return "!" + self.par(s, p, 14), 14, INT, int(not v)
        pt = promote(t)
        v = conv(v, pt)
        if op == "-":
            if pt.signed and v == pt.lo:
                pt = UNS[pt]
                s, p = "(%s)%s" % (pt.name, self.par(s, p, 14)), 14
                v = conv(v, pt)
            s = self.par(s, p, 14)
            if s[0] in "-+":
                s = "(" + s + ")"
            return "-" + s, 14, pt, conv(-v, pt)
        if op == "~":
            return "~" + self.par(s, p, 14), 14, pt, conv(~v, pt)
        s = self.par(s, p, 14)
        if s[0] in "-+":
            s = "(" + s + ")"
        return "+" + s, 14, pt, v

    def cast(self, depth):
        d = self.d
        t = d.pick(ALL)
        s, p, t0, v = self.expr(depth - 1)
        self.ops += 1
        return "(%s)%s" % (t.name if d.draw(3) else d.pick(t.spell), self.par(s, p, 14)), 14, t, conv(v, t)

    def dead(self, fn):
        """generate something that is not evaluated"""
        save = [v.val for v in self.vars]
        live, self.live = self.live, False
        r = fn()
        self.live = live
        for x, y in zip(self.vars, save):
            x.val = y
        return r

    def ternary(self, depth):
        c, cp, ct, cv = self.expr(depth - 1)
        self.ops += 1
        gen = lambda: self.expr(depth - 1)
        if cv:
            s1, p1, t1, v1 = gen()
            s2, p2, t2, v2 = self.dead(gen)
        else:
            s1, p1, t1, v1 = self.dead(gen)
            s2, p2, t2, v2 = gen()
        t = usual(t1, t2)
        return "%s ? %s : %s" % (self.par(c, cp, 4), self.par(s1, p1, 3), self.par(s2, p2, 3)), 3, t, conv(v1 if cv else v2, t)

    def logic(self, depth):
        d = self.d
        op = d.pick(["&&", "||"])
        s1, p1, t1, v1 = self.expr(depth - 1)
        self.ops += 1
        gen = lambda: self.expr(depth - 1)
        need = bool(v1) == (op == "&&")
        s2, p2, t2, v2 = gen() if need else self.dead(gen)
        r = int(bool(v1) and bool(v2)) if op == "&&" else int(bool(v1) or bool(v2))
        q = PREC[op]
        return "%s %s %s" % (self.par(s1, p1, q), op, self.par(s2, p2, q + 1)), q, INT, r

    def effect(self, depth):
        """an assignment, compound assignment or increment used as a value"""
        d = self.d
        c = [i for i, v in enumerate(self.vars) if i not in self.used and i not in self.banned and not v.const]
        if not c:
            return self.leaf()
        i = d.pick(c)
        self.banned.add(i); self.used.add(i)
        s, t, v = self.assign(i, depth)
        if self.nofx:
            return "(%s)" % s, 16, t, v
        return "(%s)" % s, 16, t, v

    def assign(self, i, depth):
        """text, type and value of an assignment to variable i; updates it"""
        d = self.d
        x = self.vars[i]
        k = d.draw(5)
        self.ops += 1
        xt = x.rtype()
        if k == 0:
            # ++ and --
            op = d.pick(["++", "--"])
            t = usual(xt, INT)
            r = arith(op[0], t, conv(x.val, t), 1)
            if r is None or x.t is BOOL:
                k = 1
            else:
                old = x.val
                x.val = x.store(r)
                lv = x.text if x.lprec >= 15 else "(" + x.text + ")"
                if d.draw(2):
                    return lv + op, x.t if x.width is None else xt, old
                return op + lv, x.t if x.width is None else xt, x.val
        s, p, t, v = self.expr(depth - 1)
        lv = x.text if x.lprec >= 14 else "(" + x.text + ")"
        if k >= 3:
            op = d.pick(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
            if op in ("<<", ">>"):
                rt = promote(xt)
                a = conv(x.val, rt)
                if not (0 <= v < rt.bits):
                    if has_effect(s):
                        t = usual(t, INT)
                        s, p, v = "(%s & %d)" % (self.par(s, p, 9), rt.bits - 1), 16, conv(v, t) & (rt.bits - 1)
                    else:
                        n = d.draw(rt.bits)
                        s, p, t, v = str(n), 16, INT, n
                if op == ">>" or not (rt.signed and (a < 0 or (a << v) > rt.hi)):
                    x.val = x.store(conv(a << v, rt) if op == "<<" else a >> v)
                    return "%s %s= %s" % (lv, op, self.par(s, p, 2)), xt, x.val
            else:
                rt = usual(xt, t)
                r = arith(op, rt, conv(x.val, rt), conv(v, rt))
                if r is not None:
                    x.val = x.store(r)
                    return "%s %s= %s" % (lv, op, self.par(s, p, 2)), xt, x.val
        x.val = x.store(v)
        return "%s = %s" % (lv, self.par(s, p, 2)), xt, x.val
