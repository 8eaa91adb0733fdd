"""Generated control flow: functions whose log of visited points is compared.

Labels may only be reached from inside every declaring block around them, so
no jump skips an initialiser or enters the scope of a variable-length array;
every loop and every backward jump spends fuel, so all functions terminate.
"""
from . import cbatch

PRELUDE = cbatch.PRELUDE + r'''
static int fu_;
static unsigned t_(unsigned n, unsigned v) { P(n); return v; }
static unsigned long long tl_(unsigned n, unsigned long long v) { P(n); return v; }
static double td_(unsigned n, double v) { P(n); return v; }
static void cl_(unsigned *p) { S_("c"); P(*p); }
struct st_ { unsigned x, y; unsigned char z[5]; };
static struct st_ mk_(unsigned a, unsigned b) { struct st_ s = { a, b, { 1, 2, 3, 4, 5 } }; s.z[a % 5] = b; return s; }
static unsigned su_(struct st_ s) { return s.x + s.y * 3 + s.z[0] + s.z[4]; }
static unsigned big_(unsigned a, double b, unsigned c, long double e, unsigned f, unsigned g, unsigned h, unsigned i, unsigned j, struct st_ s) { return a + (int)b + c + (int)e + f + g * 2 + h * 3 + i * 5 + j * 7 + s.y; }
'''


class Ctx:
    __slots__ = ("scope", "loop", "brk", "vars", "inexpr", "ret", "cleanup")

    def __init__(self, scope=(), loop=False, brk=False, vars=(), inexpr=False, ret="u", cleanup=False):
        self.scope, self.loop, self.brk, self.vars, self.inexpr, self.ret, self.cleanup = scope, loop, brk, list(vars), inexpr, ret, cleanup

    def but(self, **k):
        c = Ctx(self.scope, self.loop, self.brk, self.vars, self.inexpr, self.ret, self.cleanup)
        for a, v in k.items():
            setattr(c, a, v)
        return c


class Flow:
    def __init__(self, d, const=False, jumps_out=True, name="f@", vla=True, cleanup=True, recurse=True, stmtexpr=True):
        self.d, self.const, self.jumps_out, self.name = d, const, jumps_out, name
        self.vla, self.cleanup, self.recurse, self.stmtexpr = vla, cleanup, recurse, stmtexpr
        self.labels, self.gotos, self.addr = [], [], []
        self.pos = self.n = self.ns = self.blk = self.size = 0

    def num(self):
        self.n += 1
        return self.n

    # -- expressions
    def lv(self, c):
        d = self.d
        k = d.draw(8)
        if k < 5:
            return d.pick(c.vars)
        return ["a_[%d]" % d.draw(4), "s_.x", "*p_"][k - 5]

    def leaf(self, c):
        d = self.d
        k = d.draw(6)
        if k == 0:
            return "%du" % d.pick([0, 1, 2, 3, 5, 7, 100, 255, 256, 65536, 0x7fffffff, 0x80000000, 0xffffffff])
        if k == 1:
            return "t_(%d, %s)" % (self.num(), d.pick(c.vars))
        return self.lv(c)

    def ex(self, c, depth):
        d = self.d
        if depth <= 0:
            return self.leaf(c)
        k = d.draw(20)
        a = lambda: self.ex(c, depth - 1)
        if k < 5:
            return self.leaf(c)
        if k < 9:
            return "(%s %s %s)" % (self.quiet(c), d.pick(["+", "-", "*", "&", "|", "^"]), a())
        if k == 9:
            return "(%s %s %s)" % (self.quiet(c), d.pick(["<", ">", "==", "!=", "<=", ">="]), a())
        if k == 10:
            return "(%s %s %s)" % (a(), d.pick(["&&", "||"]), a())
        if k == 11:
            return "(%s ? %s : %s)" % (self.cond(c, depth - 1), a(), a())
        if k == 12:
            return "(%s, %s)" % (a(), a())
        if k == 13:
            return "t_(%d, %s)" % (self.num(), a())
        if k == 14 and self.stmtexpr and self.ns < 4:
            return self.stexpr(c, depth)
        if k == 15:
            return "(unsigned)(%s)" % d.pick(["0.5 + (%s & 1023)", "1.25f + (%s & 1023)", "2.5L + (%s & 1023)", "td_(8%d, 3.0) + (1 ? 2.5f : 2)" % self.num(), "td_(7, (%s & 1023) * 0.5)"]).replace("%s", a())
        if k == 16:
            return "su_(mk_(%s, 4))" % a()
        if k == 17 and self.stmtexpr:
            return d.pick(["big_(1, 2.0, %s, 3.0L, 4, 5, 6, 7, 8, mk_(9, 8))", "big_(1, 2.0, 7, 3.0L, 4, 5, 6, 7, %s, mk_(9, 8))", "big_(1, 2.0, 7, 3.0L, 4, 5, 6, 7, 8, mk_(9, %s))"]) % self.ex(c, depth - 1)
        if k == 18:
            return "!%s" % a()
        if k == 19 and self.recurse:
            return "(fu_-- > 0 && dep_ < 3 ? (unsigned)%s(dep_ + 1, %s) : 9u)" % (self.name, self.leaf(c))
        return self.leaf(c)

    def quiet(self, c):
        """no effects, so that its order against the other operand does not matter"""
        d = self.d
        return d.pick([str(d.draw(9)) + "u", "7u", "%s" % d.pick(c.vars)]) if False else "%du" % d.pick([0, 1, 3, 10, 255, 0xffffffff])

    def konst(self):
        """constant conditions (text, whether it always evaluates quietly)"""
        d = self.d
        return d.pick(["0", "1", "0", "1", "!1", "!0", "2 > 1", "2 < 1", "sizeof(int) == 4", "sizeof(int) == 8", "(char)256", "(char)257", "1 ? 0 : 1", "0 ? 0 : 1", "0.0", "0.5", "(int)0.5",
                       "0 && 1", "1 || 0", "-1 < 0u", "(1, 0)", "(0, 1)", "\"\" != 0", "&g_@ != 0", "!\"x\"", "1 << 31 < 0", "'a' == 97", "0L", "5LL", "(void *)0 != 0", "(_Bool)0.5",
                       "0x100000000", "0x100000000 == 0", "(int)0x100000000", "~0u == -1", "__builtin_constant_p(3)", "3 & 4", "7 % 7", "1.0f - 1.0f", "(unsigned char)-1 == -1", "-1L < 0u", "-0.0", "!-0.0"])

    def semi(self, c, depth):
        """conditions whose value is fixed but whose operands have effects or not"""
        d = self.d
        e = self.ex(c, depth)
        k = d.pick(["0 && %s", "1 || %s", "%s && 0", "%s || 1", "(%s, 0)", "(%s, 1)", "%s * 0", "%s & 0", "%s | 1", "(%s, %s)", "!(%s || 1)", "(0 && %s) || 0", "1 && (%s || 1)", "0 ? %s : 1", "1 ? 0 : %s",
                    "0 || (1 && %s)", "1 && %s", "0 || %s", "(0 && %s) == 0", "(1 || %s) + 1", "%s >= 0u", "0 && (%s, 1)", "!(0 && %s)", "sizeof(%s) == 4", "__builtin_constant_p(%s) * 0", "(char)(%s) * 0", "0.0 * %s",
                    "1 ? %s : 0", "0 ? 1 : %s", "(0 ? %s : 0) || 0"])
        return k.replace("%s", e, 1).replace("%s", self.konst(), 1)

    def cond(self, c, depth):
        d = self.d
        if self.const and d.chance(2, 3):
            if d.chance(1, 3):
                return "(%s)" % self.semi(c, max(0, depth - 1))
            s = self.konst()
            return s if " " not in s else "(%s)" % s
        return "(%s)" % self.ex(c, depth)

    def stexpr(self, c, depth):
        d = self.d
        self.ns += 1
        self.blk += 1
        b = self.blk
        nv = "e%d" % b
        c2 = c.but(scope=c.scope + (b,), vars=c.vars + [nv], inexpr=True)
        if not self.jumps_out:
            c2.loop = c2.brk = False
            c2.ret = None
        init = self.ex(c, 1)
        n = d.draw(3)
        body = "".join(self.stmt(c2, depth - 2) for _ in range(n))
        return "({ unsigned %s = %s; %s %s; })" % (nv, init, body, self.ex(c2, 1))

    # -- statements
    def block(self, c, depth, n=None):
        d = self.d
        n = d.draw(4) if n is None else n
        if d.chance(1, 3):
            return "{ " + "".join(self.stmt(c, depth) for _ in range(max(1, n))) + "}"
        return "{ " + "".join(self.stmt(c, depth) for _ in range(n)) + "}"

    def label(self, c):
        self.pos += 1
        nm = "L%d" % len(self.labels)
        self.labels.append((nm, self.pos, c.scope))
        return nm

    def goto(self, c, back):
        """a placeholder: back = also backward targets"""
        self.pos += 1
        self.gotos.append((self.pos, c.scope, back))
        return "\x03%d\x04" % (len(self.gotos) - 1)

    def log(self):
        return "P(%d); " % self.num()

    def stmt(self, c, depth):
        d = self.d
        self.size += 1
        self.pos += 1
        if depth <= 0 or self.size > 60:
            return self.simple(c)
        k = d.draw(24)
        if k < 4:
            return self.simple(c)
        if k < 8:
            s = "if (%s) %s" % (self.cond(c, 2), self.block(c, depth - 1))
            if d.draw(2):
                s += " else %s" % self.block(c, depth - 1)
            return s + "\n"
        if k == 8:
            i = self.num()
            self.blk += 1
            return "for (int i%d = 0; i%d < %d && fu_-- > 0; i%d++) %s\n" % (i, i, d.int(1, 4), i, self.block(c.but(loop=True, brk=True, scope=c.scope + (self.blk,)), depth - 1))
        if k == 9:
            return "while (%s && fu_-- > 0) %s\n" % (self.cond(c, 2), self.block(c.but(loop=True, brk=True), depth - 1))
        if k == 10:
            return "do { if (fu_-- <= 0) break; %s } while (%s);\n" % (self.block(c.but(loop=True, brk=True), depth - 1), self.cond(c, 2))
        if k == 11:
            return "for (;%s;%s) { if (fu_-- <= 0) break; %s }\n" % (d.pick(["", self.cond(c, 1)]), d.pick(["", self.ex(c, 1)]), self.block(c.but(loop=True, brk=True), depth - 1))
        if k == 12:
            return "while (%s) { if (fu_-- <= 0) break; %s %s}\n" % (self.cond(c, 1), self.block(c.but(loop=True, brk=True), depth - 1), d.pick(["", "break; "]))
        if k < 16:
            return self.switch(c, depth)
        if k == 16:
            return self.declblock(c, depth)
        if k == 17:
            return "%s: %s\n" % (self.label(c), self.simple(c))
        if k == 18:
            return self.jump(c)
        if k == 19:
            return "%s\n" % self.block(c, depth - 1)
        if k == 20 and self.vla and not self.const:
            return self.vlablock(c, depth)
        if k == 21:
            return self.declblock(c, depth)
        if k == 22:
            return "{ unsigned char *q_ = __builtin_alloca((%s & 63) + 1); q_[0] = %s; P(q_[0]); }\n" % (self.ex(c, 1), self.ex(c, 1)) if not c.inexpr else self.simple(c)
        return self.jump(c)

    def simple(self, c):
        d = self.d
        k = d.draw(8)
        if k < 2:
            return self.log()
        if k == 2:
            return "P(%s); " % self.ex(c, 2)
        if k < 6:
            return "%s %s %s; " % (self.lv(c), d.pick(["=", "+=", "^=", "-=", "*="]), self.ex(c, 2)) if False else self.assign(c)
        if k == 6:
            return "%s; " % self.ex(c, 2)
        return "; "

    def assign(self, c):
        d = self.d
        v = self.lv(c)
        if d.draw(2):
            return "%s = %s; " % (v, self.ex(c, 2))
        # the right side must not change what the left reads
        return "%s %s %s; " % (v, d.pick(["+=", "^=", "-=", "*="]), "%du" % d.int(1, 9) if d.draw(2) else "t_(%d, %d)" % (self.num(), d.int(1, 9)))

    def jump(self, c):
        d = self.d
        k = d.draw(6)
        g = "if (%s) " % self.cond(c, 1) if d.chance(2, 3) else ""
        if k == 0 and c.brk:
            return g + "break;\n"
        if k == 1 and c.loop:
            return g + "continue;\n"
        if k == 2 and c.ret and (not c.inexpr or self.jumps_out):
            return g + "return %s;\n" % self.ex(c, 1)
        if c.inexpr and not self.jumps_out:
            return self.log()
        return g + self.goto(c, False) + "\n" if d.draw(2) else "if (fu_-- > 0) %s\n" % self.goto(c, True)

    def declblock(self, c, depth):
        d = self.d
        self.blk += 1
        b = self.blk
        decl, vs = [], list(c.vars)
        for i in range(d.int(1, 3)):
            nm = d.pick(c.vars) if d.draw(2) and "i" not in d.pick(c.vars) else "b%d_%d" % (b, i)
            if any(x[0] == nm for x in decl):
                continue
            k = d.draw(6)
            cu = c.but(vars=[v for v in vs if v != nm and not any(v == x[0] for x in decl)] or ["g_@"])
            if k == 0:
                decl.append((nm, "static unsigned %s = %d;" % (nm, d.draw(99))))
            elif k == 1 and self.cleanup:
                decl.append((nm, "unsigned %s __attribute__((cleanup(cl_))) = %s;" % (nm, self.ex(cu, 1))))
                d.label("cleanup")
            elif k == 2:
                decl.append((nm, "volatile unsigned %s = %s;" % (nm, self.ex(cu, 1))))
            else:
                decl.append((nm, "unsigned %s = %s;" % (nm, self.ex(cu, 1))))
            if nm not in vs:
                vs.append(nm)
        c2 = c.but(scope=c.scope + (b,), vars=vs)
        return "{ %s %s }\n" % (" ".join(x[1] for x in decl), "".join(self.stmt(c2, depth - 1) for _ in range(d.int(1, 4))))

    def vlablock(self, c, depth):
        d = self.d
        self.blk += 1
        b = self.blk
        self.d.label("vla")
        c2 = c.but(scope=c.scope + (b,))
        k = d.draw(3)
        n = "(%s & 15) + 1" % self.ex(c, 1)
        if k == 0:
            s = "unsigned w%d[%s]; for (unsigned j = 0; j < sizeof w%d / 4; j++) w%d[j] = j + 1; P(sizeof w%d); " % (b, n, b, b, b)
            e = "{ unsigned k_ = 0; for (unsigned j = 0; j < sizeof w%d / 4; j++) k_ = k_ * 3 + w%d[j]; P(k_); } " % (b, b)
        elif k == 1:
            s = "unsigned n%d = %s; unsigned short w%d[n%d][3]; for (unsigned j = 0; j < n%d; j++) w%d[j][2] = w%d[j][0] = j + 1; P(sizeof w%d); P(sizeof *w%d); " % (b, n, b, b, b, b, b, b, b)
            e = "{ unsigned k_ = 0; for (unsigned j = 0; j < n%d; j++) k_ = k_ * 3 + w%d[j][2] + w%d[j][0]; P(k_); } " % (b, b, b)
        else:
            s = "unsigned n%d = %s; char w%d[2][n%d]; w%d[0][0] = 3; w%d[1][n%d - 1] = 7; char (*z%d)[n%d] = w%d; n%d++; P(sizeof *z%d); " % ((b, n) + (b,) * 10)
            e = "P(w%d[1][sizeof *w%d - 1]); P(z%d[1] - z%d[0]); P(n%d); " % (b, b, b, b, b)
        return "{ %s %s %s }\n" % (s, "".join(self.stmt(c2, depth - 1) for _ in range(d.int(0, 3))), e)

    def switch(self, c, depth):
        d = self.d
        ty = d.pick(["", "", "(int)", "(unsigned char)", "(signed char)", "(long long)", "(unsigned long long)", "(short)"])
        m = d.pick([3, 7, 15, 255])
        if self.const and d.draw(2):
            e = "(%s)" % d.pick([str(d.draw(6)), "t_(%d, %d)" % (self.num(), d.draw(6)), "2 + 1", "sizeof(short)"])
        else:
            e = "(%s & %d)" % (self.ex(c, 2), m)
        if d.draw(4) == 0:
            e = "%s - %d" % (e, d.int(0, 9))
        used = set()
        lo, hi = -10, m
        deflt = d.draw(3) > 0
        parts = []
        c2 = c.but(brk=True)
        n = d.int(1, 5)
        dpos = d.draw(n) if deflt else -1
        for i in range(n):
            lab = ""
            for _ in range(d.pick([1, 1, 1, 2])):
                a = d.int(lo, min(hi, 12)) if d.draw(3) else d.int(0, 5)
                b = a + d.pick([0, 0, 0, 1, 3])
                if any(x in used for x in range(a, b + 1)):
                    continue
                used.update(range(a, b + 1))
                lab += "case %d: " % a if a == b else "case %d ... %d: " % (a, b)
            if i == dpos:
                lab += "default: "
            body = "".join(self.stmt(c2, depth - 1) for _ in range(d.int(0, 2)))
            if d.draw(2):
                body += "break; "
            if body == "":
                body = "; "
            if d.chance(1, 6) and lab:
                parts.append("if (%s) { %s %s} " % (self.cond(c2, 1), lab, body)); d.label("case-in-block")
            elif d.chance(1, 8) and lab:
                parts.append("for (; fu_-- > 0; ) { %s %s} " % (lab, body + "if (fu_-- < %d) break; " % d.int(5, 30))); d.label("case-in-loop")
            else:
                parts.append(lab + body)
        pre = self.log() if d.chance(1, 8) else ""
        return "switch (%s(%s)) { %s%s }\n" % (ty, e, pre, "\n".join(parts))

    def resolve(self, s):
        import re
        d = self.d

        def one(m):
            pos, scope, back = self.gotos[int(m.group(1))]
            ok = [l for l in self.labels if scope[:len(l[2])] == l[2] and (back or l[1] > pos)]
            if not ok:
                return "P(%d);" % self.num()
            l = d.pick(ok)
            d.label("goto-back" if l[1] < pos else "goto-forward")
            if not self.const and d.chance(1, 4):
                d.label("computed-goto")
                return "goto *(&&%s);" % l[0]
            return "goto %s;" % l[0]
        return re.sub("\x03(\\d+)\x04", one, s)

    def function(self, depth=4, n=None):
        d = self.d
        c = Ctx(vars=["v0", "v1", "v2"])
        body = "".join(self.stmt(c, depth) for _ in range(n or d.int(2, 6)))
        body = self.resolve(body)
        kinds = [d.pick(["unsigned", "unsigned", "volatile unsigned", "register unsigned", "static unsigned"]) for _ in range(2)]
        rt = d.pick(["unsigned", "unsigned", "unsigned", "long long", "double", "unsigned char"])
        decl = "%s v1; v1 = %d; %s v2; v2 = 3; unsigned a_[4] = { 1, 2, 3, 4 }; struct st_ s_ = { 5, 6, { 7 } }; unsigned *p_ = &a_[1];" % (kinds[0], d.draw(9), kinds[1])
        show = "P(v0); P(v1); P(v2); P(a_[0]); P(a_[1] + a_[2]); P(a_[3]); P(s_.x + s_.y); P(p_ - a_);"
        return "static %s %s(int dep_, unsigned v0) {\n%s\n%s%s\nreturn v0 ^ v1;\n}" % (rt, self.name, decl, body, show)
