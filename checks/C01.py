"""C01: integer computations give the values and types the language prescribes."""
from vf import build, cint, cbatch
from vf.cint import *
from vf.pbt import Fail, Discard
from vf.runner import Check


def mkvars(d, n):
    """-> (top text, local declarations, vars)"""
    top, loc, vs = [], [], []
    pre = []
    for i in range(n):
        t = d.pick(ALL)
        v = value(d, t)
        lit = literal(d, INT if t.rank < 3 else t, v)[0]
        sp = t.name if d.draw(3) else d.pick(t.spell)
        k = d.draw(20)
        d.label("var:" + ("local local local static global sglobal param-like struct pstruct array arrayvar ptr nested volatile bitfield bitfield deep register union big".split() + ["local"])[k])
        nm = "v%d" % i
        g = "g%d_@" % i
        if k in (0, 1, 2, 19):
            loc.append("%s %s = %s;" % (sp, nm, lit)); vs.append(Var(nm, t, v))
        elif k == 3:
            loc.append("static %s %s = %s;" % (sp, nm, lit)); vs.append(Var(nm, t, v))
        elif k == 4:
            top.append("%s %s = %s;" % (sp, g, lit)); vs.append(Var(g, t, v))
        elif k == 5:
            if d.draw(2):
                top.append("static %s %s = %s;" % (sp, g, lit))
            else:
                top.append("static %s %s;" % (sp, g)); pre.append("%s = %s;" % (g, lit))
            vs.append(Var(g, t, v))
        elif k == 6:
            loc.append("const %s %s = %s;" % (sp, nm, lit)); vs.append(Var(nm, t, v, const=True))
        elif k == 7:
            t2 = d.pick(ALL)
            v2 = value(d, t2)
            loc.append("struct { %s a; %s b; } %s = { %s, %s };" % (sp, t2.name, nm, lit, literal(d, t2, v2)[0]))
            vs.append(Var(nm + ".a", t, v)); vs.append(Var(nm + ".b", t2, v2))
        elif k == 8:
            t2 = d.pick(ALL)
            v2 = value(d, t2)
            top.append("static struct s%d_@ { %s b; %s a; } %s = { %s, %s };" % (i, t2.name, sp, g, literal(d, t2, v2)[0], lit))
            loc.append("struct s%d_@ *%s = &%s;" % (i, nm, g))
            vs.append(Var(nm + "->a", t, v)); vs.append(Var(nm + "->b", t2, v2))
        elif k == 9:
            m = d.int(1, 5); j = d.draw(m)
            loc.append("%s %s[%d]; %s[%d] = %s;" % (sp, nm, m, nm, j, lit)); vs.append(Var("%s[%d]" % (nm, j), t, v))
        elif k == 10:
            m = d.int(1, 40); j = d.draw(m)
            it = d.pick([INT, CHAR, UCHAR, LONG, UINT, SHORT, ULONG])
            top.append("static %s %s[%d];" % (sp, g, m))
            loc.append("%s i%d = %d;" % (it.name, i, j)); pre.append("%s[i%d] = %s;" % (g, i, lit))
            vs.append(Var("%s[i%d]" % (g, i), t, v))
            vs.append(Var("i%d" % i, it, j, const=True))
        elif k == 11:
            off = d.pick([0, 0, 1, -1, 2, -3])
            loc.append("%s a%d[7]; %s *%s = a%d + %d; %s[%d] = %s;" % (sp, i, t.name, nm, i, 3 - off, nm, off, lit))
            vs.append(Var("*%s" % nm, t, v, lprec=14) if off == 0 else Var("%s[%d]" % (nm, off), t, v) if d.draw(2) else Var("*(%s + %d)" % (nm, off), t, v, lprec=14))
        elif k == 12:
            loc.append("struct { char c; struct { short h; %s a; } in[2]; } %s; %s.in[1].a = %s;" % (sp, nm, nm, lit))
            vs.append(Var(nm + ".in[1].a", t, v))
        elif k == 13:
            loc.append("volatile %s %s = %s;" % (sp, nm, lit)); vs.append(Var(nm, t, v))
        elif k in (14, 15):
            fs, ini = [], []
            for j in range(d.int(1, 5)):
                bt = d.pick([INT, UINT, INT, UINT, BOOL, USHORT, UCHAR, SHORT, SCHAR])
                if d.draw(8) == 7:
                    bt = d.pick([LONG, ULONG, LLONG, ULLONG])
                w = 1 if bt is BOOL else d.pick([32, 32, 31, 64, d.int(1, 32)]) if bt.bits == 64 else d.int(1, bt.bits)
                x = Var("%s.f%d" % (nm, j), bt, 0, width=w)
                x.val = x.store(value(d, bt))
                fs.append("%s f%d : %d;" % (bt.name, j, w)); ini.append(str(x.val) if x.val != -2147483648 else "(-2147483647 - 1)")
                vs.append(x)
            if k == 14:
                loc.append("struct { %s } %s = { %s };" % (" ".join(fs), nm, ", ".join(ini)))
            else:
                loc.append("static struct { %s } %s = { %s };" % (" ".join(fs), nm, ", ".join(ini)))
        elif k == 16:
            loc.append("char pad%d[%d]; pad%d[0] = 0; %s %s = %s;" % (i, d.pick([100, 120, 127, 128, 129, 200, 300, 5000]), i, sp, nm, lit)); vs.append(Var(nm, t, v))
        elif k == 17:
            loc.append("register %s %s = %s;" % (sp, nm, lit)); vs.append(Var(nm, t, v))
        else:
            loc.append("union { long long q[2]; %s a[%d]; } %s; %s.a[0] = %s;" % (sp, 2, nm, nm, lit)); vs.append(Var(nm + ".a[0]", t, v))
    return "\n".join(top), "\n".join(loc) + "\n" + "\n".join(pre), vs


class Calls:
    """helper functions for calls inside expressions"""
    def __init__(self, d):
        self.d, self.n, self.text = d, 0, []

    def __call__(self, g, depth):
        d = self.d
        if self.n >= 3:
            return g.leaf()
        n = d.wpick([(3, d.int(1, 3)), (1, d.int(4, 9))])
        args, ps, vals = [], [], []
        for i in range(n):
            s, p, t, v = g.expr(max(0, depth - 2))
            pt = d.pick(ALL)
            args.append(s if p > 1 else "(" + s + ")")
            vals.append(Var("p%d" % i, pt, conv(v, pt)))
            ps.append("%s p%d" % (pt.name, i))
        g2 = Gen(d, vals)
        g2.live = g.live
        s, t, v = g2.full(2)
        rt = d.pick(ALL)
        k = self.n
        self.n += 1
        self.text.append("static %s h%d_@(%s) { return %s; }" % (rt.name, k, ", ".join(ps), s))
        g.ops += g2.ops
        d.label("call")
        return "h%d_@(%s)" % (k, ", ".join(args)), 16, rt, conv(v, rt)


def unit(d, nv=None, ns=None, depth=None):
    top, loc, vs = mkvars(d, d.int(1, 5) if nv is None else nv)
    calls = Calls(d)
    g = Gen(d, vs, calls=calls)
    exp, body = [], []
    for _ in range(d.int(1, 5) if ns is None else ns):
        k = d.draw(10)
        dep = d.int(1, 4)
        if k < 4:
            s, t, v = g.full(dep)
            m = d.draw(3)
            if m == 0:
                body.append("P(%s);" % s); exp.append(hex64u(v))
            elif m == 1:
                body.append("P((unsigned long long)(%s));" % s); exp.append(hex64u(v))
            else:
                body.append("P(K_(+(%s))); P(%s);" % (s, s) if not has_effect(s) else "P(%s);" % s)
                if not has_effect(s):
                    exp.append("%x" % GENERIC[promote(t)])
                exp.append(hex64u(v))
        elif k < 7:
            c = [i for i, v in enumerate(vs) if not v.const]
            if not c:
                continue
            i = d.pick(c)
            g.used, g.banned = {i}, {i}
            s, t, v = g.assign(i, dep)
            body.append(s + ";")
        elif k < 9:
            s, t, v = g.full(dep)
            m = d.draw(5)
            if m == 0:
                body.append("if (%s) P(1); else P(2);" % s); exp.append("1" if v else "2")
            elif m == 1:
                body.append("if (!(%s)) P(1);" % s)
                if not v:
                    exp.append("1")
            elif m == 2:
                body.append("{ int n_1 = 0; while (%s) { if (++n_1 == 1) { P(7); break; } } P(n_1); }" % s)
                exp += ["7", "1"] if v else ["0"]
            elif m == 3:
                # several tests on one value
                body.append("do P(5); while (0 && (%s)); P(!(%s) + 3);" % (s, s) if not has_effect(s) else "P(!(%s) + 3);" % s)
                exp += ["5", "%x" % (int(not v) + 3)] if not has_effect(s) else ["%x" % (int(not v) + 3)]
            else:
                body.append("P(!!(%s) + ((%s) == 0) * 2);" % (s, s) if not has_effect(s) else "P(!!(%s));" % s)
                exp.append(("1" if v else "2") if not has_effect(s) else "%x" % int(bool(v)))
        else:
            s, t, v = g.full(dep)
            x = Var("n%d" % len(vs), d.pick(ALL), 0)
            x.val = conv(v, x.t)
            body.append("%s %s = %s;" % (x.t.name, x.text, s))
            vs.append(x); g.vars.append(x)
    for x in vs:
        body.append("P(%s);" % x.text); exp.append(hex64u(x.val))
    return {"top": top + "\n" + "\n".join(calls.text), "body": loc + "\n".join(body), "expect": " ".join(exp), "ops": g.ops}


def hex64u(v):
    return cbatch.hex64(v)


class Expr(cbatch.UnitProp):
    name = "expressions"
    rule = ("functions over variables of every integer type and storage kind (locals, globals, pointers, arrays, struct and bit-field members, "
            "volatile, large frames) with nested expressions generated together with their value by a reference interpreter; "
            "non-trivial = at least 6 operators")
    batch = 60
    quick_n, quick_secs = 300000, 40
    thorough_n, thorough_secs = 6000000, 420

    def gen(self, d):
        return unit(d)

    def nontrivial(self, c, d):
        return c["ops"] >= 6


class Dense(cbatch.UnitProp):
    """One operator at a time, over operand shapes and boundary values."""
    name = "operators"
    rule = ("single operators, casts, compound assignments and comparisons over a matrix of operand kinds (constant on either side, variable, "
            "memory, register result), types and boundary values; non-trivial = all")
    batch = 80
    quick_n, quick_secs = 250000, 30
    thorough_n, thorough_secs = 6000000, 380

    def gen(self, d):
        body, exp, top = [], [], []
        vs = []
        for i in range(3):
            t = d.pick(ALL)
            v = value(d, t)
            k = d.draw(4)
            lit = literal(d, INT if t.rank < 3 else t, v)[0]
            if k == 0:
                top.append("%s g%d_@ = %s;" % (t.name, i, lit)); x = Var("g%d_@" % i, t, v)
            elif k == 1:
                body.append("%s a%d[3]; a%d[1] = %s; %s *p%d = a%d;" % (t.name, i, i, lit, t.name, i, i)); x = Var("p%d[1]" % i, t, v)
            else:
                body.append("%s v%d = %s;" % (t.name, i, lit)); x = Var("v%d" % i, t, v)
            vs.append(x)
        g = Gen(d, vs)
        n = 0
        for _ in range(8):
            def operand():
                k = d.draw(8)
                if k < 2:
                    t = d.pick(WIDE); v = value(d, t)
                    s, p = literal(d, t, v)
                    return s, p, t, v
                x = d.pick(vs)
                if k == 2:
                    t = d.pick(ALL)
                    return "(%s)%s" % (t.name, x.text), 14, t, conv(x.val, t)
                if k == 3:
                    return "(%s + 0)" % x.text, 16, promote(x.t), x.val
                return x.text, x.lprec, x.t, x.val
            k = d.draw(12)
            if k < 6:
                s, p, t, v = g.combine(d.pick(OPS), *operand(), *operand())
                body.append("P(%s);" % s); exp.append(hex64u(v))
            elif k == 6:
                s, p, t, v = g.combine(d.pick(["<", ">", "<=", ">=", "==", "!="]), *operand(), *operand())
                if d.draw(2):
                    body.append("if (%s) P(1); else P(0);" % s)
                else:
                    body.append("P((%s) ? 1 : 0);" % s)
                exp.append(hex64u(v))
            elif k < 9:
                i = d.draw(3)
                o = operand
                x = vs[i]
                op = d.pick(OPS[:10])
                s2, p2, t2, v2 = operand()
                if op in ("<<", ">>"):
                    rt = promote(x.t)
                    if not 0 <= v2 < rt.bits:
                        v2 = d.draw(rt.bits); s2, p2, t2 = str(v2), 16, INT
                    a = conv(x.val, rt)
                    if op == "<<" and rt.signed and (a < 0 or (a << v2) > rt.hi):
                        op = ">>"
                    r = a << v2 if op == "<<" else a >> v2
                    r = conv(r, rt)
                else:
                    rt = usual(x.t, t2)
                    r = arith(op, rt, conv(x.val, rt), conv(v2, rt))
                if r is None:
                    continue
                x.val = x.store(r)
                body.append("%s %s= %s;" % (x.text, op, g.par(s2, p2, 2))); body.append("P(%s);" % x.text)
                exp.append(hex64u(x.val))
            elif k == 9:
                s, p, t, v = operand()
                t1, t2 = d.pick(ALL), d.pick(ALL)
                body.append("P((%s)(%s)%s);" % (t2.name, t1.name, g.par(s, p, 14))); exp.append(hex64u(conv(conv(v, t1), t2)))
            elif k == 10:
                s, p, t, v = g.combine(d.pick(OPS), *g.combine(d.pick(OPS), *operand(), *operand()), *operand())
                body.append("P(%s);" % s); exp.append(hex64u(v))
            else:
                s, p, t, v = g.combine(d.pick(OPS), *operand(), *g.combine(d.pick(OPS), *operand(), *operand()))
                body.append("P(%s);" % s); exp.append(hex64u(v))
            n += 1
        return {"top": "\n".join(top), "body": "\n".join(body), "expect": " ".join(exp), "ops": n}


class C(Check):
    id = "C01"
    parts = [Dense(), Expr()]
    assumptions = ["the reference interpreter agrees with gcc -O0/-O2, clang and UBSan on every case that is reported"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
