"""C07: control flow, scopes and lifetimes."""
from vf import build, cbatch, cflow, cint
from vf.runner import Check


class Flow(cbatch.UnitProp):
    name = "flow"
    prelude = cflow.PRELUDE
    rule = ("functions of nested if, loops, switch (ranges, fall-through, cases inside blocks and loops), goto and computed goto, break, continue, return, "
            "statement expressions, variable-length arrays, alloca, recursion, shadowing blocks and cleanup variables; the log of visited points, conditions and scope ends "
            "is compared with gcc; non-trivial = at least 8 statements")
    batch = 40
    quick_n, quick_secs = 60000, 40
    thorough_n, thorough_secs = 900000, 420

    def gen(self, d):
        f = cflow.Flow(d, name="f_@")
        t = f.function(d.int(2, 5))
        args = [d.pick([0, 1, 2, 3, 5, 8, 255, 256, 0xffffffff]) for _ in range(d.int(1, 3))]
        return {"top": "static unsigned g_@ = 4;\n" + t, "body": "\n".join("fu_ = %d; P(f_@(0, %du)); P(fu_ > 0);" % (d.pick([10, 40, 60]), a) for a in args), "expect": None, "ops": f.size}

    def nontrivial(self, c, d):
        return c["ops"] >= 8


class Switch(cbatch.UnitProp):
    """One switch with many cases, walked over every boundary."""
    name = "switch"
    rule = ("switch statements with up to 60 cases and ranges of boundary and clustered values over every controlling type, entered with values at, next to and between all "
            "case limits, against a model of case selection; non-trivial = at least 4 cases")
    batch = 25
    quick_n, quick_secs = 200000, 15
    thorough_n, thorough_secs = 6000000, 150

    def gen(self, d):
        T = cint
        st = d.pick(T.ALL)
        pt = T.promote(st)
        n = d.wpick([(2, d.int(0, 4)), (3, d.int(3, 14)), (1, d.int(15, 60))])
        style = d.draw(4)
        base = T.value(d, pt)
        step = d.pick([1, 1, 2, 3, 7, 1 << 16, (1 << 32) + 1])
        cases = []                       # (lo, hi, text)
        for i in range(n):
            if style == 0:
                lo = T.conv(base + step * (d.draw(3 * n) if d.draw(2) else i), pt)
            elif style == 1:
                lo = T.value(d, pt)
            elif style == 2:
                lo = T.conv(T.value(d, st), pt)
            else:
                lo = d.int(-6, 60)
                lo = T.conv(lo, pt)
            hi = lo
            if d.draw(4) == 3:
                hi = min(pt.hi, lo + d.pick([1, 2, 3, 10, 255, 1 << 20, 1 << 31, 1 << 40]))
            if any(not (hi < a or lo > b) for a, b, _ in cases):
                continue
            # spelled in any type that converts to the wanted value
            def spell(v):
                lt = d.pick([pt, pt, T.INT, T.UINT, T.LONG, T.ULONG, T.LLONG, T.ULLONG])
                w = T.conv(v, lt)
                if T.conv(w, pt) != v:
                    lt, w = pt, v
                s, _ = T.literal(d, lt, w)
                return s
            cases.append((lo, hi, spell(lo) if lo == hi else "%s ... %s" % (spell(lo), spell(hi))))
        has_def = d.draw(3) > 0
        dpos = d.draw(len(cases) + 1) if has_def else None
        items = []                       # order in the text
        for i, c in enumerate(cases):
            if dpos == i:
                items.append((None, i))
            items.append((c, i))
        if dpos == len(cases):
            items.append((None, dpos))
        body, flow, end = [], [], []
        for j, (c, i) in enumerate(items):
            brk = d.draw(4) > 0
            nested = d.chance(1, 12)
            lab = "case %s:" % c[2] if c else "default:"
            body.append("%s%s r = r * 7 + %d;%s%s" % ("if (r > 9) { " if nested else "", lab, j + 1, " break;" if brk else "", " }" if nested else ""))
            flow.append((c, nested)); end.append(brk)
        vals = set()
        for lo, hi, _ in cases:
            for v in (lo, hi, lo - 1, hi + 1, (lo + hi) // 2):
                vals.add(v)
        for _ in range(6):
            vals.add(T.value(d, st))
        vals |= {0, 1, st.lo, st.hi}
        vals = sorted(v for v in vals if st.lo <= v <= st.hi)
        if len(vals) > 80:
            vals = d.sample(vals, 80)
        exp, calls = [], []
        for v in vals:
            x = T.conv(v, pt)
            start = None
            for j, (c, _) in enumerate(flow):
                if c and c[0] <= x <= c[1]:
                    start = j
            if start is None:
                start = next((j for j, (c, _) in enumerate(flow) if c is None), None)
            r = 0
            if start is not None:
                j = start
                while j < len(flow):
                    if flow[j][1] and j != start and not r > 9:
                        j += 1
                        continue
                    r = (r * 7 + j + 1) & 0xffffffff
                    if end[j]:
                        break
                    j += 1
            exp.append(cbatch.hex64(r))
        lits = ", ".join(T.literal(d, T.INT if st.rank < 3 else st, v)[0] for v in vals)
        k = d.draw(4)
        sw = ["x", "(x)", "x + 0", "({ x; })"][k] if st.rank >= 3 else ["x", "+x", "x", "(int)x"][k]
        top = "static unsigned f_@(%s x) { unsigned r = 0; switch (%s) {\n%s\n} return r; }\nstatic const %s t_@[] = { %s };" % (st.name, sw, "\n".join(body), st.name, lits)
        return {"top": top, "body": "for (unsigned i = 0; i < sizeof t_@ / sizeof *t_@; i++) P(f_@(t_@[i]));", "expect": " ".join(exp), "ops": len(cases)}

    def nontrivial(self, c, d):
        return c["ops"] >= 4


class Jumps(cbatch.UnitProp):
    """Non-local jumps between active functions."""
    name = "longjmp"
    prelude = cflow.PRELUDE + r'''
extern int _setjmp(long *) __attribute__((returns_twice)); extern void longjmp(long *, int) __attribute__((noreturn));
static long jb_[6][32];
'''
    rule = ("chains of functions that set and take non-local jumps in if, switch and loops, with volatile and static state, structures passed along and callbacks; "
            "the log is compared with gcc; non-trivial = at least one jump statement")
    batch = 30
    quick_n, quick_secs = 20000, 15
    thorough_n, thorough_secs = 300000, 120

    def gen(self, d):
        n = d.int(2, 4)
        jumps = [0]
        num = [0]
        fs = []

        def log():
            num[0] += 1
            return "P(%d); " % num[0]

        def stmts(i, armed, k):
            s = ""
            for _ in range(d.int(1, k)):
                m = d.draw(9)
                if m < 2:
                    s += log()
                elif m == 2:
                    s += "x += %d; y_@ ^= x; P(x); " % d.int(1, 9)
                elif m < 5 and i + 1 < n:
                    s += "if (fu_-- > 0) x += %s; " % ("f%d_@(x + %d, mk_(x, y_@))" % (i + 1, d.draw(5)) if d.draw(2) else "(*h_@[%d])(x, mk_(2, x))" % (i + 1))
                elif m < 7 and (armed or i > 0):
                    t = d.draw(i + 1) if armed else d.draw(i)
                    jumps[0] += 1
                    s += "if (%s && fu_-- > 0 && on_@ >> %d & 1) { %s longjmp(jb_[%d], %s); } " % (d.pick(["1", "x & 1", "y_@ & 2", "fu_ & 1"]), t, log(), t, d.pick(["1", "x & 3", "0", "-1", "256"]))
                elif m == 7:
                    s += "for (int i = 0; i < %d; i++) { %s } " % (d.int(1, 3), log() + "if (x & 4) continue; x++; ")
                else:
                    s += "if (x > %d) { %s } else { %s } " % (d.int(0, 20), log(), log())
            return s

        for i in range(n):
            k = d.draw(4)
            pre = "volatile unsigned x = a; volatile struct st_ w = s; static unsigned c; c++; unsigned volatile z[4] = { a, 1, 2, 3 }; unsigned old = on_@ & 1 << %d; " % i
            arm = "on_@ |= 1 << %d; " % i
            post = "if (!old) on_@ &= ~(1 << %d); P(x); P(w.x + w.y); P(z[0] + z[3]); P(c); return x; " % i
            inner = stmts(i, True, 4)
            after = stmts(i, True, 2)
            if k == 0:
                b = "if (_setjmp(jb_[%d]) == 0) { %s %s } else { %s x++; %s }" % (i, arm, inner, log(), after)
            elif k == 1:
                b = "switch (_setjmp(jb_[%d])) { case 0: %s %s break; case 1: %s break; case 2: %s default: %s }" % (i, arm, inner, log(), log(), after)
            elif k == 2:
                b = "for (x = a & 3; x < 6; x++) { if (_setjmp(jb_[%d])) { %s if (fu_-- <= 0) break; } %s %s }" % (i, log(), arm, inner)
            else:
                b = "if (!_setjmp(jb_[%d])) { %s %s } %s" % (i, arm, inner, after)
            fs.append("static unsigned f%d_@(unsigned a, struct st_ s) { %s%s %s}" % (i, pre, b, post))
        top = "static unsigned y_@, on_@;\n" + "\n".join("static unsigned f%d_@(unsigned a, struct st_ s);" % i for i in range(n))
        top += "\nstatic unsigned (*h_@[])(unsigned, struct st_) = { %s };\n" % ", ".join("f%d_@" % i for i in range(n)) + "\n".join(fs)
        return {"top": top, "body": "fu_ = %d; y_@ = %d; on_@ = 0; P(f0_@(%d, mk_(1, 2))); P(fu_ > 0);" % (d.pick([3, 10, 30]), d.draw(9), d.draw(9)), "expect": None, "ops": jumps[0]}

    def nontrivial(self, c, d):
        return c["ops"] >= 1


class Stack(cbatch.UnitProp):
    """What a scope allocated is given back however it is left."""
    name = "stack"
    prelude = cflow.PRELUDE + r'''
static unsigned long lo_, hi_;
static void __attribute__((noinline)) probe_(void *p) { unsigned long a = (unsigned long)p; if (a < lo_) lo_ = a; if (a > hi_) hi_ = a; }
static void fill_(unsigned char *p, unsigned long n, unsigned k) { p[0] = k; p[n / 2] = k + 1; p[n - 1] = k + 2; }
static void chk_(unsigned char *p, unsigned long n, unsigned k) { if (p[0] != (unsigned char)k || p[n / 2] != (unsigned char)(k + 1) || p[n - 1] != (unsigned char)(k + 2)) P(0xbad00 + k); }
'''
    rule = ("loops of 60 rounds over nested scopes with variable-length arrays of at least 2000 bytes, left by their end, break, continue, goto out of several scopes, backward goto and switch, with cleanup variables and statement expressions on the way; the stack must not "
            "grow by 32 kB over the rounds (arrays kept would take 120 kB or more), array contents and the log of visited points agree with gcc; non-trivial = a scope with an array is left by a jump")
    batch = 30
    quick_n, quick_secs = 20000, 15
    thorough_n, thorough_secs = 300000, 120

    def gen(self, d):
        self.n = 0
        self.lab = []           # (label, in which list of labels it was placed)
        jumps = [0]

        def cond():
            return d.pick(["i % {0} == {1}", "(i >> {1} & 1)", "i > {2}", "i < {2}", "1"]).format(2 + d.draw(5), d.draw(3), d.draw(60))

        def num():
            self.n += 1
            return self.n

        def block(depth, loops, outs, inv, sw=False, nv=0):
            """statements inside a scope; outs: labels after enclosing scopes; inv: inside an array scope within the round"""
            s = ""
            for _ in range(1 + d.draw(3)):
                k = d.draw(14)
                n = num()
                if depth <= 0 or k < 2:
                    s += "P(i * 1000 + %d); " % n if d.draw(2) else ";"
                elif k < 6:
                    # array scope
                    sz = d.pick(["2000 + (i & 3)", "2000 * (1 + i % 3)", "z_@[%d] + 2000" % d.draw(4)])
                    t = d.pick(["unsigned char w{0}[n{0}]", "unsigned char w{0}[n{0}]", "unsigned char w{0}[n{0}], x{0}[n{0} + 16]", "int q{0}[n{0} / 4][2]; unsigned char w{0}[n{0}]"]).format(n)
                    cl = "unsigned c%d __attribute__((cleanup(cl_))) = %d; " % (n, n) if d.draw(4) == 3 else ""
                    more = d.draw(3) == 2
                    lab = "L%d" % n if d.draw(3) else None
                    s += "{ %sunsigned long n%d = %s; %s; fill_(w%d, sizeof w%d, %d); %s %s%schk_(w%d, n%d, %d); }%s\n" % (
                        cl, n, sz, t, n, n, n, block(depth - 1, loops, outs + ([(lab, nv)] if lab else []), True, sw, nv + 1),
                        "unsigned char y%d[n%d]; fill_(y%d, n%d, 9); " % (n, n, n, n) if more else "", block(depth - 2, loops, outs + ([(lab, nv)] if lab else []), True, sw, nv + 1) if more else "", n, n, n,
                        " %s:;" % lab if lab else "")
                elif k < 8:
                    e = d.draw(2)
                    s += "if (%s) { %s }%s\n" % (cond(), block(depth - 1, loops, outs, inv, sw, nv), " else { %s }" % block(depth - 1, loops, outs, inv, sw, nv) if e else "")
                elif k == 8:
                    j = "j%d" % n
                    s += d.pick(["for (int {0} = 0; {0} < {1}; {0}++) {{ {2} }}\n", "{{ int {0} = 0; while ({0}++ < {1}) {{ {2} }} }}\n", "{{ int {0} = 0; do {{ {2} }} while (++{0} < {1}); }}\n"]).format(j, 1 + d.draw(3), block(depth - 1, True, outs, False, False, nv))
                elif k == 9:
                    s += "switch (i %% 4) { case 0: { %s } break; case 1: { %s } default: { %s } }\n" % tuple(block(depth - 1, loops, outs, False, True, nv) for _ in range(3))
                elif k == 10 and [l for l, m in outs if m or nv <= 1]:
                    # leaving several array scopes at once for a place outside all of them keeps the outer ones (DESIGN.md)
                    jumps[0] += inv
                    s += "if (%s) goto %s;\n" % (cond(), d.pick([l for l, m in outs if m or nv <= 1]))
                elif k == 11 and (loops or sw):
                    jumps[0] += inv
                    s += "if (%s) %s;\n" % (cond(), "break" if sw or d.draw(2) or not loops else "continue")
                elif k == 12 and (base or nv <= 1):
                    jumps[0] += inv
                    s += "if (%s) goto next;\n" % cond()
                elif k == 13:
                    b = "B%d" % n
                    s += "{ int b%d = 0; %s:; { unsigned long n%d = 2000 + b%d; unsigned char w%d[n%d]; fill_(w%d, n%d, 1); %s chk_(w%d, n%d, 1); if (b%d++ < %d) goto %s; } }\n" % (
                        n, b, n, n, n, n, n, n, block(depth - 2, loops, outs, True, sw, nv + 1), n, n, n, d.pick([1, 2, 30]), b)
                    jumps[0] += 1
                else:
                    s += "P(({ unsigned char w%d[2000 + (i & 7)]; fill_(w%d, 2000, 5); w%d[0] + i; }));\n" % (n, n, n)
            return s
        base = d.draw(3) == 2
        body = block(2 + d.draw(3), False, [], False, False, base)
        head = d.pick(["for (unsigned i = 0; i < 60; i++) {", "unsigned i = 0; for (; i < 60; i++) {"])
        fixed = "unsigned long zz = 1 + (z_@[0] & 7); unsigned char keep[zz]; fill_(keep, zz, 3); " if base else ""
        top = "static unsigned long z_@[4] = { 0, 1, 500, 4000 };\nstatic void cl_@(unsigned *p) { P(*p); }\nstatic void f_@(void) { %s%s { unsigned long pn = 16 + (z_@[0]); unsigned char pr[pn]; probe_(pr); }\n%s next:; }\n P(7777); }" % (fixed, head, body)
        top = top.replace("cleanup(cl_)", "cleanup(cl_@)")
        return {"top": top, "body": "lo_ = -1; hi_ = 0; f_@(); P(hi_ - lo_ > 32768);", "expect": None, "j": jumps[0]}

    def nontrivial(self, c, d):
        return c["j"] >= 1


class C(Check):
    id = "C07"
    parts = [Flow(), Switch(), Jumps(), Stack()]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
