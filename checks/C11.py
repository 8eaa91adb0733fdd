"""C11: built-in functions, atomics and the runtime support library."""
import os
import re
import struct
from vf import build, cbatch, proc
from vf.cbatch import PRELUDE
from vf.pbt import Prop, Fail
from vf.runner import Check

PRE = "#include <stdatomic.h>\n" + PRELUDE + r'''
static long id_(long x) { return x; }
static void M_(const void *p, int n) { const unsigned char *c = p; while (n--) P(*c++); }
'''


def const(d, bits):
    """an interesting bit pattern"""
    k = d.draw(8)
    if k == 0:
        v = d.draw(4)
    elif k == 1:
        v = 1 << d.draw(bits)
    elif k == 2:
        v = (1 << bits) - 1 - d.draw(4)
    elif k == 3:
        v = (1 << d.draw(bits)) - 1
    elif k == 4:
        v = ((1 << bits) - 1) ^ (1 << d.draw(bits))
    elif k == 5:
        v = (1 << bits - 1) - 1 + d.draw(3)
    elif k == 6:
        v = ((1 << d.draw(bits) + 1) - 1) << d.draw(bits)
    else:
        v = d.draw(1 << bits)
    return v & (1 << bits) - 1


BITS = {"": 32, "l": 64, "ll": 64}


def bit_model(fn, v, n):
    s = format(v, "0%db" % n)
    if fn == "ffs":
        return v and n - s.rindex("1")
    if fn == "clz":
        return s.index("1")
    if fn == "ctz":
        return n - 1 - s.rindex("1")
    if fn == "clrsb":
        return n - 1 - len(s[1:].lstrip(s[0]))
    c = s.count("1")
    return c if fn == "popcount" else c & 1


class BitFns(cbatch.UnitProp):
    name = "bits"
    prelude = PRE
    rule = ("__builtin_ffs, clz, ctz, clrsb, popcount and parity for int, long and long long: 4-12 calls per case on powers of two, runs of ones, edges and random patterns, given as constants, variables, narrower or wider "
            "expressions, results used in arithmetic, as indices and arguments, through the declared function; expected: a bit-string model; non-trivial = an operand other than 0, 1 and all ones")
    quick_n, quick_secs = 20000, 15
    thorough_n, thorough_secs = 400000, 150

    def gen(self, d):
        body, exp, lab = [], [], 0
        for i in range(d.int(4, 12)):
            fn, sf = d.pick(["ffs", "clz", "ctz", "clrsb", "popcount", "parity"]), d.pick(["", "l", "ll"])
            n = BITS[sf]
            v = const(d, n)
            if fn in ("clz", "ctz") and not v:
                v = 1
            r = bit_model(fn, v, n)
            lab |= 2 <= v < (1 << n) - 1
            t = {"": "unsigned", "l": "unsigned long", "ll": "unsigned long long"}[sf]
            k = d.draw(7)
            if k == 0:
                e = "0x%x%s" % (v, {"": "u", "l": "ul", "ll": "ull"}[sf])
            elif k == 1:
                body.append("volatile %s v%d = 0x%xull;" % (t, i, v)); e = "v%d" % i
            elif k == 2:
                # wider argument, converted
                body.append("volatile unsigned long long v%d = 0x%xull;" % (i, v | (d.draw(1 << 32) << 32 if n == 32 else 0))); e = "v%d" % i
            elif k == 3:
                body.append("%s v%d = 0x%xull, *p%d = &v%d;" % (t, i, v, i, i)); e = "*p%d" % i
            elif k == 4:
                m = d.draw(1 << n)
                body.append("volatile %s v%d = 0x%xull, w%d = 0x%xull;" % (t, i, v ^ m, i, m)); e = "v%d ^ w%d" % (i, i)
            elif k == 5:
                # a narrow signed variable that extends
                nb = d.pick([8, 16])
                x = const(d, nb)
                v = x if x < 1 << nb - 1 else x - (1 << nb)
                v &= (1 << n) - 1
                if fn in ("clz", "ctz") and not v:
                    v = x = 1
                r = bit_model(fn, v, n)
                body.append("volatile signed %s v%d = (signed %s)0x%x;" % ("char" if nb == 8 else "short", i, "char" if nb == 8 else "short", x)); e = "v%d" % i
            else:
                m = d.draw(1 << n)
                body.append("volatile %s v%d = 0x%xull;" % (t, i, (v - m) & (1 << n) - 1)); e = "v%d + 0x%xull" % (i, m) if n == 64 else "v%d + 0x%xu" % (i, m)
            c = "__builtin_%s%s(%s)" % (fn, sf, e)
            k = d.draw(6)
            if k == 0:
                body.append("int r%d = %s; P(r%d);" % (i, c, i)); exp.append(r)
            elif k == 1:
                m = d.draw(100)
                body.append("P(%d + %s * 3);" % (m, c)); exp.append(m + r * 3)
            elif k == 2:
                body.append("static char a%d[70]; a%d[%s] = 7; { int i; for (i = 0; a%d[i] != 7; i++); P(i); }" % (i, i, c, i)); exp.append(r)
            elif k == 3:
                body.append("{ int (*f)(%s) = __builtin_%s%s; P(f(%s)); }" % (t.replace("unsigned", "int") if fn in ("ffs", "clrsb") and sf == "" else {"": "unsigned", "l": "unsigned long", "ll": "unsigned long long"}[sf] if fn not in ("ffs", "clrsb") else {"": "int", "l": "long", "ll": "long long"}[sf], fn, sf, e) if False else "P(K_(%s)); P(%s);" % (c, c))
                exp += [6, r]
            elif k == 4:
                body.append("P(id_(%s) - %s);" % (c, c)); exp.append(0)
            else:
                body.append("P((%s) & 1 ? 5 : %s);" % (c, c)); exp.append(5 if r & 1 else r)
        if lab:
            d.label("pattern")
        return {"top": "", "body": "\n".join(body), "expect": " ".join(cbatch.hex64(x) for x in exp)}

    def nontrivial(self, c, d):
        return "pattern" in d.labels


TYPES = [("_Bool", 1), ("char", 1), ("signed char", 1), ("unsigned char", 1), ("short", 2), ("unsigned short", 2), ("int", 4), ("unsigned", 4), ("long", 8), ("unsigned long", 8), ("long long", 8),
         ("unsigned long long", 8), ("enum e_", 4), ("float", 4), ("double", 8), ("int *", 8), ("char *", 8), ("struct s1_", 1), ("struct s2_", 2), ("struct s4_", 4), ("struct s8_", 8)]
ORD = ["__ATOMIC_RELAXED", "__ATOMIC_ACQ_REL", "__ATOMIC_SEQ_CST", "__ATOMIC_ACQUIRE", "__ATOMIC_RELEASE", "__ATOMIC_CONSUME", "mo_[1]", "mo_[2]"]
LORD = ["__ATOMIC_RELAXED", "__ATOMIC_SEQ_CST", "__ATOMIC_ACQUIRE", "__ATOMIC_CONSUME"]
SORD = ["__ATOMIC_RELAXED", "__ATOMIC_SEQ_CST", "__ATOMIC_RELEASE"]
ATOP = "static volatile int mo_[4] = { 0, 1, 4, 5 };\nstruct s1_ { char a; }; struct s2_ { char a, b; }; struct s4_ { short a; char b, c; }; struct s8_ { int a; short b; char c[2]; }; enum e_ { E0_, E1_, E2_ = 0x7fffffff };\n#ifdef __TINYC__\n#define LF_(s, a) P(!!__atomic_is_lock_free(s, (void *)(a)))\n#else\n#define LF_(s, a) P(1)\n#endif\n"


class Atomics(cbatch.UnitProp):
    name = "atomic"
    prelude = PRE + ATOP
    rule = ("histories of 2-14 __atomic_* and <stdatomic.h> operations (load, store, exchange, compare-exchange strong and weak with equal and unequal expectations, fetch-op and op-fetch for add, sub, and, or, xor, nand, "
            "test-and-set, clear, fences, is_lock_free) with all orders on objects of 21 types of 1, 2, 4 and 8 bytes: locals, globals, array elements and members reached through pointers with side effects; operands of "
            "other types, results in expressions; after every operation the result, its type and all bytes around the object are printed; reference gcc; non-trivial = a read-modify-write operation took place")
    quick_n, quick_secs = 20000, 30
    thorough_n, thorough_secs = 400000, 250

    def gen(self, d):
        T, sz = d.pick(TYPES)
        arith = T not in ("_Bool", "float", "double", "int *", "char *", "enum e_") and not T.startswith("struct")
        agg = T.startswith("struct")
        at = d.pick(["", "_Atomic ", "volatile "]) if not agg else d.pick(["", "volatile "])
        if at == "_Atomic " and T.endswith("*"):
            at = ""
        body, top = [], ""

        def val():
            if T == "_Bool":
                return str(d.draw(2))
            if T == "float":
                return "%d.%df" % (d.draw(1000), d.draw(4) * 25)
            if T == "double":
                return "%d.%d" % (d.draw(100000), d.draw(4) * 25)
            if T == "int *":
                return "(int *)%dL" % (d.draw(1 << 30) * 4)
            if T == "char *":
                return "(char *)0x%xL" % d.draw(1 << 48)
            if agg:
                n = {1: 1, 2: 2, 4: 3, 8: 3}[sz]
                return "(%s){ %s }" % (T, ", ".join(str(d.draw(100)) for _ in range(n)))
            if T == "enum e_":
                return d.pick(["E0_", "E1_", "E2_"])
            return "(%s)0x%xull" % (T, const(d, sz * 8))

        n = d.int(3, 6)
        where = d.draw(3)
        decl = "%s%s a[%d] = { %s };" % (at, T, n, ", ".join(val() for _ in range(n)))
        if agg and where:
            where = 0
        if where == 0:
            body.append(decl)
        elif where == 1:
            top = "static " + decl.replace(" a[", " a@[")
            body.append("%s%s *a = a@;" % (at, T))
        else:
            body.append("struct { char c; %s%s a[%d]; char e; } s = { 1, { %s }, 2 }, *q = &s; %s%s *a = q->a;" % (at, T, n, ", ".join(val() for _ in range(n)), at, T))
        body.append("int i = 0; (void)i; __typeof__(%s) %s; (void)%s; (void)x; (void)ret;" % (T, "t, x, ret", "t"))
        rmw = 0
        for _ in range(d.int(2, 14)):
            j = d.draw(n)
            k = d.draw(4)
            if k == 0:
                p, idx = "&a[%d]" % j, None
            elif k == 1:
                body.append("i = %d;" % j)
                p = "&a[i++]"
            elif k == 2:
                p = "a + %d" % j
            else:
                body.append("%s%s *p%d = a + %d;" % (at, T, len(body), j))
                p = "p%d" % (len(body) - 1)
            show = lambda e, t=T: "x = %s; M_(&x, sizeof x);" % e if t == T else "P(%s);" % e
            ops = ["load", "store", "xchg", "cas", "cas"] + (["fetch", "fetch", "opf", "opf"] if arith else []) + ["std", "std"] + (["tas"] if T == "_Bool" else []) + ["fence"]
            o = d.pick(ops)
            if o == "load":
                body.append("__atomic_load(%s, &ret, %s); M_(&ret, sizeof ret);" % (p, d.pick(LORD)))
            elif o == "store":
                body.append("t = %s; __atomic_store(%s, &t, %s);" % (val(), p, d.pick(SORD)))
            elif o == "xchg":
                rmw = 1
                body.append("t = %s; __atomic_exchange(%s, &t, &ret, %s); M_(&ret, sizeof ret);" % (val(), p, d.pick(ORD)))
            elif o == "cas":
                rmw = 1
                e = d.draw(3)
                body.append("ret = %s; t = %s;" % ("a[%d]" % j if e else val(), val()))
                fo = d.pick(LORD)
                body.append("P(%s__atomic_compare_exchange(%s, &ret, &t, %d, %s, %s)); M_(&ret, sizeof ret);" % (d.pick(["", "!", "3 + ", "(long)"]), p, d.draw(2) if not e else 0, d.pick(["__ATOMIC_SEQ_CST"] * 3 + ["mo_[1]", "mo_[2]"]) if fo != "__ATOMIC_RELAXED" else d.pick(ORD), fo))
            elif o in ("fetch", "opf"):
                rmw = 1
                f = d.pick(["add", "sub", "and", "or", "xor", "nand"])
                v = d.pick([val(), val(), str(d.draw(1000) - 500), "0x%xull" % d.draw(1 << 64), "(char)%d" % d.draw(256), "(unsigned short)%d" % d.draw(65536), "i + 1"])
                c = "__atomic_%s(%s, %s, %s)" % ("fetch_" + f if o == "fetch" else f + "_fetch", p, v if v != "i + 1" or "i++" not in p else "5", d.pick(ORD))
                k = d.draw(5)
                if k == 0:
                    body.append("P(K_(%s));" % c.replace("i++", "i"))
                elif k == 1:
                    body.append("P(%s + 1000ll);" % c)
                elif k == 2:
                    body.append("P(id_(%s));" % c)
                elif k == 3:
                    body.append("P(%s < 5);" % c)
                else:
                    body.append("t = %s; M_(&t, sizeof t);" % c)
            elif o == "std":
                rmw = 1
                k = d.draw(9 if arith else 7)
                e = d.draw(2)
                q = p.replace("i++", "i")
                if k == 0:
                    body.append("ret = atomic_load(%s); M_(&ret, sizeof ret);" % q)
                elif k == 1:
                    body.append("t = %s; atomic_store(%s, t);" % (val(), q))
                elif k == 2:
                    body.append("t = %s; ret = atomic_exchange(%s, t); M_(&ret, sizeof ret);" % (val(), q))
                elif k == 3:
                    body.append("ret = %s; t = %s; P(atomic_compare_exchange_strong(%s, &ret, t)); M_(&ret, sizeof ret);" % ("a[%d]" % j if e else val(), val(), q))
                elif k == 4:
                    body.append("ret = %s; t = %s; P(atomic_compare_exchange_%s_explicit(%s, &ret, t, memory_order_%s, memory_order_%s)); M_(&ret, sizeof ret);" % (
                        "a[%d]" % j if e else val(), val(), "strong" if e else d.pick(["weak", "strong"]), q, d.pick(["seq_cst", "acq_rel"]), d.pick(["relaxed", "acquire"])))
                elif k == 5:
                    body.append("t = %s; %s; ret = atomic_exchange_explicit(%s, atomic_load_explicit(%s, memory_order_acquire), memory_order_release); M_(&ret, sizeof ret);" % (
                        val(), "atomic_init(%s, t)" % q if e else "atomic_store_explicit(%s, t, memory_order_release)" % q, q, "a + %d" % d.draw(n)))
                elif k == 6:
                    body.append("{ static atomic_flag fl = ATOMIC_FLAG_INIT; P(atomic_flag_test_and_set(&fl)); P(atomic_flag_test_and_set_explicit(&fl, memory_order_acquire)); atomic_flag_clear%s; P(atomic_flag_test_and_set(&fl)); atomic_flag_clear(&fl); }" % (
                        "(&fl)" if e else "_explicit(&fl, memory_order_release)"))
                elif k == 7:
                    body.append("t = atomic_fetch_%s(%s, %s); M_(&t, sizeof t);" % (d.pick(["add", "sub", "or", "xor", "and"]), q, val()))
                else:
                    body.append("t = atomic_fetch_%s_explicit(%s, %s, memory_order_%s); M_(&t, sizeof t);" % (d.pick(["add", "sub", "or", "xor", "and"]), q, val(), d.pick(["relaxed", "seq_cst", "acq_rel"])))
            elif o == "tas":
                rmw = 1
                body.append("P(!!__atomic_test_and_set((void *)(%s), %s));" % (p.replace("i++", "i"), d.pick(ORD)) if d.draw(2) else "__atomic_clear((_Bool *)(%s), %s);" % (p.replace("i++", "i"), d.pick(SORD)))
            else:
                body.append(d.pick(["atomic_thread_fence(memory_order_seq_cst);", "__atomic_signal_fence(__ATOMIC_ACQUIRE);", "LF_(sizeof(%s), a);" % T, "P(i);"]))
            body.append("M_((const void *)a, sizeof a[0] * %d);" % n + (" P(s.c); P(s.e);" if where == 2 else ""))
        if rmw:
            d.label("rmw")
        d.label(T)
        body = "\n".join(body)
        # names the header's macros might use themselves
        names = ["ptr", "tmp", "val", "object", "desired", "expected", "order", "old", "new", "success", "cmp", "x", "p", "v", "r", "o"]
        if d.draw(2):
            for w in "t", "x", "ret", "a":
                new = d.pick([w] + names)
                if not re.search(r"\b%s\b" % new, body):
                    body = re.sub(r"\b%s\b(?!@)" % w, new, body)
        return {"top": top, "body": body, "expect": None}

    def nontrivial(self, c, d):
        return "rmw" in d.labels


CT = ["int", "unsigned", "long", "char", "signed char", "unsigned char", "short", "long long", "unsigned long", "float", "double", "long double", "void *", "int *", "const int *", "char **", "int (*)(int)", "int (*)(void)",
      "int (*)(int, char)", "int [3]", "int [4]", "int [3][2]", "struct b_", "union u_", "struct b2_", "enum f_", "_Bool", "const int", "volatile int", "const volatile long", "int * const", "td_", "td_ *", "void"]
MTOP = "struct b_ { int a; char b[3]; struct { short x; int y[2]; } c; }; struct b2_ { int a; }; union u_ { int a; double b; }; enum f_ { F_0, F_1 }; typedef int td_;\nextern void *alloca(unsigned long);\n#ifndef __TINYC__\n#define alloca __builtin_alloca\n#endif\n"


class Misc(cbatch.UnitProp):
    name = "misc"
    prelude = PRE + MTOP
    rule = ("__builtin_types_compatible_p on pairs of 34 types, __builtin_choose_expr (unselected branch with side effects or other types), __builtin_constant_p on constants and variables, __builtin_expect, "
            "__builtin_offsetof with nested members and elements, alloca in loops, nested calls and expressions (alignment, lifetime, contents), frame and return address, "
            "__builtin_mem*/str* calls and abort/malloc variants; reference gcc or a model; non-trivial = all")
    quick_n, quick_secs = 20000, 20
    thorough_n, thorough_secs = 300000, 150

    def gen(self, d):
        body, top = ["volatile int vz = 0; (void)vz;"], []
        for i in range(d.int(2, 7)):
            k = d.draw(9)
            if k == 0:
                a = d.pick(CT)
                b = d.pick([a, d.pick(CT), d.pick(CT)])
                e = "__builtin_types_compatible_p(%s, %s)" % (a, b)
                body.append("P(%s);" % d.pick([e, "%s + 2" % e, "sizeof(char[1 + %s])" % e, "__builtin_choose_expr(%s, 1, 2)" % e]))
            elif k == 1:
                c = d.pick(["1", "0", "sizeof(int) == 4", "3 < 2", "__builtin_types_compatible_p(int, td_)", "-1", "0x100000000", "!sizeof(char)"])
                vals = d.sample(["5", "7u", "9ull", "(char)3", "vz++", "2.5", "\"str\"", "(short)4", "vz + 8", "(vz = 3)", "(void *)0"], 2)
                e = "__builtin_choose_expr(%s, %s, %s)" % (c, vals[0], vals[1])
                body.append("P(sizeof(%s));" % e)
                body.append("(void)(%s); P(vz); vz = 0;" % e)
                body.append("P(K_(%s)); vz = 0;" % e)
            elif k == 2:
                e = d.pick(["1", "1 + 2", "vz", "\"abc\"[1]", "sizeof(vz)", "F_1", "'a'", "1.5", "id_(3)", "(int)2.5", "1 ? 2 : vz", "-1u >> 3"])
                r = {"vz": 0, "id_(3)": 0, "\"abc\"[1]": None, "1 ? 2 : vz": 1}.get(e, 1)
                if r is not None:
                    body.append("P(__builtin_constant_p(%s) == %d);" % (e, r))
            elif k == 3:
                v = d.draw(5)
                body.append("{ volatile long q = %d; if (__builtin_expect(q == %d, %d)) P(10); else P(11); P(__builtin_expect(q * 3, 1)); while (__builtin_expect(!!(q < 6), 0)) q++; P(q); }" % (v, d.draw(5), d.draw(2)))
            elif k == 4:
                body.append("P(__builtin_offsetof(%s));" % d.pick(["struct b_, a", "struct b_, b", "struct b_, b[%d]" % d.draw(3), "struct b_, c", "struct b_, c.x", "struct b_, c.y[%d]" % d.draw(2), "union u_, b",
                                                                   "struct { char p; double q; }, q", "struct { char p; struct b_ q[2]; }, q[1].c.y[1]"]))
            elif k in (5, 6):
                # blocks from alloca stay apart and alive until the function returns
                nb = d.int(1, 6)
                fn = []
                A = d.pick(["alloca", "__builtin_alloca"])
                szs = [d.int(1, d.pick([4, 40, 400, 9000])) for _ in range(nb)]
                if d.draw(2):
                    fn.append("for (i = 0; i < %d; i++) { p[i] = %s(sz[i]); for (j = 0; j < sz[i]; j++) p[i][j] = (char)(i * 31 + j); }" % (nb, A))
                else:
                    for q in range(nb):
                        fn.append("%sp[%d] = %s(%s); for (j = 0; j < sz[%d]; j++) p[%d][j] = (char)(%d * 31 + j);" % (
                            "if (k < 1000) " if d.draw(3) == 0 else "", q, A, d.pick(["sz[%d]" % q, "%d" % szs[q], "k + sz[%d] - k" % q, "id_(sz[%d])" % q]), q, q, q))
                        if d.draw(3) == 0:
                            fn.append("{ char loc[%d]; for (j = 0; j < %d; j++) loc[j] = 99; k += loc[%d]; }" % (20, 20, d.draw(20)))
                        if d.draw(4) == 0:
                            fn.append("k += (int)id_(g@_%d(3));" % i)
                fn.append("for (i = 0; i < %d; i++) { for (j = 0; j < sz[i] && p[i][j] == (char)(i * 31 + j); j++); if (j != sz[i]) bad++; if ((unsigned long)p[i] & 15) bad += 100; for (j = 0; j < i; j++) if (p[i] < p[j] + sz[j] && p[j] < p[i] + sz[i]) bad += 10000; }" % nb)
                top.append("static int g@_%d(int n) { int i, j, t = 0; volatile char w[300]; for (i = 0; i < 300; i++) w[i] = 77; return w[n] + t; }\n"
                           "static int f@_%d(int k, double dd, const char *s) { int i, j, bad = 0, sz[%d] = { %s }; char *p[%d]; %s return bad + (dd != 2.5) * 1000000 + (s[0] != 'q') * 10000000 + (k < 0); }" % (
                               i, i, nb, ", ".join(map(str, szs)), nb, " ".join(fn)))
                body.append("P(f@_%d(%d, 2.5, \"q\")); P(f@_%d(5, 2.5, \"q\") * 3);" % (i, d.draw(10), i))
            elif k == 7:
                m = d.draw(3)
                if m == 0:
                    top.append("static void *fa@_%d(void) { return __builtin_frame_address(0); } static void *fb@_%d(void **up, void **own) { *own = __builtin_frame_address(0); *up = __builtin_frame_address(1); return fa@_%d(); }" % (i, i, i))
                    body.append("{ void *u, *o, *c = fb@_%d(&u, &o); P(u == __builtin_frame_address(0)); P((char *)c < (char *)o); P((char *)o < (char *)u); }" % i)
                elif m == 1:
                    top.append("static void *ra@_%d(void) { return __builtin_return_address(0); } static void *rb@_%d(void) { volatile int pad[%d]; pad[0] = 1; return ra@_%d(); }" % (i, i, d.int(1, 100), i))
                    body.append("{ char *r = rb@_%d(); P(r > (char *)rb@_%d); P(r < (char *)rb@_%d + 200); }" % (i, i, i))
                else:
                    top.append("static void *rc@_%d(int n) { return n ? rc@_%d(n - 1) : __builtin_return_address(%d); }" % (i, i, 1))
                    body.append("{ char *r = rc@_%d(3); P(r > (char *)rc@_%d); P(r < (char *)rc@_%d + 200); }" % (i, i, i))
            else:
                s1 = "".join(d.pick("abcxyz") for _ in range(d.draw(12)))
                s2 = "".join(d.pick("abcxyz") for _ in range(d.draw(12)))
                n = d.draw(14)
                e = d.pick(["__builtin_strlen(\"%s\")" % s1, "__builtin_strcmp(\"%s\", \"%s\") < 0" % (s1, s2), "__builtin_strncmp(\"%s\", \"%s\", %d) == 0" % (s1, s2, n), "__builtin_memcmp(\"%s\", \"%s\", %d) > 0" % (s1, s2, min(n, len(s1), len(s2))),
                            "*__builtin_strcpy(bf, \"%s\") + bf[%d]" % (s1, d.draw(len(s1) + 1)), "*__builtin_strncpy(bf, \"%s\", %d) + bf[%d]" % (s1, n, n), "__builtin_strlen(__builtin_strcat(__builtin_strcpy(bf, \"%s\"), \"%s\"))" % (s1, s2),
                            "__builtin_strchr(\"%s\", '%s') != 0" % (s1, d.pick("abc")), "((char *)__builtin_memset(bf, %d, %d))[%d]" % (d.draw(256), n + 1, d.draw(n + 1)), "((char *)__builtin_memcpy(bf, \"%s\", %d))[0]" % (s1, min(n, len(s1))),
                            "((char *)__builtin_memmove(bf + 2, bf, %d))[1]" % n, "(__builtin_strrchr(\"a%s\", 'a') != 0)" % s1])
                body.append("{ static char bf[40]; P(%s); M_(bf, 32); }" % e)
        return {"top": "\n".join(top), "body": "\n".join(body), "expect": None}


class Conv(cbatch.UnitProp):
    name = "conv"
    prelude = PRE + r"""
#ifdef __TINYC__
long long __fixsfdi(float), __fixdfdi(double), __fixxfdi(long double);
unsigned long long __fixunssfdi(float), __fixunsdfdi(double), __fixunsxfdi(long double);
float __floatundisf(unsigned long long); double __floatundidf(unsigned long long); long double __floatundixf(unsigned long long);
#endif
static unsigned long long UB_(double d) { unsigned long long u; __builtin_memcpy(&u, &d, 8); return u; }
static unsigned UF_(float d) { unsigned u; __builtin_memcpy(&u, &d, 4); return u; }
static unsigned long long UL_(long double d) { unsigned long long u; __builtin_memcpy(&u, &d, 8); return u; }
static unsigned UE_(long double d) { unsigned short u; __builtin_memcpy(&u, (char *)&d + 8, 2); return u; }
"""
    rule = ("the runtime library's conversions between 64-bit integers and float, double and long double, called directly and through casts, assignments, arguments and arithmetic, on edges, halves, ties, runs of ones and random values in "
            "range; expected: exact rational arithmetic with rounding to nearest even; non-trivial = an operand beyond 2^24 or with a fraction")
    quick_n, quick_secs = 10000, 10
    thorough_n, thorough_secs = 300000, 100

    FT = {"f": ("float", 24, "f"), "d": ("double", 53, ""), "x": ("long double", 64, "L")}

    def gen(self, d):
        body, exp, lab = [], [], 0
        for i in range(d.int(4, 12)):
            ft = d.pick("fdx")
            T, prec, sf = self.FT[ft]
            if d.draw(2):
                v = const(d, 64)
                if d.draw(3) == 0:
                    # near a tie
                    v = (v >> 12 << 12 | 1 << 10 + d.draw(2)) + d.draw(3) - 1 & (1 << 64) - 1
                lab |= v > 1 << 24
                m, e = v, 0
                n = v.bit_length()
                if n > prec:
                    sh = n - prec
                    m, rest = v >> sh, v & (1 << sh) - 1
                    if rest > 1 << sh - 1 or rest == 1 << sh - 1 and m & 1:
                        m += 1
                    e = sh
                val = m << e
                call = {"f": "__floatundisf", "d": "__floatundidf", "x": "__floatundixf"}[ft]
                body.append("%sunsigned long long v%d = 0x%xull;" % (d.pick(["volatile ", "", "static "]), i, v))
                k = d.draw(5)
                if k == 0:
                    body.append("#ifdef __TINYC__\n%s r%d = %s(v%d);\n#else\n%s r%d = v%d;\n#endif" % (T, i, call, i, T, i, i))
                elif k == 1:
                    body.append("%s r%d = (%s)v%d;" % (T, i, T, i))
                elif k == 2:
                    body.append("%s r%d; r%d = v%d;" % (T, i, i, i))
                elif k == 3:
                    body.append("%s r%d = v%d * (%s)1;" % (T, i, i, T))
                else:
                    body.append("%s r%d; { struct { %s a[2]; } s = { { 0, v%d } }; r%d = s.a[1]; }" % (T, i, T, i, i))
                if ft == "f":
                    body.append("P(UF_(r%d));" % i); exp.append(struct.unpack("<I", struct.pack("<f", float(val)))[0])
                elif ft == "d":
                    body.append("P(UB_(r%d));" % i); exp.append(struct.unpack("<Q", struct.pack("<d", float(val)))[0])
                else:
                    body.append("P(UL_(r%d)); P(UE_(r%d));" % (i, i))
                    exp += [val << 64 - n if val else 0, 16383 + n - 1 if val else 0]
            else:
                # m * 2^e, truncated
                m = const(d, prec) | (d.draw(2) << prec - 1)
                n = m.bit_length()
                hi = d.draw(70) - 5
                e = hi - n
                val = m << e if e >= 0 else m >> -e
                neg = d.draw(2)
                uns = d.draw(2)
                lab |= e < 0 or val > 1 << 24
                lim = (1 << 64 if uns else 1 << 63)
                if val >= lim:
                    m, e, val = lim - 1 >> 64 - prec, 64 - prec, (lim - 1 >> 64 - prec) << 64 - prec
                if neg and uns and val:
                    neg = 0
                r = -val if neg else val
                lit = "%s0x%xp%d%s" % ("-" if neg else "", m, e, sf)
                R = "unsigned long long" if uns else "long long"
                body.append("%s%s v%d = %s;" % (d.pick(["volatile ", "", "static "]), T, i, lit))
                call = "__fix" + ("uns" if uns else "") + {"f": "sfdi", "d": "dfdi", "x": "xfdi"}[ft]
                k = d.draw(6)
                if k == 0:
                    body.append("#ifdef __TINYC__\n%s r%d = %s(v%d);\n#else\n%s r%d = v%d;\n#endif" % (R, i, call, i, R, i, i))
                elif k == 1:
                    body.append("%s r%d = (%s)v%d;" % (R, i, R, i))
                elif k == 2:
                    body.append("%s r%d = 7; r%d = v%d;" % (R, i, i, i))
                elif k == 3:
                    body.append("%s r%d = 5 + (%s)v%d - 5;" % (R, i, R, i))
                elif k == 4:
                    body.append("%s r%d = (%s)(v%d * 1);" % (R, i, R, i))
                else:
                    body.append("%s r%d = (%s)%s;" % (R, i, R, lit))
                body.append("P(r%d);" % i)
                exp.append(r & (1 << 64) - 1)
        if lab:
            d.label("big")
        return {"top": "", "body": "\n".join(body), "expect": " ".join(cbatch.hex64(x) for x in exp)}

    def nontrivial(self, c, d):
        return "big" in d.labels


RACE = r'''
#include <stdatomic.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
'''


class Race(Prop):
    name = "race"
    rule = ("2-8 threads run 3-6 generated loops of atomic operations of one size (1, 2, 4, 8 bytes, adjacent objects) at once: counters by fetch-op, op-fetch and compare-exchange loops, tickets (every value handed out once), "
            "bits set and cleared, tokens passed by exchange, spin locks by test-and-set and exchange around plain data, message passing by release and acquire; expected: the sums and invariants of some serial order; "
            "non-trivial = at least 2 threads on one object")
    quick_n, quick_secs = 1500, 25
    thorough_n, thorough_secs = 20000, 250
    batch = 1
    procs = 4
    shrink_evals = 60

    def gen(self, d):
        nt = d.int(2, 8)
        it = d.pick([500, 2000, 5000])
        tests = [(d.pick(["count", "ticket", "bits", "token", "lock", "lockx", "pass", "caspush", "subret", "nand"]), d.pick([1, 2, 4, 8]), d.draw(4), d.pick(ORD[:3]), d.draw(1 << 16)) for _ in range(d.int(3, 6))]
        return {"nt": nt, "it": it, "tests": tests}

    def source(self, c):
        o = [RACE, "#define NT %d\n#define IT %d\nstatic pthread_barrier_t bar;\n" % (c["nt"], c["it"])]
        o.append("typedef unsigned char u1; typedef unsigned short u2; typedef unsigned u4; typedef unsigned long long u8;\n")
        run, chk = [], []
        for i, (kind, sz, slot, order, salt) in enumerate(c["tests"]):
            T = "u%d" % sz
            o.append("static struct { %s before[2]; %s v; %s after[5]; } g%d __attribute__((aligned(8)));\n" % (T, T, T, i))
            v = "&g%d.v" % i
            k = salt % 97 + 1
            if kind == "count":
                e = ["__atomic_fetch_add(%s, %d, %s);" % (v, k, order), "__atomic_add_fetch(%s, %d, %s);" % (v, k, order), "__atomic_fetch_sub(%s, -%d, %s);" % (v, k, order),
                     "%s e, n; __atomic_load(%s, &e, 0); do n = e + %d; while (!__atomic_compare_exchange(%s, &e, &n, 1, %s, 0));" % (T, v, k, v, order)][slot]
                # neighbours are counted by one thread each, so a write of the wrong width loses counts
                o.append("static void *t%d(void *a) { int id = (int)(long)a, i; pthread_barrier_wait(&bar); for (i = 0; i < IT; i++) { %s if (id < 5) g%d.after[id]++; else if (id < 7) g%d.before[id - 5]++; } return 0; }\n" % (i, e, i, i))
                chk.append("if (g%d.v != (%s)((u8)NT * IT * %d)) { printf(\"count %d: %%llu\\n\", (u8)g%d.v); bad = 1; }" % (i, T, k, i, i))
                chk.append("{ int q; for (q = 0; q < 5; q++) if (g%d.after[q] != (%s)(q < NT ? IT : 0)) { printf(\"after %d\\n\"); bad = 1; } for (q = 0; q < 2; q++) if (g%d.before[q] != (%s)(q + 5 < NT ? IT : 0)) { printf(\"before %d\\n\"); bad = 1; } }" % (i, T, i, i, T, i))
            elif kind in ("ticket", "subret"):
                o.append("static unsigned char seen%d[1 << 16]; static unsigned got%d[NT][1 << 8];\n" % (i, i))
                n = "((1 << %d) - 1)" % (8 * min(sz, 2))
                per = "((sz_%d < IT * NT ? sz_%d : IT * NT) / NT)" % (i, i)
                o.append("enum { sz_%d = %d };\n" % (i, 250 if sz == 1 else 60000))
                op = ("__atomic_fetch_add(%s, 1, %s)" if kind == "ticket" else "(%s)(0 - __atomic_sub_fetch(%s, 1, %s) - 1)" % (T, "%s", "%s")) % (v, order)
                o.append("static void *t%d(void *a) { int i; pthread_barrier_wait(&bar); for (i = 0; i < %s; i++) { unsigned x = (unsigned)%s; if (x < (1 << 16)) seen%d[x]++; } return 0; }\n" % (i, per, op, i))
                chk.append("{ int q; for (q = 0; q < %s * NT; q++) if (seen%d[q] != 1) { printf(\"ticket %d: %%d handed out %%d times\\n\", q, seen%d[q]); bad = 1; break; } }" % (per, i, i, i))
            elif kind == "bits":
                nb = min(c["nt"], sz * 8)
                o.append("static void *t%d(void *a) { int id = (int)(long)a, i; %s m; if (id >= %d) { pthread_barrier_wait(&bar); return 0; } m = (%s)((u8)1 << id * %d); pthread_barrier_wait(&bar);\n"
                         "for (i = 0; i < IT; i++) { if (__atomic_fetch_or(%s, m, %s) & m) return (void *)1; if (!(__atomic_fetch_and(%s, ~m, %s) & m)) return (void *)1; if (!(__atomic_xor_fetch(%s, m, %s) & m)) return (void *)1; if (__atomic_fetch_xor(%s, m, %s) & ~m & m) return (void *)1; if (i == IT - 1) __atomic_or_fetch(%s, m, 5); } return 0; }\n"
                         % (i, T, nb, T, (sz * 8) // nb, v, order, v, order, v, order, v, order, v))
                chk.append("{ %s w = 0; int q; for (q = 0; q < %d; q++) w |= (%s)((u8)1 << q * %d); if (g%d.v != w) { printf(\"bits %d: %%llx\\n\", (u8)g%d.v); bad = 1; } }" % (T, nb, T, (sz * 8) // nb, i, i, i))
            elif kind == "nand":
                # x -> ~x, NT*IT times
                o.append("static void *t%d(void *a) { int i; (void)a; pthread_barrier_wait(&bar); for (i = 0; i < IT; i++) %s; return 0; }\n" % (i, ["__atomic_fetch_nand(%s, (%s)-1, %s)", "__atomic_nand_fetch(%s, (%s)-1, %s)", "__atomic_fetch_xor(%s, (%s)-1, %s)", "__atomic_xor_fetch(%s, (%s)-1, %s)"][slot] % (v, T, order)))
                chk.append("if (g%d.v != (%s)(NT * IT & 1 ? -1 : 0)) { printf(\"nand %d\\n\"); bad = 1; }" % (i, T, i))
            elif kind == "token":
                # values are only swapped: none is lost or doubled
                o.append("static %s left%d[NT]; static void *t%d(void *a) { int id = (int)(long)a, i; %s mine = (%s)(id + 1), r; pthread_barrier_wait(&bar); for (i = 0; i < IT; i++) { __atomic_exchange(%s, &mine, &r, %s); mine = r; } left%d[id] = mine; return 0; }\n" % (T, i, i, T, T, v, order, i))
                chk.append("{ int cnt[NT + 1], q; memset(cnt, 0, sizeof cnt); for (q = 0; q < NT; q++) if (left%d[q] <= NT) cnt[left%d[q]]++; if (g%d.v <= NT) cnt[g%d.v]++; for (q = 0; q <= NT; q++) if (cnt[q] != 1) { printf(\"token %d: %%d seen %%d times\\n\", q, cnt[q]); bad = 1; } }" % (i, i, i, i, i))
            elif kind in ("lock", "lockx"):
                acq = "while (__atomic_test_and_set(&l%d, %s)) sched_yield();" % (i, "__ATOMIC_ACQUIRE") if kind == "lock" else \
                    ["{ %s one = 1, old; do { __atomic_exchange(%s, &one, &old, 2); if (old) sched_yield(); } while (old); }" % (T, v), "{ %s z = 0, one = 1; while (!__atomic_compare_exchange(%s, &z, &one, 0, 2, 0)) { z = 0; sched_yield(); } }" % (T, v)][slot & 1]
                rel = "__atomic_clear(&l%d, 3);" % i if kind == "lock" else "{ %s z = 0; __atomic_store(%s, &z, 3); }" % (T, v)
                o.append("static bool l%d; static volatile long plain%d, twin%d; static void *t%d(void *a) { int i; (void)a; pthread_barrier_wait(&bar); for (i = 0; i < IT; i++) { %s plain%d = plain%d + 1; twin%d = twin%d + 1; if (plain%d != twin%d) return (void *)1; %s } return 0; }\n" % (i, i, i, i, acq, i, i, i, i, i, i, rel))
                chk.append("if (plain%d != (long)NT * IT) { printf(\"lock %d: %%ld\\n\", plain%d); bad = 1; }" % (i, i, i))
            elif kind == "pass":
                # one writer, the others see the data the flag announces
                o.append("static volatile int data%d[4]; static %s f%d; static void *t%d(void *a) { int id = (int)(long)a, i; pthread_barrier_wait(&bar);\n"
                         "if (!id) { for (i = 0; i < 100; i++) { %s x = (%s)(i + 1); data%d[0] = i + 1; data%d[1] = 2 * i + 2; __atomic_store(&f%d, &x, __ATOMIC_RELEASE); } }\n"
                         "else for (;;) { %s x; __atomic_load(&f%d, &x, __ATOMIC_ACQUIRE); if (data%d[0] < x || data%d[1] < 2 * x) return (void *)1; if (x == 100) break; sched_yield(); } return 0; }\n" % (i, T, i, i, T, T, i, i, i, T, i, i, i))
            else:
                # a stack of indices linked through compare-exchange
                o.append("static %s nx%d[NT * 24 + 1]; static void *t%d(void *a) { int id = (int)(long)a, i; pthread_barrier_wait(&bar); for (i = 0; i < 24; i++) { %s n = (%s)(1 + id * 24 + i), h; __atomic_load(%s, &h, 0); do nx%d[n] = h; while (!__atomic_compare_exchange(%s, &h, &n, %d, %s, 0)); } return 0; }\n" % (T, i, i, T, T, v, i, v, slot & 1, order))
                chk.append("{ int n = 0; unsigned h = (unsigned)g%d.v; while (h && n <= NT * 24) { n++; h = nx%d[h]; } if (n != NT * 24) { printf(\"push %d: %%d\\n\", n); bad = 1; } }" % (i, i, i))
            run.append("go(t%d, %d);" % (i, i))
        o.append("static int bad;\nstatic void go(void *(*f)(void *), int n) { pthread_t t[NT]; void *r; long i; for (i = 0; i < NT; i++) pthread_create(&t[i], 0, f, (void *)i); for (i = 0; i < NT; i++) { pthread_join(t[i], &r); if (r) { printf(\"test %d: thread %ld\\n\", n, i); bad = 1; } } }\n")
        o.append("int main(void) { setvbuf(stdout, 0, _IONBF, 0); pthread_barrier_init(&bar, 0, NT);\n%s\n%s\nprintf(bad ? \"BAD\\n\" : \"OK\\n\"); return bad; }\n" % ("\n".join(run), "\n".join(chk)))
        return "".join(o)

    def show(self, c):
        return self.source(c)

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        p = ctx.work.path("race.c")
        open(p, "w").write(self.source(c))
        r = proc.run([ctx.b.cjit, "-q", p], timeout=60, cwd=ctx.work.path())
        if r.rc == 0 and r.out == b"OK\n":
            return None
        return Fail("%s: exit status %s, output %s, stderr %s" % ([t[:4] for t in c["tests"]], "timeout" if r.timeout else r.rc, r.out.decode("latin-1")[:400], r.err.decode("latin-1")[:300]))


class C(Check):
    id = "C11"
    parts = [BitFns(), Conv(), Atomics(), Misc(), Race()]
    assumptions = ["gcc -O0 is the reference for atomics and the other built-ins; a difference counts only if gcc -O2, clang and the sanitizers agree with it",
                   "races are sampled, on 8 cores"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
