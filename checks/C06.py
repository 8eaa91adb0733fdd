"""C06: preprocessing against the system compilers' preprocessors."""
import os, re, shutil
from vf import build, cbatch, proc
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

TOK = re.compile(r'''\s+|(?:u8|[LuU])?"(?:\\.|[^"\\\n])*"|[LuU]?'(?:\\.|[^'\\\n])*'|[A-Za-z_$][\w$]*|\.?\d(?:[eEpP][+-]|[\w.])*'''
                 r'''|.''', re.S)      # -E need not keep punctuators apart: they are compared by character


def tokens(s):
    return [t for t in TOK.findall(s) if not t.isspace()]


# ---------------------------------------------------------------- macro expansion
class M:
    def __init__(self, name, params, variadic, named, paste):
        self.name, self.params, self.variadic, self.named, self.paste = name, params, variadic, named, paste
        self.comma = False                     # uses the GNU ", ## __VA_ARGS__"


class MacroGen:
    def __init__(self, d, n):
        self.d, self.n = d, n
        self.ms = []
        self.all = []
        self.ops = 0

    def ws(self):
        return self.d.pick([" "] * 12 + ["", "  ", "\t", " /* c */ ", "/**/ ", " \\\n "])

    def ident(self):
        return self.d.pick(["a", "b", "x1", "y_", "foo", "_z", "int", "if"])

    def number(self):
        return self.d.pick(["0", "1", "23", "4.5", "0x1f", "1e", "7u", ".5"])

    def other(self):
        return self.d.pick(["+", "-", "*", "<", "==", "->", "[", "]", ";", "{", "}", "&", "!", ".", "'c'", "\"s\"", "\"a\\\"b\"", "'\\\\'", "<<=", "++", ":", "?", "#" if False else "%", "..."])

    def arg(self, m, i, depth):
        """one argument of a call of m"""
        d = self.d
        if i == len(m.params) and m.comma:
            # GNU comma: an explicitly empty argument, or one that names the macro again, means different things to
            # different compilers and no documentation settles it
            return " ".join(d.pick([self.ident, self.number])() for _ in range(d.int(1, 3)))
        if i in m.paste:
            k = d.draw(6)
            return d.pick([self.ident(), self.number(), "", self.ident(), d.pick(self.ms).name if self.ms else "q", self.ident()])
        if d.draw(6) == 0:
            return ""
        return self.seq(depth - 1, d.int(1, 4), arg=True)

    def call(self, m, depth):
        d = self.d
        self.ops += 1
        if m.params is None:
            return m.name
        if d.draw(10) == 0:
            return m.name + d.pick(["", " ", " x", " ;"])      # not followed by a parenthesis
        n = len(m.params)
        args = [self.arg(m, i, depth) for i in range(n)]
        if m.variadic:
            args += [self.arg(m, n, depth) for _ in range(d.pick([0, 1, 1, 2, 3]))]
            if not n and m.comma and not args:
                args = [self.ident()]
        sep = lambda: d.pick([",", ", ", " , ", ",\n" if self.multiline else ", "])
        s = m.name + d.pick(["", "", "", " ", "\n" if self.multiline else " "]) + "("
        for i, a in enumerate(args):
            s += (sep() if i else "") + a
        return s + d.pick(["", "", " "]) + ")"

    multiline = True

    def seq(self, depth, n, arg=False):
        d = self.d
        out = []
        for _ in range(n):
            k = d.draw(14)
            if k < 3:
                out.append(self.ident())
            elif k == 3:
                out.append(self.number())
            elif k < 6:
                out.append(self.other())
            elif k < 10 and self.ms and depth > 0:
                out.append(self.call(d.pick(self.ms), depth - 1))
            elif k == 10 and self.ms:
                out.append(d.pick(self.ms).name)
            elif k == 11:
                out.append("(" + self.seq(depth - 1, d.draw(3)) + d.pick(["", ", " + self.ident()]) + ")")
            elif k == 12 and not arg:
                out.append(",")
            else:
                out.append(self.ident())
        return " ".join(out)

    def define(self, redo=None):
        d = self.d
        i = len(self.ms)
        name = redo.name if redo else "%s%d_%s" % (d.pick(["M", "f", "G"]), i, self.n)
        kind = d.draw(3)
        if kind == 0:
            m = M(name, None, False, None, set())
            self.all.append(m)
            body = self.body(m)
            txt = "#define %s %s" % (name, body)
        else:
            np = d.draw(4)
            variadic = d.draw(4) == 0
            named = "va" if variadic and d.draw(4) == 0 else None
            m = M(name, ["p", "q", "r"][:np], variadic, named, set())
            self.all.append(m)
            body = self.body(m)
            ps = list(m.params) + ([named + "..." if named else "..."] if variadic else [])
            txt = "#%sdefine%s%s(%s)%s%s" % (d.pick(["", "", " ", "  "]), d.pick([" ", "  ", "\t"]), name, d.pick([",", ", "]).join(ps), d.pick([" ", "  "]), body)
        if redo:
            self.ms[self.ms.index(redo)] = m
        else:
            self.ms.append(m)
        return txt

    def body(self, m):
        """a replacement list; records which parameters are pasted"""
        d = self.d
        ps = [] if m.params is None else list(enumerate(m.params))
        va = None
        if m.variadic:
            va = m.named or "__VA_ARGS__"
            ps.append((len(m.params), va))
        out = []
        for _ in range(d.int(0, 5)):
            k = d.draw(16)
            if k < 4 and ps:
                out.append(d.pick(ps)[1])
            elif k == 4 and ps:
                out.append("#" + d.pick(["", " "]) + d.pick(ps)[1])
            elif k < 7 and ps:
                i, p = d.pick(ps)
                if p == va:
                    if d.draw(2):
                        m.comma = True
                        out.append(", ## " + va)
                        continue
                    i, p = ps[0]
                    if p == va:
                        out.append(p)
                        continue
                m.paste.add(i)
                j = d.draw(5)
                j2, p2 = d.pick(ps)
                glue = d.pick([" ## ", "##", " ##"])
                if j == 0:
                    out.append("k" + glue + p)
                elif j == 1:
                    out.append(p + glue + d.pick(["_t", "7", "e1"]))
                elif j == 2 and p2 != va:
                    m.paste.add(j2)
                    out.append("k" + glue + p + glue + p2)
                elif j == 3:
                    out.append(d.pick(["M", "f", "G"]) + glue + p + glue + "_%s" % self.n)
                else:
                    out.append("z" + glue + p + glue + "9" + d.pick(["", " " + p]))
            elif k == 7:
                out.append(d.pick(["< ## <", "k ## 1", "a ## b ## c", "+ ## +", "- ## >", "x ## 2 ## y", "L ## 'a'", "L ## \"s\"", "M ## 0_%s" % self.n, "f ## 1_%s" % self.n]))
            elif k == 8 and m.params is None:
                out.append(d.pick(["# x", "#", "# # y"]))
            elif k == 9:
                out.append(m.name)                         # recursion
            elif k < 13 and self.ms:
                t = d.pick(self.ms)
                if t.params is None or d.draw(3) == 0:
                    out.append(t.name)
                else:
                    args = []
                    for i in range(len(t.params) + (1 if t.variadic else 0)):
                        if i in t.paste or not ps or i == len(t.params) and t.comma:
                            args.append(d.pick(["a", "1", "b"] if i == len(t.params) else ["a", "1", "", "b"]))
                        else:
                            args.append(d.pick([d.pick(ps)[1], "(" + d.pick(ps)[1] + ")", "c", d.pick(ps)[1] + " + 1"]))
                    if t.variadic and t.params and d.draw(4) == 0:
                        args = args[:-1]
                    out.append("%s(%s)" % (t.name, ", ".join(args)))
            else:
                out.append(d.pick([self.ident(), self.number(), self.other(), "(", ")", ","]) if d.draw(3) == 0 else self.ident())
        # parentheses must balance for the text around to make sense most of the time
        return self.ws().join([""] + out).strip() if out else ""


class Batch(Prop):
    """units in one file, both preprocessors' output cut at the unit markers"""
    batch = 40
    args = ["-E", "-P"]

    def text(self, units, idx):
        out = []
        for i, u in zip(idx, units):
            out.append("@unit %d@" % i)
            out.append(u["text"].replace("@@", str(i)))
        out.append("@unit end@\n")
        return "\n".join(out)

    def cut(self, s):
        res = {}
        parts = re.split(r"@\s*unit\s+(\w+)\s*@", s)
        for i in range(1, len(parts) - 1, 2):
            res[parts[i]] = tokens(parts[i + 1])
        if len(parts) > 1 and parts[-2] != "end":
            res.pop(parts[-2], None)
        return res

    def pp(self, ctx, cmd, text):
        src = ctx.work.path(self.name + ".c")
        with open(src, "w", encoding="latin-1") as f:
            f.write(text)
        r = proc.run(cmd + self.args + [src], timeout=20, cwd=ctx.work.path())
        return r, self.cut(r.out.decode("latin-1"))

    def ref(self, ctx, units, idx, cc="gcc"):
        text = self.text(units, idx)
        r, out = self.pp(ctx, [cc, "-std=gnu11", "-w"], text)
        if r.rc:
            err = r.err.decode("latin-1")
            cur, where = None, []
            for line in text.split("\n"):
                m = re.match(r"@unit (\w+)@", line)
                cur = m.group(1) if m else cur
                where.append(cur)
            lines = [int(x) for x in re.findall(r"\.c:(\d+):\d+: (?:fatal )?error", err)]
            bad = {where[x - 1] for x in lines if 0 < x <= len(where)}
            if not bad or "fatal" in err:
                return {}
            for b in bad:
                out.pop(b, None)
            # an unterminated invocation swallows what follows
            if "unterminated" in err:
                first = min(x for x in lines if 0 < x <= len(where))
                seen = set()
                for x in where[:first - 1]:
                    seen.add(x)
                for k in list(out):
                    if k not in seen or k in bad:
                        out.pop(k)
        return out

    def run(self, cases, ctx):
        idx = list(range(len(cases)))
        exp = self.ref(ctx, cases, idx)
        r, got = self.pp(ctx, [ctx.b.tcc, "-w", "-B" + ctx.b.tccdir], self.text(cases, idx))
        out, n = [], 0
        for i, c in enumerate(cases):
            e = exp.get(str(i))
            if e is not None and got.get(str(i)) == e:
                out.append(None)
            elif e is None and len(exp) > len(cases) // 2:
                out.append(Discard())
            elif n > 12:
                out.append(None)
            else:
                n += 1
                out.append(self.confirm(c, ctx))
        return out

    def confirm(self, c, ctx):
        exp = self.ref(ctx, [c], [0]).get("0")
        if exp is None:
            return Discard()
        r, got = self.pp(ctx, [ctx.b.tcc, "-w", "-B" + ctx.b.tccdir], self.text([c], [0]))
        got = got.get("0")
        if got == exp and r.rc == 0:
            return None
        if self.ref(ctx, [c], [0], "clang").get("0") != exp:
            return Discard()
        if self.unspecified(c, exp, got):
            return Discard()
        return Fail("exit status %s: expected [%s], got [%s]; stderr: %s" % (r.rc, " ".join(exp), " ".join(got or ["-"]), r.err.decode("latin-1")[:400]))

    def unspecified(self, c, exp, got):
        return False

    def show(self, c):
        return c["text"]


class Expand(Batch):
    name = "expand"
    rule = ("sets of object-like, function-like and variadic macros with #, ##, empty arguments, recursion, redefinition and #undef, used in text with nested and multi-line calls; the "
            "token sequence is compared with gcc -E and, on a difference, clang -E; non-trivial = at least 3 macro calls")
    quick_n, quick_secs = 60000, 30
    thorough_n, thorough_secs = 900000, 300

    def gen(self, d):
        g = MacroGen(d, "@@")
        lines = []
        for _ in range(d.int(1, 6)):
            lines.append(g.define())
        for _ in range(d.int(1, 5)):
            k = d.draw(10)
            if k == 0 and g.ms:
                m = d.pick(g.ms)
                lines.append("#undef " + m.name)
                lines.append(g.define(redo=m))
            elif k == 1:
                lines.append(g.define())
            elif k == 2:
                lines.append(d.pick(["#", "# ", "/* c */ # /* d */", "#pragma once_not", "# /* x */"]) if d.draw(2) else "#ifdef M0_@@\nyes\n#else\nno\n#endif")
            else:
                lines.append(g.seq(3, d.int(1, 5)))
        return {"text": "\n".join(lines), "ops": g.ops, "comma": [m.name for m in g.all if m.comma]}

    def unspecified(self, c, exp, got):
        # the argument of a GNU ", ##" that names the macro again: left alone by gcc and clang, expanded by tcc, and
        # settled by no documentation
        names = {n.replace("@@", "0") for n in c["comma"]}
        if any(a in names and b == "(" for a, b in zip(exp, exp[1:])):
            return True
        flat = lambda ts, drop: re.sub("[%s]" % drop, "", "".join(ts or []))
        # whether an explicitly empty variable argument keeps that comma, and the white space around it in a string
        if names and flat(exp, " ,") == flat(got, " ,"):
            return True
        # -E running a number into the punctuator after it
        return flat(exp, " ") == flat(got, " ") and any(re.match(r"\.?\d", a) and b in ".+-" or a == "." and b[0].isdigit() for a, b in zip(exp, exp[1:]))

    def nontrivial(self, c, d):
        return c["ops"] >= 3



# ---------------------------------------------------------------- lexing, seen by running the program
class Program(cbatch.UnitProp):
    name = "program"
    prelude = cbatch.PRELUDE + r"""
static void D_(const void *p, unsigned long n) { const unsigned char *q = p; P(n); while (n--) P(*q++); }
"""
    ref_flags = ["-finput-charset=UTF-8"]
    rule = ("statement sequences whose output depends on the translation phases: exact stringising of raw and expanded arguments, escapes in narrow, wide and concatenated literals, __LINE__ across splices, "
            "comments and multi-line calls, #line, __COUNTER__, push/pop_macro, redefinition and nested conditionals with ill-formed skipped groups, LF or CRLF line ends; compared with gcc's program; "
            "non-trivial = at least 3 such observations")
    quick_n, quick_secs = 30000, 40
    thorough_n, thorough_secs = 300000, 240

    def esc(self, d, wide=False):
        k = d.draw(12)
        if k < 3:
            return d.pick(["a", "Z", "0", "~", " ", "%d", "/", "//", "/*", "*/", "?", "#", "@", "$", "a0", "f", "\\?"]).replace("@", "=")
        if k == 3:
            return d.pick(["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\r", "\\v", "\\f", "\\a", "\\b", "\\e"])
        if k == 4:
            return "\\" + d.pick(["0", "7", "1", "12", "177", "200", "377", "000", "0012", "08", "18", "1234"])
        if k == 5:
            return "\\x" + d.pick(["0", "7f", "80", "ff", "0ff", "00041", "a", "A"]) + d.pick(["g", " ", "", "\\x1", "\\1"])
        if k == 6:
            return d.pick(["\\u00e9", "\\u20ac", "\\U0001F600", "\\u0100"])
        if k == 7:
            return d.pick(["é", "€", "😀", "ß"])
        if k == 8:
            return "\\\n"
        return d.pick(["b", "c1", "_", "9", "'"])

    def lit(self, d, wide):
        return ("L" if wide else "") + '"' + "".join(self.esc(d, wide) for _ in range(d.int(0, 5))) + '"'

    def charc(self, d):
        if d.draw(5) == 0:
            return "'" + d.pick(["ab", "abc", "abcd", "a\\n", "\\0a", "\\x7f\\0"]) + "'"
        if d.draw(4) == 0:
            return "L'" + d.pick(["a", "é", "€", "\\u20ac", "\\xff", "\\x12345", "\\377", "\\n", "\\U0001F600", "\""]) + "'"
        return "'" + d.pick(["a", "\\n", "\\'", "\\\"", "\"", "\\\\", "\\0", "\\x80", "\\xff", "\\377", "\\7", "\\18"[:2], "\\x7f", "\\e", "\\?", "?", "/", "#", " "]) + "'"

    def raw(self, d, n, depth=2):
        """tokens to stringise"""
        out = []
        for _ in range(n):
            k = d.draw(14)
            if k < 3:
                out.append(d.pick(["a", "x_1", "Q_@", "F_@", "if", "u", "L", "E0_@"]))
            elif k == 3:
                out.append(d.pick(["1", "0x1e", "1.5e", "1e+", ".5f", "0b1", "1..2", "3uLL", "0xE+1"]))
            elif k == 4:
                out.append(self.lit(d, d.draw(4) == 0))
            elif k == 5:
                out.append(self.charc(d))
            elif k < 9:
                out.append(d.pick(["+", "-", "->", "<<=", "...", "==", "##", "#", "&&", "%", "<", ">=", "++", ":", "?", ";", "{", "]", ".", "~", "!", "@@", "`", "$x"]).replace("@@", "="))
            elif k == 9 and depth:
                out.append("(" + self.raw(d, d.int(0, 2), depth - 1) + d.pick(["", ",", " , "]) + self.raw(d, d.int(0, 1), depth - 1) + ")")
            elif k == 10:
                out.append("F_@(%s)" % self.raw(d, d.int(0, 2), depth - 1) if depth else "F_@")
            else:
                out.append(d.pick(["b", "y", "z9"]))
        s = ""
        for i, t in enumerate(out):
            if t[:1] == "#":                       # could start a line
                s += (" " if i else "0 ") + t
                continue
            s += (d.pick([" ", " ", " ", "  ", "\t", "", "/**/", " /* ' \" , ) */ ", "\n", " \\\n", " // , ) \" x\n", "\\\n"]) if i else "") + t
        return s

    def obs(self, d, st):
        """one observation: text of a statement"""
        k = d.draw(18)
        st["n"] += 1
        if k < 4:
            m = d.pick(["S_@", "S_@", "V_@", "X_@"])
            pad = d.pick(["", " ", "\n", "  ", "/* c */"])
            arg = self.raw(d, d.int(0, 5))
            if m != "V_@" and "," in arg:
                m = {"S_@": "V_@", "X_@": "W_@"}[m]
            return "S_(%s%s(%s%s%s));" % (m, d.pick(["", " ", "\n"]), pad, arg, d.pick(["", " ", "\n"]))
        if k < 7:
            w = d.draw(4) == 0
            ls = [self.lit(d, w) for _ in range(d.int(1, 3))]
            if w and d.chance(1, 3):       # a wide literal followed by narrow ones (7-bit characters) is wide
                ls += ['"%s"' % "".join(d.pick(["a", "Z", "0", " ", "\\n", "\\0", "\\177", "\\012", "%%", "9", "\\\\", "\\\""]) for _ in range(d.int(0, 4))) for _ in range(d.int(1, 2))]
            return "D_(%s, sizeof(%s));" % ((d.pick([" ", "", "\n", " /* \" */ ", "\\\n "]).join(ls),) * 2)
        if k == 7:
            return "P(%s); P(K_(%s)); P(sizeof(%s));" % ((self.charc(d),) * 3)
        if k < 10:
            return d.pick(["P(__LINE__);", "P(__LINE__\n); P(__LINE__);", "/* a\nb */ P(__LINE__);", "P(F_@(1)); // x \\\n y\nP(__LINE__);",
                           "D_(\"a\\\nb\", 3); P(__LINE__);", "#\nP(__LINE__);", "#define Y_@ \\\n 1 \\\n\nP(__LINE__);", "P(L_@);", "S_(S_@(a\n\n\nb)); P(__LINE__);"])
        if k == 10:
            n = d.pick(["1", "7", "100", "65536", "99999", "2147483000", "00012", "N_@"])
            return "\n#line %s%s\nS_(__FILE__); P(__LINE__); S_(F_@(__FILE__));" % (n, d.pick(["", "", ' "x.c"', ' "a b/c.h"', ' T_@'])) if d.draw(3) else "\n# %d \"%s\"%s\nS_(__FILE__); P(__LINE__);" % (d.int(1, 500), d.pick(["q.c", "r/s.h"]), d.pick(["", " 3"]))
        if k == 11:
            return "P(__COUNTER__ - C_@); P(__COUNTER__ - C_@);" if d.draw(2) else "P(J_@(x, __COUNTER__) - x0_@ > 0);".replace("J_@(x, __COUNTER__) - x0_@ > 0", "H_@(__COUNTER__)")
        if k < 14:
            m = d.pick(["Q_@", "R_@"])
            j = d.draw(6)
            body = d.pick(["1", "(2 + 3)", "Q_@" if m == "R_@" else "R_@", ""])
            if j == 0:
                st["push"].append(m)
                s = "#pragma push_macro(\"%s\")" % m
            elif j == 1 and st["push"]:
                s = "#pragma pop_macro(\"%s\")" % st["push"].pop()
            elif j == 2:
                s = "#undef %s" % m
            else:
                s = "#undef %s\n#define %s %s" % (m, m, body)
            return "\n%s\nS_(X_@(Q_@ R_@));" % s
        if k == 14:
            return "S_(X_@(%s));" % d.pick(["Q_@", "R_@ Q_@", "F_@(Q_@)", "F_@ (F_@) (R_@)", "E0_@ E0_@", "F_@(E0_@(1))", "__LINE__", "-Q_@-R_@", "F_@(#)", "F_@(\"\\\"\")", "E0_@ F_@(E0_@) E0_@"])
        if k == 15:
            return "S_(V_@(%s));" % d.pick(["a,b", "a , b", " a,\tb ", ",", "(a,b),c", "'\"', '\\''", "\"\\\\\", \"a,b\"", "a /* , */ b", "", " ", "F_@(a,b)", "\\n", "a \\\\ b", "L\"x\\n\" L'\\n'", "[a,b]"])
        return self.cond(d, st, 2)

    def junk(self, d):
        return d.pick(["it's", "\"unterminated", "' \" '", "#error no", "#line x", "#include <nowhere.h>", "#unknown", "#define", "#undef", "@@ `".replace("@", "="), "1.2.3e+x", "/* c\n#else\n*/", "// #endif \\\n#endif", "#if", "#ifdef",
                       "#pragma", "\\", "} ) {", "#include", "0x", "#elif_ 1", "# 1 \"x", "\"\\\n#endif\""])

    def cond(self, d, st, depth):
        """a conditional group; the taken branch observes something"""
        c = lambda: d.pick(["1", "0", "defined Q_@", "defined(R_@)", "!defined Q_@ || 0", "NOT_@", "!NOT_@", "Q_@ - 0 == 1", "1 ? 0 : 1/0", "0 && 1/0", "1 || 1/0", "'a' == 97", "__LINE__ > 0", "(1,2) == 2" if d.draw(9) == 0 else "2 > 1",
                            "defined F_@ && F_@(1)", "\\\n1", "1 /* \n */ + 0", "- 1 > 0u", "(-1)/2 == 0", "~0 == 0xffffffffffffffff"])
        first = d.pick(["#if %s" % c(), "#ifdef %s" % d.pick(["Q_@", "NOT_@", "F_@"]), "#ifndef %s" % d.pick(["Q_@", "NOT_@", "R_@ /* x */"]), "#if %s // c" % c()])
        groups = [first]
        for _ in range(d.draw(3)):
            groups.append("#elif %s" % c())
        if d.draw(2):
            groups.append(d.pick(["#else", "#else // x", "# else /* y */"]))
        out = []
        for i, g in enumerate(groups):
            out.append(g)
            for _ in range(d.draw(3)):
                if depth and d.draw(3) == 0:
                    out.append(self.cond(d, st, depth - 1))
                else:
                    out.append("P(%d);" % d.draw(100) if d.draw(3) else self.simple(d))
        out.append(d.pick(["#endif", "#endif", "# endif // x", "#endif /* */"]))
        return "\n" + "\n".join(out) + "\n"

    def simple(self, d):
        return d.pick(["S_(X_@(Q_@));", "P(__LINE__);", "#undef Q_@", "#define NOT_@ 0", "#undef Q_@\n#define Q_@ 1"])

    def skipped(self, d, st, depth=2):
        """groups that must be skipped whatever they contain"""
        out = [d.pick(["#if 0", "#ifdef NEVER_@", "#if NEVER_@"])]
        for _ in range(d.int(1, 4)):
            k = d.draw(6)
            if k == 0 and depth:
                out.append("%s\n%s\n%s\n#endif" % (d.pick(["#if 1", "#ifdef", "#ifndef Q_@", "#if (", "#if 1 +"]), self.junk2(d), d.pick(["#else", "#elif 1", "#elif ("])))
            else:
                out.append(self.junk2(d))
        out.append(d.pick(["#else\nP(__LINE__);\n#endif", "#elif 1\nP(__LINE__);\n#else\n%s\n#endif" % self.junk2(d), "#endif", "#elif defined Q_@\nP(4);\n#elif !defined Q_@\nP(5);\n#else\n#error\n#endif"]))
        return "\n" + "\n".join(out) + "\nP(__LINE__);\n"

    def junk2(self, d):
        while True:
            j = self.junk(d)
            if j not in ("#if", "#ifdef"):
                return j

    def gen(self, d):
        st = {"n": 0, "push": []}
        top = ("#define S_@(x) #x\n#define V_@(...) #__VA_ARGS__\n#define X_@(x) S_@(x)\n#define W_@(...) V_@(__VA_ARGS__)\n#define F_@(x) [x]\n#define Q_@ 1\n#define R_@ Q_@ + 1\n#define E0_@\n"
               "#define N_@ 42\n#define T_@ \"t.c\"\n#define L_@ __LINE__\n#define H_@(x) ((x) >= 0)\nenum { C_@ = __COUNTER__ };")
        body = []
        for _ in range(d.int(1, 6)):
            body.append(self.skipped(d, st) if d.chance(1, 8) else self.obs(d, st))
        text = "\n".join(body)
        # F_@ expands to brackets: not for expressions
        text = text.replace("P(F_@(1));", "P(H_@(1));").replace("S_(F_@(__FILE__));", "S_(X_@(F_@(__FILE__)));").replace("F_@ && F_@(1)", "H_@ && H_@(1)")
        # leave the unit with line numbers that only it changed
        text = "\n#line 1000 \"u.c\"\n" + text + "\n#line 1 \"end.c\"\n"
        if d.chance(1, 6):
            text = text.replace("\n", "\r\n")
        # files are written byte for byte
        text = text.encode("utf-8").decode("latin-1")
        return {"top": top, "body": text, "expect": None, "ops": st["n"]}

    def nontrivial(self, c, d):
        return c["ops"] >= 3

    def command(self, ctx, src):
        return [ctx.b.cjit, "-q", os.path.basename(src)]


# ---------------------------------------------------------------- #include
DIRS = ["s", "d0", "d1", "d2", "d1/sub", "s/sub"]
NAMES = ["a.h", "b.h", "c.h", "e.h"]


class Include(Prop):
    name = "include"
    rule = ("trees of headers with the same names in several directories, included by \"\", <>, #include_next, computed names and relative paths, with -I and -isystem orders, guards (well and ill formed, "
            "undefined again, shared, set beforehand), #pragma once, __has_include and conditionals split over files; tokens with their __FILE__ and __LINE__ compared with gcc -E; "
            "non-trivial = at least 4 #include directives in the tree")
    quick_n, quick_secs = 6000, 30
    thorough_n, thorough_secs = 60000, 200
    batch = 8
    shrink_evals = 400

    def gen(self, d):
        files = {}
        paths = [dd + "/" + n for dd in DIRS for n in NAMES]
        chosen = [p for p in paths if p.startswith("d0/") or d.draw(3) > 0]
        guards = {}
        for p in chosen:
            guards[p] = d.pick(["guard", "guard", "guard2", "once", "none", "none", "else", "after", "before", "defined", "shared", "undef", "wrapped"])
        for p in chosen + ["s/main.c"]:
            files[p] = self.file(d, p, chosen, guards)
        opts = []
        for dd in d.shuffle(list(DIRS[1:5])):
            if d.draw(4) or dd == "d0":
                opts.append([d.pick(["-I", "-I", "-I", "-isystem"]), d.pick([dd, dd, dd + "/", "./" + dd, "d0/../" + dd])])
        if d.draw(3) == 0:
            opts.append(["-D", d.pick(["G_a=1", "X0=1", "W=2", "G_shared"])])
        if d.draw(6) == 0:
            opts.append(["-U", "W"])
        if d.draw(6) == 0:
            opts.append(["-include", d.pick(["d0/a.h", "d0/b.h", "d0/../d0/c.h"])])
        return {"files": [[k, v] for k, v in sorted(files.items())], "opts": opts}

    def file(self, d, p, chosen, guards):
        base = p.replace("/", "_").replace(".", "_")
        name = p.split("/")[-1]
        rank = NAMES.index(name) if name in NAMES else -1
        how = guards.get(p, "none")
        lines = []
        for j in range(d.int(1, 5) if name in NAMES else d.int(3, 9)):
            lines.append(self.line(d, p, base, j, rank, how))
        body = "\n".join(lines)
        G = "G_" + base
        if how == "guard":
            return "#ifndef %s\n#define %s\n%s\n#endif%s" % (G, G, body, d.pick(["\n", "", " // x\n", "\n\n/* end */\n", " /* x\n */"]))
        if how == "guard2":
            return "%s# ifndef %s%s\n#define %s 1\n%s\n#endif\n" % (d.pick(["/* c\n */ ", "// c\n", "\n\n", ""]), G, d.pick(["", " // x", " /* */"]), G, body)
        if how == "defined":
            return "#if !defined%s\n#define %s\n%s\n#endif\n" % (d.pick(["(%s)" % G, " %s" % G, "( %s )" % G]), G, body)
        if how == "once":
            return "#pragma once\n%s\n" % body
        if how == "else":
            return "#ifndef %s\n#define %s\n%s\n#%s\nagain_%s __LINE__\n#endif\n" % (G, G, body, d.pick(["else", "elif 1", "elif defined W"]), base)
        if how == "after":
            return "#ifndef %s\n#define %s\n%s\n#endif\n%s\n" % (G, G, body, d.pick(["tail_%s __LINE__" % base, "#ifdef W\ntail_%s\n#endif" % base, "#define X0 tail_%s" % base, "#ifndef W\ntail2_%s\n#endif" % base]))
        if how == "before":
            return "%s\n#ifndef %s\n#define %s\n%s\n#endif\n" % (d.pick(["head_%s" % base, "#ifdef W\n#endif", "#undef X0\n#define X0 head_%s" % base, "X0"]), G, G, body)
        if how == "shared":
            return "#ifndef G_shared\n#define G_shared\n%s\n#endif\n" % body
        if how == "undef":
            return "#ifndef %s\n#define %s\n%s\n#endif\n" % (G, G, "\n".join(l for l in lines if "include" not in l)) + ""
        if how == "wrapped":
            return "#ifndef %s\n#define %s\n#ifdef W\n%s\n#else\nw_%s\n#endif\n#endif\n" % (G, G, body, base)
        return body + "\n"

    def line(self, d, p, base, j, rank, how):
        k = d.draw(16)
        safe = how in ("guard", "guard2", "once", "defined")
        names = [n for i, n in enumerate(NAMES) if i > rank or safe]
        if k < 3 or not names and k < 12:
            return d.pick(["t_%s_%d" % (base, j), "t_%s_%d __LINE__" % (base, j), "f_%d __FILE__" % j, "X0 X1 W", "/* c\n*/ l __LINE__"])
        if k < 8:
            n = d.pick(names)
            rel = d.pick(["", "", "", "sub/", "../d1/", "../d0/", "./", "../s/", "d2/"])
            form = d.pick(['"%s"', '"%s"', '"%s"', "<%s>", "<%s>"]) % (rel + n)
            j2 = d.draw(8) if rel in ("", "./") else d.pick([2, 4])
            if rel == "./" and "<" in form:
                form = '"%s"' % n
            if rel == "./":
                j2 = 4
            if j2 == 0 and '"' in form:
                return "#define H%d %s\n#include H%d" % (j, form, j)
            if j2 == 1:
                return "#define H%d %s\n# include H%d // x" % (j, form, j)
            if j2 == 2:
                return "#if __has_include(%s)\nhas\n#include %s\n#else\nhasnot\n#endif" % (form, form)
            if j2 == 3:
                return "#include /* c */ %s // y" % form
            if j2 > 5:
                return "#include %s" % form
            return "#if __has_include(%s)\n#%sinclude%s%s\n#endif" % (form, d.pick(["", " "]), d.pick([" ", "", "\t"]), form)
        if k < 10 and rank >= 0:
            n = NAMES[rank]
            f = d.pick(['"%s"', "<%s>"]) % n
            return "#if __has_include_next(%s)\nnext_%d\n#include_next %s\n#endif" % (f, j, f)
        if k < 12:
            g = d.pick(["s", "d0", "d1", "d2"])
            return d.pick(["#undef G_%s_%s_h", "#define G_%s_%s_h", "#undef G_%s_%s_h"]) % (g, d.pick("abce"))
        if k == 12:
            return d.pick(["#undef G_shared", "#define W 1", "#undef W", "#ifdef W\nw\n#else\nnw\n#endif", "#undef X0\n#define X0 x_%s __LINE__" % base, "#define X1 X0 __FILE__"])
        if k == 13 and names and rank >= 0 and how != "once":
            n = d.pick(names)
            return "#include \"%s\"" % n if d.draw(2) else "#if %s\n#include <%s>\n#endif" % (d.pick(["0", "defined W", "W+0"]), n)
        if k == 14 and names:
            n = d.pick(names)
            return "#if __has_include(\"%s\")\n#include \"%s\"\n#include \"%s\"\n#endif" % (n, n, n)
        return "t_%s_%d" % (base, j)

    def nontrivial(self, c, d):
        return sum(v.count("#include") + v.count("# include") for k, v in c["files"]) >= 4

    def out(self, ctx, cmd, c, root):
        r = proc.run(cmd + [x for o in c["opts"] for x in o] + ["s/main.c"], timeout=10, cwd=root)
        return r

    def norm(self, toks):
        res = []
        for t in toks:
            if t.startswith('"'):
                t = '"' + os.path.normpath(t[1:-1]) + '"'
            res.append(t)
        return res

    def run1(self, c, ctx):
        root = ctx.work.path("tree")
        shutil.rmtree(root, ignore_errors=True)
        for dd in DIRS:
            os.makedirs(os.path.join(root, dd))
        for k, v in c["files"]:
            with open(os.path.join(root, k), "w") as f:
                f.write(v)
        ref = self.out(ctx, ["gcc", "-E", "-P", "-std=gnu11", "-w", "-nostdinc"], c, root)
        if ref.timeout or len(ref.out) > 200000:
            return Discard()
        r = self.out(ctx, [ctx.b.tcc, "-E", "-P", "-w", "-nostdinc", "-B" + ctx.b.tccdir], c, root)
        if ref.rc:
            return Discard()
        e, g = self.norm(tokens(ref.out.decode("latin-1"))), self.norm(tokens(r.out.decode("latin-1")))
        if r.rc == 0 and e == g:
            return None
        r2 = self.out(ctx, ["clang", "-E", "-P", "-std=gnu11", "-w", "-nostdinc"], c, root)
        if r2.rc or self.norm(tokens(r2.out.decode("latin-1"))) != e:
            return Discard()
        return Fail("%s s/main.c: exit status %s, expected [%s], got [%s]; stderr: %s" % (" ".join(x for o in c["opts"] for x in o), r.rc, " ".join(e)[:1500], " ".join(g)[:1500], r.err.decode("latin-1")[:400]))

    def run(self, cases, ctx):
        return [self.run1(c, ctx) for c in cases]

    def show(self, c):
        return "options: %s\n" % c["opts"] + "".join("==> %s\n%s\n" % (k, v) for k, v in c["files"])


class Diag(Prop):
    name = "diag"
    rule = ("the same sources split over a file and two headers, with one error planted anywhere: the file and line cjit attributes it to, and the files and lines it says it was included from, against gcc's; "
            "non-trivial = at least 3 observations before the error")
    quick_n, quick_secs = 6000, 30
    thorough_n, thorough_secs = 60000, 150
    batch = 16

    def gen(self, d):
        g = Program()
        st = {"n": 0, "push": []}
        def block(n):
            out = []
            for _ in range(n):
                out.append(g.skipped(d, st) if d.chance(1, 6) else g.obs(d, st))
            return out
        err = d.pick(["int v_ = nope_name;", "#error nope_name", "{ nope_name; }", "#include \"nope_name.h\"", "P(1) nope_name;", "nope_name = 1; /* x\n */", "#ifdef Q_@\n#error nope_name\n#else\n#error nope_name\n#endif", "P(nope_name); // \\\n"])
        where = d.draw(3)
        texts = []
        for lvl in range(3):
            b = block(d.int(0, 3))
            if lvl < 2:
                b += [d.pick(["#include \"h%d.h\"", "#include \"h%d.h\" // x", "# include /* a\n */ \"h%d.h\"", "#define HH \"h%d.h\"\n#include HH"]) % lvl]
                if lvl == 0:
                    b[-1] = "\n#line 200 \"main.c\"\n" * d.draw(2) + b[-1]
            if where == lvl:
                b += block(d.int(0, 2)) + [err]
            b += block(d.int(0, 1))
            t = "\n".join(b).replace("@", "0")
            t = t.replace("P(F_0(1));", "P(H_0(1));").replace("S_(F_0(__FILE__));", "S_(X_0(F_0(__FILE__)));").replace("F_0 && F_0(1)", "H_0 && H_0(1)") + "\n"
            if d.chance(1, 8):
                t = t.replace("\n", "\r\n")
            texts.append(t.encode("utf-8").decode("latin-1"))
        return {"t": texts, "ops": st["n"]}

    def nontrivial(self, c, d):
        return c["ops"] >= 3

    def where(self, err):
        """([(file, line) included from, innermost first], (file, line) of the error)"""
        chain, last = [], False
        for line in err.decode("latin-1").split("\n"):
            m = re.match(r"(?:In file included from|\s+from) (.*?):(\d+)(?::\d+)?[:,]", line)
            if m:
                chain = (chain if last else []) + [(m.group(1), int(m.group(2)))]
                last = True
                continue
            last = False
            if ": warning: " in line:
                chain = []
            m = re.match(r"(.*?):(\d+)(?::\d+)?: (?:fatal )?error: (.*)", line)
            if m:
                return sorted(chain), (m.group(1), int(m.group(2))), "nope_name" in m.group(3)
        return None

    def run1(self, c, ctx):
        top = "#define S_@(x) #x\n#define V_@(...) #__VA_ARGS__\n#define X_@(x) S_@(x)\n#define W_@(...) V_@(__VA_ARGS__)\n#define F_@(x) [x]\n#define Q_@ 1\n#define R_@ Q_@ + 1\n#define E0_@\n#define N_@ 42\n#define T_@ \"t.c\"\n#define L_@ __LINE__\n#define H_@(x) ((x) >= 0)\nenum { C_@ = __COUNTER__ };\n".replace("@", "0")
        with open(ctx.work.path("main.c"), "w", encoding="latin-1") as f:
            f.write(Program.prelude + top + "int main(void) {\n" + c["t"][0] + "\n}\n")
        for i in (0, 1):
            with open(ctx.work.path("h%d.h" % i), "w", encoding="latin-1") as f:
                f.write(c["t"][i + 1])
        cwd = ctx.work.path()
        ref = proc.run(["gcc", "-std=gnu11", "-w", "-fsyntax-only", "main.c"], timeout=20, cwd=cwd)
        e = self.where(ref.err)
        if e is None or not e[2]:
            if os.environ.get("VF_DEBUG"):
                print("DISCARD", e, ref.err[:300])
            return Discard()
        chain = not any(re.search(r"^\s*#\s*(line|\d)", t, re.M) for t in c["t"])
        r = proc.run([ctx.b.cjit, "-q", "main.c"], timeout=20, cwd=cwd)
        g = self.where(r.err)
        if g is not None and (g[0] == e[0] or not chain) and g[1] == e[1] and r.rc:
            return None
        r2 = proc.run(["clang", "-std=gnu11", "-w", "-fsyntax-only", "main.c"], timeout=20, cwd=cwd)
        e2 = self.where(r2.err)
        if e2 is None or e2[1] != e[1]:
            return Discard()
        return Fail("gcc: %s; cjit: exit status %s, %s; stderr: %s" % (e, r.rc, g, r.err.decode("latin-1")[:600]))

    def run(self, cases, ctx):
        return [self.run1(c, ctx) for c in cases]

    def show(self, c):
        return "".join("==> %s\n%s\n" % kv for kv in zip(("main.c", "h0.h", "h1.h"), c["t"]))


class C(Check):
    id = "C06"
    parts = [Expand(), Program(), Include(), Diag()]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)


CHECK = C()
