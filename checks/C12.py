"""C12: a program with an error is diagnosed, never executed, and reported as failed."""
import os, re, shutil
from vf import build, proc
from vf.cbatch import Work
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

# $ = a number; one line each, so that the line of the error is known.  Both gcc and clang refuse each of them.
STMT = [
    "undeclared_$ = 1; (void)0;", "int a$ = undeclared_$; (void)a$;", "(void)(1 + ); (void)0;", "(void)((1 + 2); (void)0;", "int b$ = 3 (void)b$;", "1 = 2; (void)0;",
    "(1 + 2)++; (void)0;", "&3; (void)0;", "int x$; *x$ = 1; (void)0;", "int x$; x$.m = 1; (void)0;", "int x$; x$->m = 1; (void)0;", "struct s0 v$; v$.nomember_$ = 1; (void)0;",
    "struct s0 v$; v$ = 1; (void)0;", "struct s0 v$; int y$ = v$; (void)y$;", "struct s0 v$; (void)(v$ + 1); (void)0;", "struct s0 v$; if (v$) {} (void)0;",
    "struct inc$ v$; (void)0;", "break_me_$: ; break_me_$: ; (void)0;", "break; (void)0;", "continue; (void)0;", "case 3: ; (void)0;", "default: ; (void)0;",
    "switch (1) { case 1: ; case 1: ; } (void)0;", "switch (1) { default: ; default: ; } (void)0;", "switch (1) { case 1 ... 3: ; case 2: ; } (void)0;",
    "fn0(1); (void)0;", "fn0(1, 2, 3); (void)0;", "fn0(1, v_struct); (void)0;", "int x$; x$(); (void)0;", "int x$; int x$; (void)0;", "int x$; long x$; (void)0;", "int x$[-1]; (void)0;",
    "void x$; (void)0;", "void x$[2]; (void)0;", "_Static_assert(0, \"no\"); (void)0;", "int x$ = sizeof(struct inc$); (void)0;", "char *s$ = \"unterminated; (void)0;",
    "if (1 { } (void)0;", "for (;;;) { } (void)0;", "while () { } (void)0;", "do { } (1); (void)0;", "else { } (void)0;", "int 3x$; (void)0;", "int x$ = 0x; (void)x$;", "int x$ = 09; (void)x$;",
    "int x$ = 'a; (void)0;", "int x$ = ''; (void)0;", "return_; (void)0;", "goto ; (void)0;", "int x$ = {1, 2; (void)0;", "int x$[2] = {[5] = 1}; (void)0;", "struct s0 v$ = {.zz = 1}; (void)0;",
    "int *p$; p$ * 2; (void)0;", "int *p$, *q$; (void)(p$ + q$); (void)0;", "double d$ = 1; (void)(d$ % 2); (void)0;", "double d$ = 1; (void)(d$ << 2); (void)0;", "double d$ = 1; (void)~d$; (void)0;",
    "int x$ = 1; (void)x$[0]; (void)0;", "int a$[2]; a$ = 0; (void)0;", "int x$ @ = 1; (void)0;", "(void)sizeof(int; (void)0;", "int typedef_$ short double; (void)0;", "unsigned signed x$; (void)0;",
    "float long x$; (void)0;", "extern int x$ = fn0(1, 2) +; (void)0;", "(struct s0)1; (void)0;", "(int)v_struct; (void)0;", "v_struct(); (void)0;", "*v_struct; (void)0;", "-v_struct; (void)0;", "!v_struct; (void)0;",
    "enum { A$ = 1, A$ = 2 }; (void)0;", "struct { int m; int m; } z$; (void)0;", "int f$ : 3; (void)0;", "struct { int m : 40; } z$; (void)0;", "struct { int m : -1; } z$; (void)0;",
    "int x$ = (1, ); (void)0;", "int x$ = 1 ? 2; (void)0;", "int x$ = 1 ? : ; (void)0;", "_Generic(1, char: 1, float: 2); (void)0;", "int y$ = 1 +* ; (void)0;", "fn0(1,, 2); (void)0;", "fn0(, 2); (void)0;",
    "int z$ = __LINE__ __LINE__; (void)0;", "struct s0 { int again; } w$; struct s0 { int again; }; (void)0;", "&fn0 = 0; (void)0;", "fn0 = 0; (void)0;", "enum e$ { }; (void)0;", "(void)__builtin_offsetof(struct s0, zz); (void)0;",
    "asm(\"nosuchinsn_$ %eax\"); (void)0;", "asm(\"mov\" : \"=r\"); (void)0;", "__builtin_nosuch_$ ++ ; (void)0;", "switch (v_struct) { } (void)0;", "while (v_struct) { } (void)0;",
]
FILE_ = [
    "undeclared_type_$ x$; int ok_$;", "int x$ int ok_$;", "int x$ = ; int ok_$;", "int f$( { return 0; }  int ok_$;", "int x$ = y$ + 1; int ok_$;", "int fn0(int a, int b, int c); int ok_$;",
    "int x$; float x$; int ok_$;", "struct s0 { int again; }; int ok_$;", "enum { E0 = 3 }; int ok_$;", "typedef int s1; typedef float s1; int ok_$;", "int x$[-2]; int ok_$;", "_Static_assert(1 == 2, \"no\"); int ok_$;",
    "#error stop here $", "#include \"nofile_$.h\"", "#include <nofile_$.h>", "#include", "#if 1 +", "#if (1", "#elif 1", "#else", "#endif", "#define", "#define 3x 4", "#define F$(x x", "#undef",
    "#ifdef", "#line x", "void x$; int ok_$;", "int x$ = 1; int x$ = 2; int ok_$;", "struct { int a; void b; } x$; int ok_$;", "static int g$() { goto nolabel_$; } int ok_$;",
    "int g$(void) { return 1 } int ok_$;", "int g$(int a, int a) { return a; } int ok_$;", "int g$(void) { int a[2](3); } int ok_$;", "int (*a$)[](2); int ok_$;", "int f$()[2]; int ok_$;", "int f$()(); int ok_$;",
    "int x$ : 3; int ok_$;", "} int ok_$;", ") int ok_$;", "int x$ = 1 2; int ok_$;", "int x$ = v_int; int ok_$;", "int x$ = fn0(1, 2); int ok_$;", "return 1; int ok_$;", "if (1) int ok_$;", "\"string\"; int ok_$;", "3; int ok_$;",
    "struct { int m : 33; } z$; int ok_$;", "int x$ = 1 / 0 + ; int ok_$;", "extern int v_int(void); int ok_$;", "int x$ = &v_struct.b; int x$; float x$;", "int a$[] = {1, 2, }, b$[2] = { [0 ... 5] = 1 }; int ok_$;",
    "static void *h$ = { { { \"a\" ; int ok_$;", "int F$(void) { switch (1) { case v_int: ; } return 0; } int ok_$;", "_Alignas(3) int al$; int ok_$;", "int x$ = (struct s0){1}; int ok_$;", "inline static nofun_$ x$; int ok_$;",
]
STMT += [
    "(struct inc$)v_int; (void)0;", "int x$ = (void)0; (void)x$;", "v_int = (void)0; (void)0;", "struct inc$ *p$ = 0; p$->a = 1; (void)0;", "struct s0 v$; v$.3; (void)0;",
    "struct s0 v$; v$.; (void)0;", "_Complex double c$ @; (void)0;", "typedef static int t$; (void)0;", "extern static int e$; (void)0;", "signed float f$; (void)0;", "unsigned double f$; (void)0;",
    "signed struct s0 q$; (void)0;", "long char c$; (void)0;", "long long long c$; (void)0;", "short long c$; (void)0;", "int a$[v_struct]; (void)0;", "int fa$[2](void); (void)0;",
    "int i$ = sizeof(); (void)0;", "int i$ = (unsigned)v_struct; (void)0;", "__atomic_load(3, &v_int, 0); (void)0;", "int *q$ = 0; int i$ = +q$; (void)0;", "int *q$ = 0; int i$ = ~q$; (void)0;",
    "double d$; int *r$ = &d$ + d$; (void)0;", "int i$ = _Generic(1, int: 1, int: 2); (void)0;", "int i$ = _Generic(1, int 2); (void)0;", "int i$ = _Generic(1, default: 1, default: 2); (void)0;",
    "int i$[2] = {1, 2, [-1] = 3}; (void)0;", "int i$[] = { .x = 1 }; (void)0;", "int i$ = { [0] = 1 }; (void)0;", "struct s0 v$ = { [0] = 1 }; (void)0;", "int w$(int a, int a) ; (void)0;",
    "static int nested$(void); (void)0; static int nested$(void) { return 1; } (void)0;", "int n$ = 3; int vl$[n$] = {1}; (void)0;", "int n$ = 3; static int vl$[n$]; (void)0;",
    "int i$ = \\ 3; (void)0;", "int i$ = 1e; (void)0;", "double f$ = 1e+; (void)0;", "double f$ = 0x1.5; (void)0;", "double f$ = 0x1p; (void)0;", "int i$ = 1lll; (void)0;", "int i$ = 1uu; (void)0;",
    "int i$ = 12abc; (void)0;", "int i$ = 1.2.3; (void)0;", "double f$ = 1.0q7; (void)0;", "int i$ = 0b12; (void)0;", "int i$ = 0b; (void)0;", "int i$ = 'ab; (void)0;",
    "char *s$ = \"\\xg\"; (void)0;", "int i$ = HM(1, 2); (void)0;", "int i$ = HM(1, 2, 3, 4); (void)0;", "int i$ = $x; (void)0;", "int i$ = `1; (void)0;",
    "asm(\"movl %0, %1\" : \"=r\"(v_int)); (void)0;", "asm(\"movl %[nope], %%eax\" : : \"r\"(1)); (void)0;", "asm(\"nop\" : : \"r\"(v_int) : \"nosuchreg\"); (void)0;",
    "asm(\"nop\" : \"=r\"(3)); (void)0;", "asm(\"nop\" : : \"7\"(v_int)); (void)0;", "asm(\"nop\" : : \"i\"(v_int)); (void)0;", "asm(nop); (void)0;", "asm(\"nop\" : \"=r\" v_int); (void)0;",
    "asm(\"movl %eax\"); (void)0;", "asm(\"movl $1, $2\"); (void)0;", "asm(\"movl (%eax,%ebx,3), %ecx\"); (void)0;", "asm(\"movl %nosuch, %eax\"); (void)0;", "asm(\"movl (%rax, %ecx\"); (void)0;",
    "asm(\"movb %ah, %r8b\"); (void)0;", "asm(\"rep addl\"); (void)0;", "asm(\"mov $1, (%rax)\"); (void)0;", "asm(\"lea %eax, %ebx\"); (void)0;", "asm(\"int $300\"); (void)0;",
    "asm(\".nosuchdirective 3\"); (void)0;", "asm(\"jmp 7b\"); (void)0;", "asm(\"1: 1 2\"); (void)0;", "asm(\"addl $1, %eax junk\"); (void)0;", "asm(\".fill nosym_$, 1, 1\"); (void)0;",
    "asm(\".long 1 * nosym_$\"); (void)0;", "asm(\".long (1\"); (void)0;", "asm(\".ascii 3\"); (void)0;", "asm(\".rept 3\\n nop\"); (void)0;", "asm(\".align 3\"); (void)0;",
    "goto *v_struct; (void)0;", "int i$ = v_struct ? 1 : 2; (void)0;", "int i$ = 1 ? v_struct : 2; (void)0;", "int i$ = v_struct && 1; (void)0;", "int i$ = v_struct == v_struct; (void)0;",
    "for (v_struct;v_struct;) { } (void)0;", "return v_struct; (void)0;", "(void)(1 ? (void)0 : 1)->x; (void)0;", "int i$ = fn0; i$(1, 2); (void)0;", "void (*fp$)(int) = 0; fp$(1, 2); (void)0;",
    "void (*fp$)(int) = 0; fp$(); (void)0;", "int i$ = fn0(1, 2).x; (void)0;", "int i$ = fn0(1, 2)++; (void)0;", "fn0(1, 2) = 3; (void)0;", "(v_int ? v_int : v_int) = 3; (void)0;",
    "(v_int, 1) = 3; (void)0;", "sizeof v_int = 3; (void)0;", "v_int++++; (void)0;", "++v_int++; (void)0;", "&v_int++; (void)0;", "&(v_int + 1); (void)0;", "if v_int { } (void)0;",
    "switch v_int { } (void)0;", "do { } while 1; (void)0;", "do { } until (1); (void)0;", "for (;;) } (void)0;", "case v_int: ; (void)0;", "switch (1.5) { } (void)0;",
    "switch (1) { case \"a\": ; } (void)0;", "switch (1) { case 5 .. 6: ; } (void)0;", "_Static_assert(v_int, \"x\"); (void)0;", "_Static_assert(1 \"x\"); (void)0;", "_Static_assert(1, 2); (void)0;",
    "enum e$ { X$ = v_int }; (void)0;", "enum e$ { X$ Y$ }; (void)0;", "enum { 3 }; (void)0;", "struct { int } x$ y$; (void)0;", "struct { struct inc$ m; } x$; (void)0;",
    "struct { int m[]; int n; } x$; (void)0;", "struct { int m(void); } x$; (void)0;", "struct { int a : 0; } x$; (void)0;", "struct { double a : 3; } x$; (void)0;",
    "struct { int *a : 3; } x$; (void)0;", "struct { int a : v_int; } x$; (void)0;", "union { void u; } x$; (void)0;", "struct s0 s1$ = v_int; (void)0;", "char c$[2] = 3; (void)0;",
    "char c$[] = 3; (void)0;", "int c$[] ; (void)0;", "int c$[][]; (void)0;", "int c$[2][]; (void)0;", "int *c$ = { 1, 2 @ }; (void)0;", "__builtin_va_start(v_int); (void)0;",
    "__builtin_va_arg(v_int); (void)0;", "__builtin_choose_expr(v_int, 1, 2); (void)0;", "__builtin_types_compatible_p(int); (void)0;", "__builtin_offsetof(int, a); (void)0;",
    "typeof v_int x$; (void)0;", "int x$ __attribute__((aligned(3))); (void)0;", "int x$ __attribute__((; (void)0;", "_Alignas(3) int x$; (void)0;", "_Alignas(v_int) int x$; (void)0;",
    "_Thread_local @ int x$; (void)0;", "inline int x$ ) ; (void)0;", "a b c; (void)0;", "int 'x'; (void)0;", "else; (void)0;",
]
FILE_ += [
    "int f$(struct { int a; } , ) ; int ok_$;", "int f$(a, b) int c; { return 1; } int ok_$;", "int f$(a) int a; int a; { return 1; } int ok_$;", "int f$(a) static int a; { return 1; } int ok_$;",
    "int f$(a) int a { return 1; } int ok_$;", "int f$(int a); int f$(double a); int ok_$;", "int f$(int a); int f$; int ok_$;", "int f$ { return 1; } int ok_$;", "int f$[] { return 1; } int ok_$;",
    "typedef int t$ { return 1; } int ok_$;", "int g$(void) { return 1; } int g$(void) { return 2; } int ok_$;", "static int h$ = h2$; int ok_$;", "int n$ = 3; int a$[n$]; int ok_$;",
    "int n$ = ({ 1; }); int ok_$;", "int a$[2] = 1; int ok_$;", "int a$[] = v_int; int ok_$;", "struct s0 z$ = 1; int ok_$;", "struct s0 z$ = { 1, 2, .q = 3 }; int ok_$;",
    "int z$ = { 1, 2 @ }; int ok_$;", "int z$ = \"a\"[v_int]; int ok_$;", "int *z$ = &v_int + v_int; int ok_$;", "long z$ = &v_int * 2; int ok_$;", "double z$ = v_int; int ok_$;",
    "struct s0 z$ = v_struct; int ok_$;", "struct inc$ z$; int ok_$ = sizeof z$;", "struct inc$ z$ = { 1 }; int ok_$;", "enum e$ { A$ }; enum e$ { B$ }; int ok_$;", "union s0 { int x; }; int ok_$;",
    "enum s0 { QQ$ }; int ok_$;", "struct { int a } z$ int ok_$;", "struct z$ { int a[]; int b; }; int ok_$;", "struct z$ { struct z$ x; }; int ok_$;", "struct z$ { int : 0 x; }; int ok_$;",
    "struct z$ { int x : 0; }; int ok_$;", "struct z$ { float x : 2; }; int ok_$;", "static extern int r$; int ok_$;", "typedef extern int r$; int ok_$;", "signed void r$; int ok_$;",
    "unsigned _Bool r$; int ok_$;", "long struct s0 r$; int ok_$;", "short char r$; int ok_$;", "int int r$; int ok_$;", "int double r$; int ok_$;", "s1 s1 r$; int ok_$;", "int r$[3.0]; int ok_$;",
    "int r$[\"a\"]; int ok_$;", "int r$[]; int q$ = sizeof r$; int ok_$;", "int (*r$)(int)[2]; int ok_$;", "int &r$; int ok_$;", "int *; * r$; int ok_$;", "asm(3); int ok_$;",
    "asm(\"nosuch_insn %eax\"); int ok_$;", "asm(\".quad\"); ) int ok_$;", "asm(\"1: jmp 2b\"); int ok_$;", "asm(\".if 1\"); int ok_$;", "#if", "#if 1 2", "#if 1 +", "#if (1 + 2", "#if 1 ? 2",
    "#if 1 / 0", "#if \"a\"", "#if 1.0", "#if a b", "#if defined", "#if defined(", "#if defined(X", "#if defined 3", "#if 1 == = 2", "#ifdef 3", "#ifndef", "#ifndef +", "#define 1",
    "#define f$(a b) a", "#define f$(...,a) a", "#define f$(1) a", "#define f$(a) ## a", "#define f$(a) a ##", "#define f$ ##", "#define defined 3", "#undef 3", "#include \"unfinished",
    "#include <unfinished", "#include 3", "#include nomacro_$", "#else", "#elif", "#endif", "#line", "#line 3 4", "#error", "_Static_assert(0); int ok_$;",
    "_Static_assert(sizeof(int) == 3, \"x\" \"y\"); int ok_$;", "int ok_$ = __has_include(); int ok2_$;", "#if __has_include()", "#if __has_include(\"a",
    "static int k$(void); int uk$ = k$; int uk$ = 3; int ok_$;", "int f$(int)(int); int ok_$;", "int z$ = sizeof(int[v_int]); int ok_$;", "int z$ = (int){ v_int }; int ok_$;",
    "int z$ = 1 +; int ok_$;", "int z$ = fn0; int z$ = 2; int ok_$;", "extern int z$ = 2 2; int ok_$;", "int z$ = 10000000000000000000000000000; @ int ok_$;", "int z$ = 'a' 'b'; int ok_$;",
    "int z$ = \"a\" 'b'; int ok_$;", "int z$ __attribute__((section)); int ok_$;", "int z$ __attribute__((alias)); int ok_$;", "int z$ __attribute__((aligned(5))); int ok_$;",
    "int z$ __attribute__((3)); int ok_$;",
]
TAIL = ["int open_$(void) {", "#if 1", "/* open comment", "#ifdef X\nint z$;", "int a$[] = {1, 2,", "struct z$ { int a;", "int w$ = (1 +", "#if 0", "int v$", "char c$[] = \"abc", "#define G$(a) a\nint q$ = G$(1"]
LINK = ["extern int nodef_$(int); int use_$(void) { return nodef_$(1); }", "extern int nodef_$; int *use_$ = &nodef_$;", "int nodef_$(void); int (*use_$)(void) = nodef_$;", "extern double nodef_$[]; double use_$(void) { return nodef_$[2]; }"]

SHIFT = ["\n\n", "/* comment\n over lines\n*/\n", "#define M$(a, b) \\\n  ((a) + \\\n  (b))\n", "// line \\\n continued\n", "#if 0\n junk ' \" {{{\n#else\n#endif\n", "#include \"hd.h\"\n", "int sp$ = 1 + \\\n 2 \\\n + 3;\n", "const char *st$ = \"a\" \\\n\"b\"\n\"c\";\n", "int mm$ = HM(1,\n 2,\n 3);\n", "#ifdef NOPE\n#include \"nofile\"\n#error no\n'unterminated\n#endif\n", "#pragma once_upon\n", "static int tf$(\n int a,\n int b) {\n return a +\n b; }\n"]
HEADER = "/* a header\n with lines */\n#ifndef HD\n#define HD\n#define HM(a, b, c) ((a) + (b) + (c))\nextern int hdvar;\n#endif\n"
PRE = ("#include <stddef.h>\n#include \"hd.h\"\nlong write(int, const void *, unsigned long);\nstruct s0 { int a, b; };\ntypedef int s1;\nenum { E0 = 1, E1 };\n"
       "extern int v_int; extern struct s0 v_struct;\n")


class Faults(Prop):
    name = "faults"
    rule = ("programs of 1-3 files with one fault out of %d kinds (syntax, type, declaration, preprocessing, link, unterminated) at any place in any of them, after line-shifting "
            "comments, macros, headers and splices; run, compiled with -c, with -o, from standard input or partly from an object; oracle: nothing runs, nothing is made, status "
            "not 0, file and line (or symbol) of the fault on stderr, while the same program without the fault runs; non-trivial = the one with the fault"
            % (len(STMT) + len(FILE_) + len(TAIL) + len(LINK) + 4))
    batch = 8
    quick_n, quick_secs = 6400, 50
    thorough_n, thorough_secs = 120000, 600

    def items(self, d, k, fault, pos, n):
        """lines of one file; the fault goes at item pos"""
        out = []
        for i in range(n):
            u = "%d_%d" % (k, i)
            for _ in range(d.draw(3)):
                out.append(d.pick(SHIFT).replace("$", "%s_%d" % (u, len(out))))
            if fault and fault[0] == "file" and pos == i:
                out.append("\x01" + fault[1].replace("$", "7") + "\n")
            body = []
            for j in range(d.int(1, 3)):
                body.append(d.pick(["  int a%d = p; (void)a%d;\n" % (j, j), "  while (p > 3) { p--; if (p == 7) break; }\n", "  switch (p) { case 1: p++; break; default: p--; }\n",
                                    "  { struct s0 q = {p, 2}; p += q.a; }\n", "  do\n   p++;\n  while (p < 2);\n", "  // c\n\n", "  p = HM(p,\n1,\n\n2);\n", "  { l%d: p--; if (p > 5) goto l%d; }\n" % (j, j),
                                    "  write(1, \"F\", 0);\n"]))
            if fault and fault[0] == "stmt" and pos == i:
                body.insert(d.draw(len(body) + 1), "  \x01" + fault[1].replace("$", "7") + "\n")
            out.append("%sint g%s(int p) {\n%s  return p;\n}\n" % (d.pick(["", "static "]), u, "".join(body)))
        if fault and fault[0] in ("link", "clash"):
            out.append("\x01" + fault[1].replace("$", "7") + "\n")
        if fault and fault[0] == "tail":
            out.append("\x01" + fault[1].replace("$", "7") + d.pick(["", "\n", "\n\n/* after */\n"] if "/*" not in fault[1] else ["", "\n"]))
        return "".join(out)

    def gen(self, d):
        nf = d.wpick([(3, 1), (3, 2), (1, 3)])
        mode = d.wpick([(5, "run"), (2, "o"), (2, "c"), (1, "stdin"), (1, "objs")])
        if mode in ("c", "stdin"):
            nf = 1
        kinds = [(8, "stmt"), (6, "file"), (2, "tail")]
        if mode != "c":
            kinds += [(2, "link"), (1, "nomain")]
            if mode != "stdin":
                kinds += [(1, "clash"), (1, "missing"), (1, "badobj")]
        k = d.wpick(kinds)
        fault = {"stmt": STMT, "file": FILE_, "tail": TAIL, "link": LINK}.get(k)
        fault = (k, d.pick(fault)) if fault else (k, d.pick(["int fn0(int a, int b) { return a; }", "int v_int = 4;", "struct s0 v_struct = {3};", "float v_int = 1;"]) if k == "clash" else "")
        if k == "clash" and nf == 1:
            nf = 2
        where = d.draw(nf)
        if k == "clash" and where == 0:
            where = 1
        sizes = [d.int(1, 4) for _ in range(nf)]
        pos = d.draw(sizes[where])
        texts = []
        for i in range(nf):
            t = PRE
            if i == 0:
                t += "int v_int = 3; struct s0 v_struct = {1, 2}; int hdvar;\nint fn0(int a, int b) { return a + b; }\n"
                t += "__attribute__((constructor)) void ctor(void) { write(1, \"RUN\", 3); }\n" if d.chance(1, 2) else ""
            else:
                t += "int fn0(int a, int b);\n" if not (k == "clash" and i == where) else ""
            if k == "clash" and i == where:
                t = t.replace("extern int v_int; extern struct s0 v_struct;\n", "")
            main = "int main(void) { write(1, \"RUN\", 3); return v_int + fn0(0, 0); }\n" if i == 0 else ""
            f = fault if i == where else None
            early = d.chance(1, 2)
            if early:
                t += main
            t += self.items(d, i, f, pos, sizes[i])
            if not early:
                if f and f[0] == "tail":
                    t = t.replace("\x01", main + "\x01")
                else:
                    t += main
            texts.append(t)
        order = d.shuffle(range(nf))
        d.label("fault:" + k); d.label("mode:" + mode)
        base = d.draw(3) == 0
        return (tuple(texts), k, fault[1], where, mode, tuple(order), base, d.draw(1 << 16))

    def show(self, c):
        return "\n".join("--- f%d.c\n%s" % (i, t.replace("\x01", "")) for i, t in enumerate(c[0])) + "\nfault %s in f%d.c: %s; mode %s, order %r" % (c[1], c[3], c[2], c[4], c[5])

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        texts, k, ftext, where, mode, order, base, salt = c
        w = os.path.realpath(ctx.work.path("f"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        open(w + "/hd.h", "w").write(HEADER)
        if base:
            # without the fault it must run
            for i, t in enumerate(texts):
                t = re.sub("\x01.*", "", t, flags=re.S) if k == "tail" and i == where else re.sub("\x01[^\n]*", "", t)
                if k == "clash" and i == where:
                    t = t.replace("long write", "extern int v_int; extern struct s0 v_struct; int fn0(int, int); long write", 1)
                open("%s/f%d.c" % (w, i), "w").write(t)
            r = proc.run([ctx.b.cjit, "-q"] + ["f%d.c" % i for i in order], cwd=w)
            if r.rc != 3 or r.out not in (b"RUN", b"RUNRUN"):
                return Fail("the program without the fault: exit %s, stdout %r, stderr %r" % (r.rc, r.out[:200], r.err[:600]))
        line = None
        for i, t in enumerate(texts):
            if k == "nomain":
                t = t.replace("int main(void) {", "int mainn(void) {")
            if "\x01" in t:
                line = t[:t.index("\x01")].count("\n") + 1
                t = t.replace("\x01", "")
            open("%s/f%d.c" % (w, i), "w").write(t)
        names = ["f%d.c" % i for i in order]
        if k == "missing":
            names[names.index("f%d.c" % where)] = "gone.c" if salt % 2 else "gone.o"
        elif k == "badobj":
            data = [b"\x7fELF\x02\x01\x01" + b"\0" * 60, b"\x7fELF", b"junk \x00\xff junk " * 10, b"!<arch>\njunk", b"int main;"][salt % 5]
            open(w + "/bad.o", "wb").write(data)
            names.insert(salt % (len(names) + 1), "bad.o")
        objs_failed = False
        stdin = None
        if mode == "objs":
            # the good files first become objects
            for i in range(len(texts)):
                f = "f%d.c" % i
                if i != where and f in names:
                    o = proc.run([ctx.b.cjit, "-q", "-c", f, "-o", f + ".o"], cwd=w)
                    if o.rc != 0:
                        return Fail("-c fails on a file without a fault: %r" % o)
                    names[names.index(f)] = f + ".o"
        cmd = [ctx.b.cjit, "-q"] + {"o": ["-o", "out.x"], "c": ["-c", "-o", "out.o"]}.get(mode, []) + names
        if mode == "stdin":
            stdin = open(w + "/f0.c", "rb").read()
            cmd = [ctx.b.cjit, "-q"] + (["-"] if salt % 2 else [])
        r = proc.run(cmd, cwd=w, input=stdin)

        def fail(msg):
            return Fail("%s; fault %s in f%d.c line %s: %s; command %r; exit %s, stdout %r, stderr %r" % (msg, k, where, line, ftext, cmd[1:], r.rc, r.out[:200], r.err[:500]))
        if r.timeout:
            return fail("does not end")
        if b"RUN" in r.out:
            return fail("user code ran")
        if r.rc == 0 or r.rc < 0 or r.rc is None:
            if k == "nomain" and mode == "c":
                return None
            return fail("not reported as failed")
        for o in ("out.x", "out.o"):
            if os.path.exists(os.path.join(w, o)):
                return fail("made %s" % o)
        if r.out:
            return fail("writes to standard output")
        err = r.err.decode("utf-8", "replace")
        if not err.strip():
            return fail("no diagnostic")
        if k in ("stmt", "file"):
            fn = "<string>" if mode == "stdin" else "f%d.c" % where
            found = re.findall(r"([^\s:]+):(\d+): error", err)
            if not any(os.path.basename(a) == fn and int(b) == line for a, b in found):
                return fail("no error at %s:%d" % (fn, line))
            # nothing else is to blame
            if any(os.path.basename(a) != fn for a, b in found):
                return fail("an error elsewhere")
        elif k == "tail":
            fn = "<string>" if mode == "stdin" else "f%d.c" % where
            found = re.findall(r"([^\s:]+):(\d+): error", err)
            if not any(os.path.basename(a) == fn for a, b in found):
                return fail("no error in %s" % fn)
        elif k == "link":
            if "nodef_7" not in err:
                return fail("the undefined symbol is not named")
        elif k == "clash":
            if not re.search("fn0|v_int|v_struct", err):
                return fail("the symbol defined twice is not named")
        elif k == "nomain":
            if "main" not in err:
                return fail("main is not named")
        elif k == "missing":
            if "gone" not in err:
                return fail("the missing file is not named")
        elif k == "badobj":
            if "bad.o" not in err:
                return fail("the bad file is not named")
        return None


class C(Check):
    id = "C12"
    parts = [Faults()]
    assumptions = ["faults are of the listed kinds, each refused by gcc and clang"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch)
        ctx.work = Work(ctx.scratch)


CHECK = C()
