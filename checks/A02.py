"""A02: command-line options have their documented effect wherever they are placed."""
import os, shutil
from vf import build, proc
from vf.cbatch import Work
from vf.pbt import Prop, Fail
from vf.runner import Check

NAMES = ["A", "B", "LONG_name_1", "x9", "_u"]
VALUES = ["1", "0", "-7", "0x1F", "42L", '"str"', '"a b"', "(1+2)", "B", "A B C", "", "a=b", "==", "x,y", "'c'", "*p", "1 // c", "f(x)", "é"]
IGN1 = ["-O", "-O0", "-O2", "-Os", "-O3", "-s", "-shared", "-static-libgcc", "-fPIC", "-fno-builtin", "-Wall", "-Wextra", "-W", "-M", "-MMD", "-g", "-g3", "-ggdb", "-pedantic", "-fwrapv"]
FUNS = ["main", "alt", "other", "f1"]
DIRS = ["d1", "d2", "d3"]
LIBS = ["one", "two"]

LIBC = "int %s(void) { return %d; }\n"


def prog():
    out = ["#include <stdio.h>", "#define S2(x...) #x", "#define S1(x...) S2(x)"]
    for h in ("h1.h", "h2.h"):
        out.append('#ifdef INC\n#include "%s"\n#endif' % h)
    out.append("#ifdef LIB\nextern int one(void), two(void);\n#endif")
    for f in FUNS:
        body = ['printf("fun %s;");' % f]
        for n in NAMES:
            out_ = 'printf("%s=[%%s];", S1(%s));' % (n, n)
            body.append("\n#ifdef %s\n%s\n#else\nprintf(\"%s unset;\");\n#endif\n" % (n, out_, n))
        body.append("\n#ifdef INC\nprintf(\"h1=%d h2=%d;\", H1, H2);\n#endif\n#ifdef LIB\nprintf(\"one=%d two=%d;\", one(), two());\n#endif\n")
        body.append("\n#ifdef __BOUNDS_CHECKING_ON\nputs(\"b\");\n#endif\n")
        out.append("int %s(int argc, char **argv) { %s return argc; }" % (f, "\n".join(body)))
    return "\n".join(out) + "\n"


PROG = prog()


class Opts(Prop):
    name = "options"
    rule = ("one or two cjit runs per case: 0-9 of -D, -I, -L, -l, -C, -e, -q, --verb, -o, -c and options documented as ignored, attached or separate, repeated, "
            "in any order, before and after the file; the program prints the macro values, the headers and libraries found and the function entered; oracle: a model "
            "of the option list; non-trivial = at least two options with effect")
    batch = 8
    quick_n, quick_secs = 10000, 45
    thorough_n, thorough_secs = 150000, 600

    def gen(self, d):
        ops = []
        n = d.wpick([(2, d.int(0, 2)), (4, d.int(2, 5)), (2, d.int(5, 9))])
        inc, lib = d.chance(1, 2), d.chance(1, 3)
        for _ in range(n):
            k = d.wpick([(4, "D"), (2, "I"), (2, "L"), (2, "ign"), (1, "q"), (1, "verb"), (1, "e"), (2, "C"), (1, "pre")])
            sepd = d.chance(1, 2)
            if k == "D":
                nm = d.pick(NAMES)
                v = d.wpick([(2, None), (5, d.pick(VALUES))])
                ops.append(("D", nm, v, sepd))
            elif k == "I":
                inc = True
                ops.append(("I", d.pick(DIRS + ["none"]), d.draw(3), sepd))
            elif k == "L":
                lib = True
                ops.append(("L", d.pick(DIRS + ["none"]), d.draw(3), sepd))
            elif k == "ign":
                ops.append(("ign", d.pick(IGN1)))
            elif k == "q":
                ops.append(("q",))
            elif k == "verb":
                ops.append(("verb",))
            elif k == "e":
                ops.append(("e", d.pick(FUNS), sepd))
            elif k == "C":
                sub = []
                for _ in range(d.int(1, 3)):
                    j = d.draw(4)
                    if j == 0:
                        sub.append(("D", d.pick(NAMES), d.pick([None, "1", "77", "zz"])))
                    elif j == 1:
                        sub.append(("U", d.pick(NAMES)))
                    elif j == 2:
                        inc = True
                        sub.append(("I", d.pick(DIRS)))
                    else:
                        sub.append(("ign", d.pick(["-Wall", "-g0", "-w", "-O2", "-Wno-error"])))
                ops.append(("C", tuple(sub), sepd))
            else:
                ops.append(("pre", d.pick(NAMES)))
        if lib:
            ops.append(("l", "one", d.chance(1, 2)))
            ops.append(("l", "two", d.chance(1, 2)))
            if d.chance(1, 3):
                ops.append(("l", d.pick(LIBS), d.chance(1, 2)))
        ops = d.shuffle(ops)
        at = d.draw(len(ops) + 1)
        mode = d.wpick([(6, "run"), (2, "o"), (2, "c"), (1, "cfile")])
        mpos = d.draw(len(ops) + 1)
        omulti = d.chance(1, 5)
        env = None
        if not any(o[0] == "C" for o in ops) and d.chance(1, 4):
            env = ("ENVD", d.pick(["1", "9"]), d.pick(DIRS) if inc else None)
        # which directories have which headers and libraries
        have = tuple((d.draw(4), d.draw(4)) for _ in DIRS)
        cwdlib = d.draw(4) if lib else 0
        fname = d.pick(["p.c", "p.c", "sub/p.c"])
        for o in ops:
            d.label(o[0])
        d.label("mode:" + mode)
        return (tuple(ops), at, mode, mpos, omulti, env, have, cwdlib, fname, inc, lib)

    def nontrivial(self, c, d):
        return sum(1 for o in c[0] if o[0] not in ("ign", "q", "verb")) >= 2

    def show(self, c):
        return "options=%r file after %d of them, mode %s, CFLAGS=%r, headers/libs of the folders %r" % (c[0], c[1], c[2], c[5], c[6])

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        ops, at, mode, mpos, omulti, env, have, cwdlib, fname, inc, lib = c
        w = os.path.realpath(ctx.work.path("o"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + "/sub")
        for i, dn in enumerate(DIRS):
            os.makedirs(os.path.join(w, dn))
            for j in (1, 2):
                if have[i][0] & j:
                    with open("%s/%s/h%d.h" % (w, dn, j), "w") as f:
                        f.write("#ifndef H%d\n#define H%d %d\n#endif\n" % (j, j, 10 * (i + 1) + j))
                if have[i][1] & j:
                    os.symlink(ctx.libs[(i + 1, LIBS[j - 1])], "%s/%s/lib%s.so" % (w, dn, LIBS[j - 1]))
        for j in (1, 2):
            if cwdlib & j:
                os.symlink(ctx.libs[(9, LIBS[j - 1])], "%s/lib%s.so" % (w, LIBS[j - 1]))
        with open(os.path.join(w, fname), "w") as f:
            f.write(PROG)
        # the model
        macro, ipath, lpath, entry = {}, [], [], "main"
        words, refused = [], False

        def path(dn, style):
            return {0: dn, 1: "./" + dn, 2: w + "/" + dn}[style]
        for o in ops:
            ws = []
            if o[0] == "D":
                macro[o[1]] = "1" if o[2] is None else o[2]
                v = o[1] if o[2] is None else "%s=%s" % (o[1], o[2])
                ws = ["-D", v] if o[3] else ["-D" + v]
            elif o[0] == "pre":
                ws = ["-D" + o[1] + "X=5"]
            elif o[0] == "I":
                ipath.append(o[1])
                v = path(o[1], o[2])
                ws = ["-I", v] if o[3] else ["-I" + v]
            elif o[0] == "L":
                lpath.append(o[1])
                v = path(o[1], o[2])
                ws = ["-L", v] if o[3] else ["-L" + v]
            elif o[0] == "l":
                ws = ["-l", o[1]] if o[2] else ["-l" + o[1]]
            elif o[0] == "ign":
                ws = [o[1]]
            elif o[0] == "q":
                ws = ["-q"]
            elif o[0] == "verb":
                ws = ["--verb"]
            elif o[0] == "e":
                entry = o[1]
                ws = ["-e", o[1]] if o[2] else ["-e" + o[1]]
            elif o[0] == "C":
                t = []
                for s in o[1]:
                    if s[0] == "D":
                        macro[s[1]] = "1" if s[2] is None else s[2]
                        t.append("-D" + s[1] + ("" if s[2] is None else "=" + s[2]))
                    elif s[0] == "U":
                        macro.pop(s[1], None)
                        t.append("-U" + s[1])
                    elif s[0] == "I":
                        ipath.append(s[1])
                        t.append("-I" + s[1])
                    else:
                        t.append(s[1])
                v = " ".join(t)
                ws = ["-C", v] if o[2] else ["-C" + v]
            words.append(ws)
        e = proc.base_env()
        if env:
            e["CFLAGS"] = "-DA%s=%s%s" % (env[0], env[1], " -I" + env[2] if env[2] else "")
            if env[2]:
                ipath.append(env[2])
        if inc:
            words.append(["-DINC"])
        if lib:
            words.append(["-DLIB"])
        out = {"run": [], "o": ["-o", "out.exe"], "c": ["-c", "-o", "out.o"], "cfile": ["-c"]}[mode]
        if omulti and mode in ("o", "c"):
            out = out + ["-o", "last.x"]
        target = {"run": None, "o": "out.exe", "c": "out.o", "cfile": "p.o"}[mode]
        if omulti and mode in ("o", "c"):
            target = "last.x"
        words.insert(mpos, out)
        if at >= len(words):
            words.append([fname])
        else:
            words.insert(at, [fname])
        cmd = [ctx.b.cjit] + [x for ws in words for x in ws]
        r = proc.run(cmd, cwd=w, env=e)
        # expectation
        found_h, bad_h = {}, False
        if inc:
            for j in (1, 2):
                for dn in ipath:
                    if dn != "none" and have[DIRS.index(dn)][0] & j:
                        found_h[j] = 10 * (DIRS.index(dn) + 1) + j
                        break
            bad_h = len(found_h) < 2
        found_l, bad_l = {}, False
        if lib:
            for j in (1, 2):
                for dn in lpath:
                    if dn != "none" and have[DIRS.index(dn)][1] & j:
                        found_l[j] = 100 * (DIRS.index(dn) + 1) + j
                        break
                else:
                    if cwdlib & j:
                        found_l[j] = 900 + j
            bad_l = len(found_l) < 2

        def fail(msg):
            return Fail("%s; command: cjit %s%s; exit %s, stdout %r, stderr %r" % (msg, " ".join(repr(x) if " " in x or not x else x for x in cmd[1:]),
                        " CFLAGS=" + e["CFLAGS"] if env else "", r.rc, r.out[:600], r.err[:600]))
        if r.timeout:
            return fail("does not end")
        if bad_h or (bad_l and mode in ("run", "o")):
            if r.rc == 0:
                return fail("succeeds although a header or library is not to be found")
            if r.out:
                return fail("the program ran although a header or library is missing")
            return None
        parts = ["fun %s;" % (entry if mode != "o" else "main")]
        expect = ctx.expand(macro)
        for nm in NAMES:
            parts.append("%s=[%s];" % (nm, expect[nm]) if nm in macro else nm + " unset;")
        if inc:
            parts.append("h1=%d h2=%d;" % (found_h[1], found_h[2]))
        if lib and not bad_l:
            parts.append("one=%d two=%d;" % (found_l[1], found_l[2]))
        want = "".join(parts).encode()
        if mode == "run":
            if r.rc != 1:
                return fail("exit status %d, expected 1" % r.rc)
            got = r.out
        else:
            if r.rc != 0:
                return fail("fails")
            if r.out:
                return fail("prints to standard output while compiling")
            t = os.path.join(w, target)
            if not os.path.exists(t):
                return fail("%s was not made" % target)
            others = {"out.exe", "out.o", "p.o", "last.x", "a.out"} - {target}
            extra = [x for x in others if os.path.exists(os.path.join(w, x))]
            if extra:
                return fail("also made %s" % extra)
            if mode == "o":
                libdirs = ":".join([os.path.join(w, x) for x in lpath] + [w])
                g = proc.run([t], cwd=w, env=proc.base_env({"LD_LIBRARY_PATH": libdirs}))
                if g.rc != 1:
                    r = g
                    return fail("the executable ends with %s: %r" % (g.rc, g.err[:200]))
            else:
                if lib and bad_l:
                    return None
                cmd2 = [ctx.b.cjit, "-e" + entry] + ["-L" + os.path.join(w, x) for x in lpath] + (["-lone", "-ltwo"] if lib else []) + [t if mode == "c" and target.endswith(".o") else os.path.join("./", target)]
                g = proc.run(cmd2, cwd=w)
                if g.rc != 1:
                    r = g
                    return fail("the object does not run")
            got = g.out
        if got != want:
            return fail("expected [%s], got [%s]" % (want.decode(), got.decode("utf-8", "replace")))
        return None


class BadD(Prop):
    name = "refused"
    rule = ("definitions with a name that is not alphanumeric, files that do not exist and entry points that are not defined, among other options: the program must not run, "
            "the status must not be 0 and something must be on standard error; -h prints help and runs nothing; non-trivial = all")
    batch = 8
    quick_n, quick_secs = 1500, 15
    thorough_n, thorough_secs = 30000, 120

    def gen(self, d):
        k = d.pick(["D", "e", "file", "h", "many-c", "dir"])
        v = d.pick(["A B", "f(x)=x", "a-b=1", "a.b", "x+", "a$b", "A;", "%d", " A", "A\n"]) if k == "D" else d.pick(["nofun", "mainn", "prin", "Main"]) if k == "e" else d.pick(["nofile.c", "no/such.c", "nofile.o", "no", "."])
        pre = [d.pick(["-q", "-DX=1", "-I.", "-O2", "--verb", "-lm"]) for _ in range(d.draw(3))]
        post = [d.pick(["-q", "-DY", "-L."]) for _ in range(d.draw(3))]
        d.label(k)
        return (k, v, tuple(pre), tuple(post), d.draw(2))

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        k, v, pre, post, after = c
        w = ctx.work.path("r")
        os.makedirs(w + "/adir.c", exist_ok=True)
        open(w + "/p.c", "w").write('#include <stdio.h>\nint main(void) { puts("RUN"); return 0; }\n')
        open(w + "/q.c", "w").write('int other;\n')
        sp = {"D": ["-D", v], "e": ["-e", v], "file": [v], "h": [d for d in (["-h"] if len(v) % 2 else ["--help"])], "many-c": ["-c", "q.c"], "dir": ["adir.c"]}[k]
        cmd = [ctx.b.cjit] + list(pre) + (["p.c"] + sp if after else sp + ["p.c"]) + list(post)
        r = proc.run(cmd, cwd=w)
        ok = r.rc == 0 if k == "h" else r.rc not in (0, None) and r.rc > 0
        if r.timeout or not ok or b"RUN" in r.out or not r.err:
            return Fail("%r: exit %s, stdout %r, stderr %r" % (cmd[1:], r.rc, r.out[:300], r.err[:300]))
        return None


class Ctx2:
    pass


def expand_with_cpp(work):
    """values of the macros as the compiler must stringise them: taken from gcc"""
    cache = {}

    def fn(macro):
        key = tuple(sorted(macro.items()))
        if key not in cache:
            src = work.path("exp.c")
            with open(src, "w") as f:
                f.write("#define S2(x...) #x\n#define S1(x...) S2(x)\n")
                for n, v in macro.items():
                    f.write("#define %s %s\n" % (n, v))
                f.write("int puts(const char *);\nint main(void) {\n")
                for n in macro:
                    f.write("puts(S1(%s));\n" % n)
                f.write("return 0; }\n")
            exe = work.path("exp.exe")
            b = proc.run(["gcc", "-w", "-o", exe, src])
            if b.rc:
                raise RuntimeError(b.err.decode())
            o = proc.run([exe]).out.decode().split("\n")
            cache[key] = dict(zip(macro, o))
        return cache[key]
    return fn


class C(Check):
    id = "A02"
    parts = [Opts(), BadD()]
    assumptions = ["CFLAGS is only given without -C (documented as its default)"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch)
        ctx.work = Work(ctx.scratch)
        ctx.expand = expand_with_cpp(ctx.work)
        ctx.libs = {}
        ld = os.path.join(ctx.scratch, "libs")
        for i in (1, 2, 3, 9):
            for j, nm in enumerate(LIBS):
                os.makedirs("%s/%d" % (ld, i), exist_ok=True)
                p = "%s/%d/lib%s.so" % (ld, i, nm)
                src = p[:-3] + ".c"
                open(src, "w").write(LIBC % (nm, 100 * i + j + 1))
                build.sh(["gcc", "-shared", "-fPIC", "-o", p, src])
                ctx.libs[(i, nm)] = p


CHECK = C()
