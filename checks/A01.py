"""A01: arguments, streams, environment, exit status and process id pass unchanged to the program."""
import os
from vf import build, proc
from vf.cbatch import Work
from vf.pbt import Prop, Fail
from vf.runner import Check

PROG = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifdef SPLIT
extern void hex(const char *tag, const unsigned char *s, size_t n);
#endif
#ifndef SPLIT
DEF
#endif
static void fin(void) { fputs("atexit", stdout); }
int ENTRY(int argc, char **argv, char **envp) {
    int i; size_t n, k; unsigned char *in; char b[40];
    snprintf(b, sizeof b, "%d", argc);
    hex("argc", (void*)b, strlen(b));
    for (i = 1; i < argc; i++) hex("arg", (void*)argv[i], strlen(argv[i]));
    hex(argv[argc] ? "noterm" : "term", (void*)"", 0);
    hex("env", (void*)(getenv("VF_E") ? getenv("VF_E") : "unset"), getenv("VF_E") ? strlen(getenv("VF_E")) : 5);
    hex("secret", (void*)(getenv("VF_UNSET") ? "set" : ""), getenv("VF_UNSET") ? 3 : 0);
    if (READIN) {
        in = malloc(1 << 20); n = 0;
        while ((k = fread(in + n, 1, (1 << 20) - n, stdin)) > 0) n += k;
        hex("in", in, n);
    }
    snprintf(b, sizeof b, "%d", (int)getpid());
    hex("pid", (void*)b, strlen(b));
    getcwd(in = malloc(4096), 4096); hex("cwd", in, strlen((char*)in));
    fwrite(ERRD, 1, sizeof(ERRD) - 1, stderr);
    FIN
}
'''
HEX = r'''
void hex(const char *tag, const unsigned char *s, size_t n) {
    printf("%s:", tag);
    while (n--) printf("%02x", *s++);
    putchar('\n');
}
'''
NOEFF = ["-q", "-O2", "-O", "-Os", "-Wall", "-g", "-fPIC", "-s", "-shared", "-static-libgcc", "-Wextra", "-DZZ=1", "-fno-common", "-I.", "-W", "-M", "-pedantic", "-MD", "-L."]
TRICKY = [b"--", b"-", b"-q", b"-h", b"-v", b"-c", b"-o", b"out", b"-O2", b"-s", b"-g", b"--xass", b"--help", b"--verb", b"-D", b"-DX=1", b"-shared", b"-Wall", b"-W",
          b"-e", b"-p", b"a b", b"", b"*", b"$HOME", b"'", b'"', b"\\", b"a=b", b"-static-libgcc", b"-fPIC", b"-f", b"-M", b"-ar", b"conftest.c", b"m.c", b"-l", b"-lm",
          b"\xff\xfe", b"\n", b"\t x", b"caf\xc3\xa9", b"-1", b"---", b"--=", b"@file", b"-pedantic", b"x" * 3000]
NAMES = ["m.c", "a b.c", "it's.c", "q\"uote.c", "m.x.c", "-not.c", "caf\u00e9.c", "p$HOME.c", "m.cc", "M.C", "m.cxx", "sub dir/m.c", "d.d/m.c", "back\\slash.c"]


def cstr(b):
    return '"' + "".join("\\%03o" % c for c in b) + '"'


class Pass(Prop):
    name = "pass"
    rule = ("one cjit run per case: 1-3 source files with awkward names or standard input (none or '-'), no-effect options before, between or after them, "
            "0-12 application arguments over arbitrary bytes after --, standard input of arbitrary bytes, environment, -p, and an exit by return, exit, "
            "_exit or atexit with any int; oracle: the program's own report equals what was given; non-trivial = has an argument, input or non-zero status")
    batch = 8
    quick_n, quick_secs = 14000, 45
    thorough_n, thorough_secs = 200000, 600

    def gen(self, d):
        nargs = d.wpick([(2, 0), (2, 1), (4, 2), (2, d.int(3, 12)), (1, d.int(13, 60))])
        args = []
        for _ in range(nargs):
            k = d.draw(3)
            if k == 0:
                args.append(b"a%d" % d.draw(10))
            elif k == 1:
                args.append(d.pick(TRICKY))
            else:
                args.append(bytes(1 + d.draw(255) for _ in range(d.int(0, 12))))
        mode = d.wpick([(5, "file"), (2, "two"), (1, "three"), (1, "stdin"), (1, "dash"), (1, "twodash"), (1, "obj")])
        sep = True if nargs else d.chance(1, 2)
        opts = [(d.pick(NOEFF), d.draw(3)) for _ in range(d.wpick([(3, 0), (2, 1), (2, d.int(2, 5))]))]
        code = d.wpick([(2, 0), (1, 1), (2, d.int(2, 255)), (1, d.pick([-1, 256, 257, 1 << 30, -(1 << 31), 0x7fffffff, 255, 511, -256])), (1, d.int(-100000, 100000))])
        how = d.pick(["return", "exit", "_exit", "atexit", "noflush"])
        indata = None
        if mode in ("file", "two", "three", "obj"):
            indata = bytes(d.draw(256) for _ in range(d.wpick([(3, 0), (3, d.int(1, 40)), (1, d.int(41, 400))])))
            if d.chance(1, 12):
                indata = (indata or b"x\n") * (1 + 66000 // (len(indata) or 2))
        env = d.pick([None, "v", "", "a b", "-q", "x=y", "\u00e9"])
        err = bytes(d.draw(256) for _ in range(d.int(0, 8)))
        pid = d.chance(1, 4)
        name = d.wpick([(3, "m.c"), (3, d.pick(NAMES))])
        d.label("mode:" + mode); d.label("exit:" + how)
        return (tuple(args), mode, sep, tuple(opts), code, how, indata, env, err, pid, name)

    def nontrivial(self, c, d):
        return bool(c[0] or c[4] or c[6])

    def show(self, c):
        return "args=%r mode=%s sep=%s options=%r code=%d by %s stdin=%r env VF_E=%r stderr=%r -p=%s name=%r" % (
            c[0], c[1], c[2], c[3], c[4], c[5], (c[6] or b"")[:80], c[7], c[8], c[9], c[10])

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        args, mode, sep, opts, code, how, indata, env, err, pid, name = c
        w = os.path.realpath(ctx.work.path("a"))
        os.makedirs(w + "/sub dir", exist_ok=True)
        os.makedirs(w + "/d.d", exist_ok=True)
        fin = {"return": "return %d;", "exit": "exit(%d);", "_exit": "fflush(stdout); _exit(%d);", "atexit": "atexit(fin); return %d;",
               "noflush": 'fputs("tail", stdout); exit(%d);'}[how] % code
        src = PROG.replace("DEF", HEX).replace("ENTRY", "main").replace("READIN", "1" if indata is not None else "0").replace("ERRD", cstr(err)).replace("FIN\n", fin + "\n")
        # the file whose name starts with '-' is given with its folder
        shown = "./" + name if name.startswith("-") else name
        files, stdin = [shown], indata
        split = mode in ("two", "three", "twodash")
        if split:
            src = "#define SPLIT\n" + src
        if mode in ("stdin", "dash"):
            files, stdin = ([] if mode == "stdin" else ["-"]), src.encode()
        with open(os.path.join(w, name), "w", encoding="utf-8") as f:
            f.write(src)
        aux = "#include <stdio.h>\n" + HEX
        if mode in ("two", "three"):
            with open(w + "/aux.c", "w") as f:
                f.write(aux)
            files.append("aux.c")
            if mode == "three":
                with open(w + "/third.c", "w") as f:
                    f.write("int third;\n")
                files.insert(1, "third.c")
        elif mode == "twodash":
            files, stdin = files + ["-"], aux.encode()
        elif mode == "obj":
            r = proc.run([ctx.b.cjit, "-q", "-c", shown, "-o", "m.o"], cwd=w)
            if name.endswith((".c", ".cc", ".C", ".cxx")) and r.rc != 0:
                return Fail("cjit -c failed: %r" % r)
            files = ["m.o"]
        cmd = [o for o, p in opts if p == 0] + files[:1] + [o for o, p in opts if p == 1] + files[1:] + [o for o, p in opts if p == 2]
        if pid:
            if os.path.exists(w + "/pidfile"):
                os.unlink(w + "/pidfile")
            cmd = ["-p", "pidfile"] + cmd
        cmd = [os.fsencode(x) for x in [ctx.b.cjit] + cmd]
        if sep:
            cmd += [b"--"] + list(args)
        e = proc.base_env()
        if env is not None:
            e["VF_E"] = env
        r = proc.run(cmd, cwd=w, input=stdin if stdin is not None else b"", env=e, timeout=20)
        exp = [b"argc:" + str(len(args) + 1).encode().hex().encode()] + [b"arg:" + a.hex().encode() for a in args] + [b"term:"]
        exp.append(b"env:" + (b"unset" if env is None else env.encode()).hex().encode())
        exp.append(b"secret:")
        if indata is not None:
            exp.append(b"in:" + indata.hex().encode())
        lines = r.out.split(b"\n")
        last = {"atexit": b"atexit", "noflush": b"tail"}.get(how, b"")
        n = len(exp)
        bad = None
        if r.timeout:
            bad = "does not end"
        elif lines[:n] != exp:
            k = next((i for i in range(n) if i >= len(lines) or lines[i] != exp[i]), 0)
            bad = "the program reports %r, given %r" % (lines[k][:200] if k < len(lines) else None, exp[k][:200])
        elif len(lines) != n + 3 or not lines[n].startswith(b"pid:") or lines[n + 1] != b"cwd:" + w.encode().hex().encode() or lines[n + 2] != last:
            bad = "standard output ends with %r, expected pid, cwd and %r" % (lines[n:][:6], last)
        elif r.rc != code % 256:
            bad = "exit status %d, the program ended with %d" % (r.rc, code)
        elif not r.err.endswith(err) or (err and r.err.count(err) < 1):
            bad = "standard error %r does not end with %r" % (r.err[-200:], err)
        elif pid:
            try:
                got = open(w + "/pidfile").read().strip()
            except OSError as ex:
                got = str(ex)
            mine = bytes.fromhex(lines[n][4:].decode()).decode()
            if got != mine:
                bad = "the pid file holds %r, the program runs as %s" % (got, mine)
        if not bad:
            return None
        return Fail("%s; command: %r; exit %s; stderr %r" % (bad, cmd[1:], r.rc, r.err[:300]))


class C(Check):
    id = "A01"
    parts = [Pass()]
    assumptions = ["arguments hold no NUL byte (none can)", "argv[0] is not judged"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch)
        ctx.work = Work(ctx.scratch)


CHECK = C()
