"""C08: one program, every way of giving it to cjit and of emitting it."""
import os, re, shutil
from vf import build, proc, mtu
from vf.cbatch import Work
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

NAMES = ["m.c", "a b.c", "it's.c", "q\"uote.c", "m.x.c", "caf\u00e9.c", "p$HOME.c", "back\\slash.c", "per%cent.c", "sub dir/m.c", "d.d/m.c", "./d.d/../m.c", "semi;colon.c", "star*.c", "n\u4e2d.c", "tab\tx.c",
         "x" * 100 + ".c", "#h.c", "a,b.c", "(p).c", "lib.so.c", "a.o.c", "-.c"]


def comment(d, n):
    """a comment of about n bytes"""
    k = d.draw(4)
    if k == 0:
        return "/*" + "*" * n + "*/"
    if k == 1:
        return "/* " + "x y 'z \"" * (n // 8) + " */"
    if k == 2:
        return "// " + "long line " * (n // 10) + "\n"
    return "\n" * min(n, 3000) + " " * n


def edit(d, text, marks=True):
    """the same program in other clothes"""
    toks = None
    if d.chance(1, 3):
        # comments, blank lines and splices between lines
        lines = text.split("\n")
        for _ in range(d.draw(6)):
            i = d.draw(len(lines))
            if lines[i].startswith("#") or (i and lines[i - 1].endswith("\\")):
                continue
            k = d.draw(5)
            if k == 0:
                lines[i] = comment(d, d.pick([10, 100, 1000, 8190, 8191, 8192, 8193, 20000, 70000])) + lines[i]
            elif k == 1:
                lines[i] = "\t \f\v" * d.int(1, 5) + lines[i]
            elif k == 2:
                # a splice at a place between tokens outside of strings
                m = [x for x in re.finditer(r" ", lines[i])]
                if m and '"' not in lines[i] and "__LINE__" not in lines[i] and "//" not in lines[i]:
                    p = d.pick(m).start()
                    lines[i] = lines[i][:p] + d.pick(["\\\n", " \\\n\\\n "]) + lines[i][p:]
            elif k == 3:
                lines[i] += " " * d.pick([1, 500, 9000])
            else:
                lines[i] = "#if 0\n" + d.pick(["'", "#error\n/* */", "\"", "#else"]) .replace("#else", "") + "\n#endif\n" + lines[i]
        text = "\n".join(lines)
    # put the program at a distance from the start of the file, so that any token may meet a buffer boundary
    if d.chance(1, 2):
        n = d.wpick([(2, d.draw(300)), (3, 8192 - d.draw(1200)), (2, 16384 - d.draw(1200))])
        k = d.draw(3)
        text = ("/*" + "-" * n + "*/ " if k == 0 else " " * n if k == 1 else "//" + "-" * n + "\n") + text
    if d.chance(1, 8):
        # everything on as few lines as the language allows
        text = "\n".join(l if l.startswith("#") or "//" in l or l.endswith("\\") else l for l in text.split("\n"))
        text = re.sub(r";\n(?!#)", ";", re.sub(r"\{\n(?!#)", "{", text)) if "//" not in text and "\\\n" not in text else text
    end = d.draw(5)
    if end == 1:
        text = text.rstrip("\n")
    elif end == 2:
        text += "\n" * d.pick([1, 5000])
    elif end == 3:
        text = text.rstrip("\n") + " // no newline at the end"
    elif end == 4:
        text = text.rstrip("\n") + "/* */"
    if d.chance(1, 5):
        text = text.replace("\n", "\r\n")
    return text


def lines_of(text):
    """tag -> line, as a C compiler counts"""
    out = {}
    for n, l in enumerate(text.split("\n"), 1):
        for m in re.finditer(r"__LINE__; /\*@(\d+-\d+)@\*/", l):
            out[m.group(1)] = n
    return out


class Modes(Prop):
    name = "modes"
    rule = ("programs of 1-4 modules (shared globals, arrays, structs, cross-module pointers and function tables, statics of the same name, varargs, structures by value, floats, libc functions and their addresses, "
            "atexit, exit) whose output a model knows, delivered in 4 of 12 ways: files in any order, merged, standard input (whole or one module), objects from -c, files mixed with objects, -o from sources or "
            "objects, objects linked by gcc, libtcc as files/strings/tcc_run; odd file names and paths, CRLF, no final newline, tokens at buffer boundaries, long and many lines; non-trivial = all")
    batch = 8
    quick_n, quick_secs = 4000, 45
    thorough_n, thorough_secs = 100000, 700

    def gen(self, d):
        nm = d.wpick([(2, 1), (3, 2), (3, 3), (2, 4)])
        p = mtu.gen(d, nm)
        hdr = d.chance(1, 3)
        w = mtu.Writer(p, False, hdr)
        parts = [edit(d, w.module(m)) for m in range(nm)]
        merged = edit(d, mtu.Writer(p, True, hdr).module(0))
        names = []
        for m in range(nm):
            n = d.pick(NAMES) if d.chance(1, 2) else "m%d.c" % m
            if n in names or os.path.normpath(n) in [os.path.normpath(x) for x in names] or (n.startswith("-") or False):
                n = "m%d.c" % m
            names.append(n)
        order = d.shuffle(range(nm))
        modes = d.sample(["files", "merged", "stdin", "stdin1", "objs", "mixed", "o", "oobjs", "gccld", "lf", "ls", "lr", "lo", "tccrun"], 4)
        for m in modes:
            d.label("mode:" + m)
        return (p, tuple(parts), merged, tuple(names), tuple(order), tuple(modes), hdr, d.draw(3), d.draw(1 << 16))

    def show(self, c):
        return {"names": c[3], "order": c[4], "modes": c[5], "cwd": c[7], "text": [t if len(t) < 6000 else t[:200] + " ... " + t[-5000:] for t in c[1]]}

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        p, parts, merged, names, order, modes, hdr, cwdmode, salt = c
        w = os.path.realpath(ctx.work.path("f"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + "/d.d")
        os.makedirs(w + "/sub dir")
        os.makedirs(w + "/other")
        try:
            exp_parts = mtu.Model(p, {k: v for t in parts for k, v in lines_of(t).items()}).run()
            exp_merged = mtu.Model(p, lines_of(merged)).run()
        except Discard:
            return Discard()
        for n, t in zip(names, parts):
            open(os.path.join(w, n), "w", encoding="utf-8", newline="").write(t)
        open(w + "/merged.c", "w", encoding="utf-8", newline="").write(merged)
        if hdr:
            for d in ("", "/d.d", "/sub dir"):
                open(w + d + "/common.h", "w").write(mtu.HELP)
        # where cjit is started, and the paths as seen from there
        cwd = [w, w + "/other", "/"][cwdmode]
        rel = ["", "../", w + "/"][cwdmode]
        fn = [rel + n for n in names]
        cj = [ctx.b.cjit, "-q", "-lm"]
        done = {}

        def objs(which, compiler="cjit"):
            out = []
            for i in which:
                o = os.path.join(w, "o%d.o" % i)
                if i not in done:
                    if compiler == "cjit":
                        r = proc.run(cj + ["-c", fn[i], "-o", o], cwd=cwd)
                    if r.rc != 0 or not os.path.exists(o):
                        raise Exception("-c %r: exit %s %r" % (fn[i], r.rc, r.err[-300:]))
                    done[i] = o
                out.append(o)
            return out
        res = []
        for mode in modes:
            exp = exp_parts
            try:
                if mode == "files":
                    r = proc.run(cj + [fn[i] for i in order], cwd=cwd)
                elif mode == "merged":
                    exp = exp_merged
                    r = proc.run(cj + [rel + "merged.c"], cwd=cwd)
                elif mode == "stdin":
                    exp = exp_merged
                    r = proc.run(cj + (["-"] if salt & 1 else []), cwd=w, input=merged.encode("utf-8"))
                elif mode == "stdin1":
                    k = salt % len(order)
                    r = proc.run(cj + ["-" if i == order[k] else (names[i]) for i in order], cwd=w, input=parts[order[k]].encode("utf-8"))
                elif mode == "objs":
                    r = proc.run(cj + objs(order), cwd=cwd)
                elif mode == "mixed":
                    r = proc.run(cj + [objs([i])[0] if salt >> i & 1 else fn[i] for i in order], cwd=cwd)
                elif mode in ("o", "oobjs"):
                    exe = os.path.join(w, "out.x")
                    b = proc.run(cj + ([] if salt & 1 else ["-o", exe]) + ([fn[i] for i in order] if mode == "o" else objs(order)) + (["-o", exe] if salt & 1 else []), cwd=cwd)
                    if b.rc != 0:
                        raise Exception("making an executable: exit %s %r" % (b.rc, b.err[-300:]))
                    r = proc.run([exe], cwd=cwd)
                    os.unlink(exe)
                elif mode == "gccld":
                    exe = os.path.join(w, "gcc.x")
                    b = proc.run(["gcc", "-no-pie" if salt & 1 else "-pie", "-w", "-o", exe] + objs(order) + [ctx.b.tccdir + "/libtcc1.a", "-lm"], cwd=cwd)
                    if b.rc != 0:
                        raise Exception("gcc cannot link the objects: %r" % b.err[-400:])
                    r = proc.run([exe], cwd=cwd)
                elif mode in ("lf", "ls", "lr", "lo"):
                    files = [os.path.join(w, names[i]) for i in order] if mode != "lo" else [objs([i])[0] if salt >> i & 1 else os.path.join(w, names[i]) for i in order]
                    r = proc.run([ctx.tccrun, ctx.b.tccdir, {"lf": "f", "ls": "s", "lr": "r", "lo": "f"}[mode]] + files, cwd=w)
                elif mode == "tccrun":
                    exp = exp_merged
                    r = proc.run([ctx.b.tcc, "-B" + ctx.b.tccdir, "-lm", "-run", os.path.join(w, "merged.c")], cwd=w)
            except Exception as e:
                res.append((mode, str(e)))
                continue
            got = (r.out, r.rc)
            if got != exp or r.timeout:
                res.append((mode, "exit %s stdout %r stderr %r; expected exit %s stdout %r" % (r.rc, r.out[-300:], r.err[-500:], exp[1], exp[0][-300:])))
        if not res:
            return None
        # is the model right?
        exe = os.path.join(w, "ref.x")
        for fl in (["-O0"], ["-O1", "-fsanitize=address,undefined"]):
            b = proc.run(["gcc", "-w", "-std=gnu11", "-fno-builtin", "-I" + w] + fl + ["-o", exe] + ["-x", "c"] + [os.path.join(w, names[i]) for i in range(len(names))] + ["-x", "none", "-lm"], timeout=60, fsize=1 << 30)
            if b.rc != 0:
                return Discard() if not os.environ.get("VF_DEBUG") else Fail("gcc: %r" % b.err[-600:])
            r = proc.run([exe])
            if (r.out, r.rc) != exp_parts:
                return Discard() if not os.environ.get("VF_DEBUG") else Fail("model: %r %r %r" % (r, exp_parts, res))
        return Fail("; ".join("%s: %s" % x for x in res))


class C(Check):
    id = "C08"
    parts = [Modes()]
    assumptions = ["the model of the generated programs is confirmed by gcc with sanitizers for every case reported"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch)
        ctx.work = Work(ctx.scratch)
        ctx.tccrun = os.path.join(ctx.scratch, "tccrun")
        build.sh(["gcc", "-O1", "-w", "-I" + ctx.b.tccdir, "-o", ctx.tccrun, os.path.join(build.HERE, "harness/tccrun.c"), ctx.b.libtcc, "-lm", "-ldl", "-lpthread"])


CHECK = C()
