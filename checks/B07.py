"""B07: -l NAME resolves to the file the search order selects."""
import os, shutil
from vf import build, cbatch, proc
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

NAMES = ["one", "t-2", "plus+x", "v1.5", "a_b", "Z9"]
COPIES = 7
DIRS = ["d0", "d1", "d2/sub", "d 3", "d4.so", "e" * 120 + "/" + "f" * 120]


def fam(n):
    return NAMES.index(n)


class Search(Prop):
    name = "search"
    rule = ("one cjit run per case: up to six directories with libNAME.so as a file, a chain of relative and absolute links, a dangling or looping link, a folder, a linker script (INPUT, GROUP, AS_NEEDED, OUTPUT_FORMAT, comments; absolute and relative names and -lNAME) "
            "or versioned names only; 0-6 -L options (relative, absolute, repeated, missing) and 1-5 -l options and files named directly; the program calls what should be there and reports which of 42 marker libraries are loaded; "
            "oracle: a model of the search; non-trivial = a name that is found in more than one directory, through a link or through a script")
    batch = 10
    quick_n, quick_secs = 9000, 50
    thorough_n, thorough_secs = 300000, 500

    def gen(self, d):
        dirs = DIRS[:2 + d.draw(len(DIRS) - 1)]
        nodes = {}          # (dir index | -1 the current folder, file name) -> what
        for i in range(len(dirs)):
            for n in NAMES[:2 + d.draw(5)]:
                if d.draw(5) < 2:
                    nodes[i, "lib%s.so" % n] = self.what(d, len(dirs), n, i)
            if d.draw(4) == 3:
                n = d.pick(NAMES)
                nodes[i, "lib%s.so.%d" % (n, 1 + d.draw(3))] = ("file", fam(n), d.draw(COPIES))
        if d.draw(3) == 2:
            n = d.pick(NAMES[:3])
            nodes[-1, "lib%s.so" % n] = self.what(d, len(dirs), n, -1)
        opts = []
        for _ in range(d.draw(7)):
            opts.append(("L", d.draw(len(dirs)) if d.draw(8) else -2, d.draw(6), d.draw(2)))
        names = NAMES[:2 + d.draw(5)]
        for _ in range(1 + d.draw(5)):
            if d.draw(6) == 5:
                fs = [k for k in sorted(nodes) if nodes[k][0] in ("file", "link")]
                if fs:
                    opts.append(("f", d.pick(fs), d.draw(2)))
                    continue
            opts.append(("l", d.pick(names), d.draw(2)))
        opts = d.shuffle(opts) or opts
        return {"dirs": dirs, "nodes": sorted((list(k), list(v)) for k, v in nodes.items()), "opts": [list(o) for o in opts], "at": d.draw(len(opts) + 1), "missing_ref": d.draw(4) == 3}

    def what(self, d, nd, n, where):
        k = d.wpick([(5, "file"), (4, "link"), (3, "script"), (1, "dangling"), (1, "dir"), (1, "loop"), (1, "junk")])
        d.label(k)
        if k == "file":
            return ("file", fam(n), d.draw(COPIES))
        if k == "link":
            return ("link", fam(n), d.draw(COPIES), [(d.draw(nd), d.draw(3)) for _ in range(1 + d.draw(4))])
        if k == "script":
            items = self.items(d, nd, n, 0)
            if d.draw(5) == 4:
                return ("script", items + self.items(d, nd, n, 0), d.draw(8))
            return ("script", items, d.draw(8))
        return (k,)

    def items(self, d, nd, n, deep):
        """one INPUT or GROUP"""
        l = []
        for _ in range(1 + d.draw(4)):
            k = d.draw(5 if deep else 6)
            m = d.pick([x for x in NAMES if x != n])
            if k < 2:
                l.append(["abs", fam(m if d.draw(3) else n), d.draw(COPIES)])
            elif k == 2:
                l.append(["lib", m])
            elif k == 3:
                l.append(["rel", "lib%s.so" % m if d.draw(2) else "lib%s.so.%d" % (m, 1 + d.draw(3))])
            elif k == 4:
                l.append(["none", d.draw(2)] if d.draw(6) == 5 else ["link", fam(m), d.draw(COPIES)])
            else:
                l.append(["as", self.items(d, nd, n, 1)[0][1]])
        return [[d.pick(["INPUT", "GROUP"]), l, d.draw(3)]]

    def nontrivial(self, c, d):
        try:
            return self.model(c)[2]
        except Discard:
            return False

    def show(self, c):
        return repr({k: v for k, v in c.items()})

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    # ---- building the tree
    def text(self, c, items, style, w):
        sp = ["", " ", "\n\t "][style % 3]

        def lst(l, comma):
            out = []
            for it in l:
                if it[0] == "abs":
                    out.append("%s/store/%d.%d" % (w, it[1], it[2]))
                elif it[0] == "link":
                    out.append("%s/store/l%d.%d" % (w, it[1], it[2]))
                elif it[0] == "lib":
                    out.append("-l" + it[1])
                elif it[0] == "rel":
                    out.append(it[1])
                elif it[0] == "none":
                    out.append("%s/store/absent.so" % w if it[1] else "libabsent.so")
                else:
                    out.append("AS_NEEDED%s(%s %s )" % (sp, sp, lst(it[1], 0)))
            return (" , " if comma else sp + " ").join(out)
        t = ""
        if style & 1:
            t += "/* GNU ld script\n   Use the shared library, but some * functions / are in\n   the static library, so try that secondarily.  **/\n"
        if style & 2:
            t += "OUTPUT_FORMAT(elf64-x86-64)\n"
        for cmd, l, s in items:
            t += "%s%s(%s%s %s)%s" % (cmd, sp, sp, lst(l, s == 2), sp, "\n" if not style & 4 else " ")
            if style & 4:
                t += "/* end */"
        return t

    def build(self, c, ctx, w):
        for dn in c["dirs"]:
            os.makedirs(os.path.join(w, dn))
        os.symlink(ctx.store, w + "/store")
        for (i, fn), what in c["nodes"]:
            p = os.path.join(w, c["dirs"][i] if i >= 0 else ".", fn)
            k = what[0]
            if k == "file":
                shutil.copy("%s/%d.%d" % (ctx.store, what[1], what[2]), p)
            elif k == "link":
                # p -> hop -> hop -> the file
                tgt = "%s/store/%d.%d" % (w, what[1], what[2])
                for j, (dn, how) in enumerate(what[3]):
                    h = os.path.join(w, c["dirs"][dn], ".hop-%d-%s-%d" % (i, fn, j))
                    src = h if j + 1 < len(what[3]) else p
                    os.symlink(tgt if how == 0 else os.path.relpath(tgt, os.path.dirname(os.path.realpath(os.path.dirname(src)) + "/x")), src)
                    tgt = src
            elif k == "dangling":
                os.symlink("nowhere.so", p)
            elif k == "loop":
                os.symlink(os.path.basename(p), p)
            elif k == "dir":
                os.mkdir(p)
            elif k == "junk":
                with open(p, "w") as f:
                    f.write("this is not a library at all\n")
            else:
                with open(p, "w") as f:
                    f.write(self.text(c, what[1], what[2], w))

    # ---- the model
    def model(self, c):
        """-> marker libraries in load order, names not found"""
        nodes = {tuple(k): v for k, v in c["nodes"]}
        path = [o[1] for o in c["opts"] if o[0] == "L" and o[1] >= 0] + [-1]
        loaded, lost, nt = [], [], []

        def reg(what):
            return what and what[0] in ("file", "link", "script", "junk")

        def find(fn):
            hits = [i for i in path if reg(nodes.get((i, fn)))]
            if len(set(hits)) > 1:
                nt.append(1)
            return hits[0] if hits else None

        def use(what, deep):
            if what[0] in ("file", "link"):
                loaded.append((what[1], what[2]))
                if what[0] == "link":
                    nt.append(1)
            elif what[0] == "junk":
                if deep:
                    raise Discard()     # neither a library nor a script of the outer level: refused at link time
                lost.append(None)
            else:
                if deep:
                    raise Discard()
                nt.append(1)
                for cmd, l, s in what[1]:
                    walk(l)

        def walk(l):
            for it in l:
                if it[0] in ("abs", "link"):
                    loaded.append((it[1], it[2]))
                elif it[0] in ("lib", "rel"):
                    fn = it[1] if it[0] == "rel" else "lib%s.so" % it[1]
                    i = find(fn)
                    if i is None:
                        lost.append(fn)
                    else:
                        use(nodes[i, fn], True)
                elif it[0] == "none":
                    lost.append("absent.so")
                else:
                    walk(it[1])
        direct = []
        for o in c["opts"]:
            if o[0] == "f":
                what = nodes[tuple(o[1])]
                direct.append((what[1], what[2]))
        for o in c["opts"]:
            if o[0] == "l":
                i = find("lib%s.so" % o[1])
                if i is None:
                    lost.append("lib%s" % o[1])
                else:
                    use(nodes[i, "lib%s.so" % o[1]], False)
        return direct + loaded, lost, bool(nt)

    def one(self, c, ctx):
        try:
            loaded, lost, _ = self.model(c)
        except Discard:
            return None
        w = ctx.work.path("b")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        w = os.path.realpath(w)
        self.build(c, ctx, w)
        first = {}
        for f, k in loaded:
            first.setdefault(f, k)
        absent = [f for f in range(len(NAMES)) if f not in first]
        ref = c["missing_ref"] and absent and absent[0]
        src = "#include <stdio.h>\n#define _GNU_SOURCE\nvoid *dlsym(void *, const char *);\n" + "".join("int id_%d(void);\n" % f for f in first)
        if c["missing_ref"] and absent:
            src += "int id_%d(void);\n" % ref
        src += "int who(void);\nint main(void) {\n" + "".join("printf(\"%d=%%d\\n\", id_%d());\n" % (f, f) for f in sorted(first))
        if c["missing_ref"] and absent:
            src += "printf(\"%%d\\n\", id_%d());\n" % ref
        if loaded:
            src += "printf(\"first %d\\n\", who());\n"
        src += "for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) { char b[30]; sprintf(b, \"m_%%d_%%d\", i, j); if (dlsym(0, b)) printf(\"loaded %%d.%%d\\n\", i, j); }\nreturn 7; }\n" % (len(NAMES), COPIES)
        with open(w + "/p.c", "w") as f:
            f.write(src)
        words = []
        for j, o in enumerate(c["opts"]):
            if j == c["at"]:
                words.append("p.c")
            if o[0] == "L":
                p = c["dirs"][o[1]] if o[1] >= 0 else "no-such-dir"
                p = [p, "./" + p, w + "/" + p, p + "/", "d0/../" + p, w + "//" + p + "/."][o[2]]
                words += ["-L", p] if o[3] else ["-L" + p]
            elif o[0] == "l":
                words += ["-l", o[1]] if o[2] else ["-l" + o[1]]
            else:
                i, fn = o[1]
                p = os.path.join(c["dirs"][i] if i >= 0 else ".", fn)
                words.append(p if o[2] else w + "/" + p)
        if "p.c" not in words:
            words.append("p.c")
        r = proc.run([ctx.b.cjit] + words, cwd=w, timeout=30)
        out = r.out.decode("latin-1")
        err = r.err.decode("latin-1")
        said = "cjit %s\nstatus %s\n%s\n%s\n%s" % (words, r.rc, out, err, src)
        if r.timeout or r.rc < 0:
            return Fail("did not end normally: " + said)
        for n in lost:
            if not err.strip() or n and n not in err:
                return Fail("nothing on stderr about %s: %s" % (n, said))
        if c["missing_ref"] and absent:
            if r.rc == 0 or out:
                return Fail("ran although id_%d is nowhere: %s" % (ref, said))
            return None
        want = ["%d=%d" % (f, first[f]) for f in sorted(first)]
        if loaded:
            want.append("first %d" % (loaded[0][0] * 10 + loaded[0][1]))
        want += ["loaded %d.%d" % x for x in sorted(set(loaded))]
        if r.rc != 7 or out.split("\n")[:-1] != want:
            return Fail("expected %s: %s" % (want, said))
        return None


class C(Check):
    id = "B07"
    parts = [Search()]
    assumptions = ["the system's own library folders have no library of the generated names"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)
        ctx.store = os.path.join(ctx.scratch, "store")
        os.mkdir(ctx.store)
        for f in range(len(NAMES)):
            for k in range(COPIES):
                s = os.path.join(ctx.store, "s.c")
                with open(s, "w") as h:
                    h.write("int id_%d(void) { return %d; }\nint who(void) { return %d; }\nint m_%d_%d(void) { return 1; }\n" % (f, k, f * 10 + k, f, k))
                build.sh(["gcc", "-shared", "-fPIC", "-O1", "-nostdlib", s, "-o", "%s/%d.%d" % (ctx.store, f, k)])
                os.symlink("%d.%d" % (f, k), "%s/l%d.%d" % (ctx.store, f, k))


CHECK = C()
