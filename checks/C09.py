"""C09: symbol resolution and linking against the system linker."""
import os, re, shutil
from vf import build, proc, mtu
from vf.cbatch import Work, canary
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

# role of a symbol in a module
ROLES = ["none", "ref", "strong", "weak", "static", "weakref", "common", "hidden", "alias", "weakalias"]


class Bind(Prop):
    name = "bind"
    rule = ("2-7 modules that define (strong, weak, common, hidden, alias, static), refer to or weakly refer to shared function and data symbols; each compiled by cjit on the fly, by cjit -c or "
            "by gcc (several options) and given directly, in an archive or in a shared library; run, or linked to an executable by cjit or by gcc from cjit's objects; what every module sees through "
            "calls, addresses and initialised pointers, which archive members were taken and the order of constructors, or the failure to link, compared with gcc and ld on the same arrangement; "
            "non-trivial = some symbol has two definitions, or an archive or shared library takes part")
    quick_n, quick_secs = 4000, 60
    thorough_n, thorough_secs = 60000, 500
    batch = 4
    shrink_evals = 300

    def gen(self, d):
        ns = d.int(1, 6)
        nm = d.int(1, 6) + 1
        syms = [d.pick("fd") for _ in range(ns)]
        mods = []
        for j in range(nm):
            place = "obj" if j == 0 else d.wpick([(6, "obj"), (3, "ar"), (1, "so")])
            prod = d.pick(["src", "src", "cjit", "gcc", "gcc -O2", "gcc -fPIC -O1", "gcc -fno-pie -O2", "gcc -fcommon", "gcc -ffunction-sections -fdata-sections -O2", "gcc -fPIC -fno-plt"])
            if place == "ar" and prod == "src":
                prod = "cjit"
            if place == "so":
                prod = "gcc -fPIC"
            mods.append({"place": place, "prod": prod, "ar": d.draw(2), "roles": [], "ctor": d.draw(8), "tab": d.draw(2), "order": d.draw(2)})
        dup = d.draw(8) == 0
        for k in range(ns):
            strong, so = None, None
            nonstatic = 0
            for m in mods:
                r = d.wpick([(6, "none"), (6, "ref"), (3, "strong"), (3, "weak"), (2, "static"), (2, "weakref"), (2, "common"), (1, "hidden"), (1, "alias"), (1, "weakalias")])
                if r in ("strong", "alias", "hidden"):
                    if strong is not None and not (dup and d.draw(2)):
                        r = "ref"
                    else:
                        strong = m
                if r == "common" and (syms[k] != "d" or m["prod"] != "gcc -fcommon"):
                    r = "weak"
                if m["place"] == "so" and r == "hidden":
                    r = "strong"
                if r in ("alias", "weakalias") and syms[k] == "d":
                    r = {"alias": "strong", "weakalias": "weak"}[r]
                m["roles"].append(r)
        # shared libraries only use what they define, and nobody else defines that: interposition is the loader's business
        for k in range(ns):
            if any(m["place"] == "so" and m["roles"][k] in ("strong", "weak", "common", "alias", "weakalias") for m in mods):
                first = True
                for m in mods:
                    r = m["roles"][k]
                    if m["place"] == "so":
                        if r not in ("none", "static"):
                            m["roles"][k] = r if first and r not in ("ref", "weakref") else "none"
                            first = first and m["roles"][k] == "none"
                    elif r not in ("none", "static", "weakref"):
                        m["roles"][k] = "ref"
            for m in mods:
                if m["place"] == "so" and m["roles"][k] in ("ref", "weakref"):
                    m["roles"][k] = "none"
        mode = d.pick(["run", "run", "run", "exe", "gccld"])
        # code that is not position independent reaches data of a shared library only when an executable is linked (see the known finding)
        if mode == "run":
            for k in range(ns):
                if syms[k] == "d" and any(m["place"] == "so" and m["roles"][k] not in ("none", "static") for m in mods):
                    for m in mods:
                        if m["place"] != "so" and m["roles"][k] != "none" and m["prod"].startswith("gcc") and "-fPIC" not in m["prod"]:
                            m["roles"][k] = "none"
        # a second definition with hidden visibility goes unnoticed (see the known finding)
        for k in range(ns):
            st = [m for m in mods if m["roles"][k] in ("strong", "alias", "hidden")]
            if len(st) > 1:
                for m in st:
                    if m["roles"][k] == "hidden":
                        m["roles"][k] = "strong"
        # whether a member is extracted for the sake of a common symbol is up to the linker
        for k in range(ns):
            if any(m["roles"][k] == "common" for m in mods):
                for m in mods:
                    if m["place"] == "ar" and m["roles"][k] in ("strong", "weak", "common", "hidden", "alias", "weakalias"):
                        m["roles"][k] = "ref"
        # most references find something
        for k in range(ns):
            if not any(m["roles"][k] in ("strong", "weak", "common", "hidden", "alias", "weakalias") for m in mods) and any(m["roles"][k] == "ref" for m in mods) and d.draw(6):
                for m in mods:
                    if m["place"] != "so":
                        m["roles"][k] = "strong"
                        break
        order = d.shuffle(list(range(1, nm)))
        order.insert(d.draw(2) * d.draw(len(order) + 1), 0)
        return {"syms": syms, "mods": mods, "order": order, "late": d.draw(4) > 0, "mode": mode, "extra": d.draw(4) == 0}

    def nontrivial(self, c, d):
        if any(m["place"] != "obj" for m in c["mods"]):
            return True
        return any(sum(m["roles"][k] not in ("none", "ref", "weakref", "static") for m in c["mods"]) >= 2 for k in range(len(c["syms"])))

    # ---------------------------------------------------------------- texts
    def module(self, c, j):
        m = c["mods"][j]
        o = ["int printf(const char *, ...);\n"]
        if j:
            o.append("typedef void rep_t(int, int, int, const volatile void *);\n")
        reps = []
        tab = []
        defs = []
        for k, t in enumerate(c["syms"]):
            r = m["roles"][k]
            if r == "none":
                continue
            idv = 1000 + j * 100 + k
            n = "s%d" % k
            at = {"weak": " __attribute__((weak))", "hidden": " __attribute__((visibility(\"hidden\")))", "weakref": " __attribute__((weak))"}.get(r, "")
            st = "static " if r == "static" else ""
            if t == "f":
                if r in ("ref", "weakref"):
                    o.append("extern int %s(void)%s;\n" % (n, at))
                elif r in ("alias", "weakalias"):
                    o.append("%sint al%d_%d(void) { return %d; }\nextern int %s(void) __attribute__((%salias(\"al%d_%d\")));\n" % ("static " if m["order"] else "", j, k, idv, n, "weak, " if r == "weakalias" else "", j, k))
                else:
                    o.append("%sint %s(void)%s;\n" % (st, n, at))
                    defs.append("%sint %s(void) { return %d; }\n" % (st, n, idv))
                call = "(&%s ? %s() : -1)" % (n, n) if r == "weakref" else "%s()" % n
                reps.append("rep(%d, %d, %s, (const volatile void *)&%s);" % (j, k, call, n))
            else:
                if r in ("ref", "weakref"):
                    o.append("extern volatile int %s[2]%s;\n" % (n, at))
                elif r == "common":
                    o.append("volatile int %s[2];\n" % n)
                else:
                    if not st:
                        o.append("extern volatile int %s[2]%s;\n" % (n, at))
                    defs.append("%svolatile int %s[2]%s = {%d, %d};\n" % (st, n, "" if r != "static" else "", idv, idv + 50))
                    if st:
                        o.append(defs.pop())
                reps.append("if (&%s) { rep(%d, %d, %s[0], &%s); rep(%d, %d, %s[1], &%s[1]); %s[0] += 7; } else rep(%d, %d, -1, 0);" % (n, j, k, n, n, j, k, n, n, n, j, k) if r == "weakref" else
                            "rep(%d, %d, %s[0], &%s); rep(%d, %d, %s[1], &%s[1]); %s[0] += 7;" % (j, k, n, n, j, k, n, n, n))
            if m["tab"]:
                off = "&%s[1]" % n if t == "d" and k % 2 else "&%s" % n
                tab.append("(const volatile void *)%s" % off)
                reps.append("rep(%d, %d, %d, tab[%d]);" % (j, k, 90 + k, len(tab) - 1))
        if m["order"]:
            o += defs
            defs = []
        if tab:
            o.append("static const volatile void *%stab[] = { %s };\n" % ("const " if c["extra"] and m["prod"] != "gcc -fno-pie -O2" else "", ", ".join(tab)))
        if m["ctor"] == 1 and m["place"] != "so":
            o.append("extern volatile int ctor_log;\n__attribute__((constructor)) static void ctor_%d(void) { ctor_log = ctor_log * 10 + %d; }\n" % (j, j))
            o.append("__attribute__((destructor)) static void dtor_%d(void) { printf(\"dtor %d\\n\"); }\n" % (j, j))
        if j:
            o.append("void probe_%d(rep_t *rep) {\n  %s\n}\n" % (j, "\n  ".join(reps)))
        else:
            o.append("volatile int ctor_log = 0;\nstatic const volatile void *seen[400]; static int nseen;\n"
                     "static void rep(int j, int k, int v, const volatile void *p) { int i; for (i = 0; i < nseen && seen[i] != p; i++); if (i == nseen) seen[nseen++] = p; printf(\"%d.s%d=%d@%d%s\\n\", j, k, v, i, p ? \"\" : \" null\"); }\n"
                     "typedef void rep_t(int, int, int, const volatile void *);\n")
            main = []
            for q, mm in enumerate(c["mods"]):
                if not q:
                    continue
                w = mm["place"] == "ar"
                o.append("extern void probe_%d(rep_t *)%s;\n" % (q, " __attribute__((weak))" if w else ""))
                main.append("if (&probe_%d) probe_%d(rep); else printf(\"no %d\\n\");" % (q, q, q) if w else "probe_%d(rep);" % q)
            o.append("int main(void) {\n  printf(\"ctors %%d\\n\", ctor_log);\n  %s\n  %s\n  return 0;\n}\n" % ("\n  ".join(reps), "\n  ".join(main * 2)))
        return "".join(o + defs)

    # ---------------------------------------------------------------- builds
    def compile(self, ctx, w, j, m, ref):
        """-> the file name"""
        src = "m%d.c" % j
        prod = m["prod"]
        if prod == "src" and not ref:
            return src
        if prod in ("src", "cjit") and ref:
            cmd = ["gcc", "-w", "-O0", "-fno-common", "-c", src, "-o", "r%d.o" % j]
            out = "r%d.o" % j
        elif prod == "cjit":
            out = "t%d.o" % j
            cmd = [ctx.b.cjit, "-q", "-c", src, "-o", out]
        else:
            out = "g%d.o" % j
            if os.path.exists(os.path.join(w, out)):
                return out
            fl = prod.split()[1:]
            cmd = ["gcc", "-w", "-fno-asynchronous-unwind-tables"] + fl + (["-fno-common"] if "-fcommon" not in fl else []) + ["-c", src, "-o", out]
        r = proc.run(cmd, cwd=w, timeout=30)
        if r.rc:
            raise Bad("%s: %s" % (" ".join(cmd), r.err.decode("utf-8", "replace")[:400]))
        return out

    def arrange(self, ctx, c, w, ref):
        """the files in command line order"""
        files = {}
        for j, m in enumerate(c["mods"]):
            files[j] = self.compile(ctx, w, j, m, ref)
        res, ars, so = [], {0: [], 1: []}, []
        for j in c["order"]:
            m = c["mods"][j]
            if m["place"] == "ar":
                ars[m["ar"]].append(files[j])
                if len(ars[m["ar"]]) == 1 and not c["late"]:
                    res.append(("ar", m["ar"]))
            elif m["place"] == "so":
                so.append(files[j])
            else:
                res.append(files[j])
        if c["late"]:
            res += [("ar", i) for i in (0, 1) if ars[i]]
        out = []
        for r in res:
            if isinstance(r, tuple):
                name = "lib%s%d.a" % ("r" if ref else "t", r[1])
                p = proc.run(["ar", "rcs", name] + ars[r[1]], cwd=w)
                if p.rc:
                    raise Exception("ar: %s" % p.err)
                out.append(name)
            else:
                out.append(r)
        if so:
            if not os.path.exists(os.path.join(w, "libso.so")):
                p = proc.run(["gcc", "-shared", "-o", "libso.so"] + so, cwd=w)
                if p.rc:
                    raise Bad("shared: " + p.err.decode("utf-8", "replace")[:300])
            out.append("./libso.so")
        return out

    def run1(self, c, ctx):
        w = os.path.realpath(ctx.work.path("b"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        mode = c["mode"]
        for j in range(len(c["mods"])):
            with open("%s/m%d.c" % (w, j), "w") as f:
                f.write(self.module(c, j))
        if mode == "gccld":
            c = dict(c, mods=[dict(m, prod="cjit" if m["prod"] == "src" else m["prod"]) for m in c["mods"]])
        nopie = any("-fno-pie" in m["prod"] or m["prod"] in ("src", "cjit") for m in c["mods"])
        link = ["gcc", "-no-pie" if nopie else "-pie"]
        try:
            rf = self.arrange(ctx, c, w, True)
        except Bad as e:
            return Discard()
        # the linker shows constructors in order, and does not relax away anything this test looks at
        p = proc.run(link + ["-z", "noexecstack", "-o", "ref.x"] + rf + ["-Wl,-rpath,$ORIGIN"], cwd=w, timeout=30)
        if p.timeout:
            return Discard()
        err = p.err.decode("utf-8", "replace")
        if p.rc:
            kind = "multiple" if "multiple definition" in err else "undefined" if "undefined reference" in err else None
            if kind is None or re.search("hidden symbol|relocation R_", err):
                return Discard()
            exp = None
            culprits = set(re.findall(r"(?:multiple definition of|undefined reference to) .(\w+)", err))
        else:
            r = proc.run(["./ref.x"], cwd=w, timeout=10)
            if r.rc or r.timeout:
                return Discard()
            exp = r.out
        cmds = []
        try:
            tf = self.arrange(ctx, c, w, False)
        except Bad as e:
            return Fail("compiling: %s" % e)
        if mode == "gccld":
            p = proc.run(link + ["-z", "noexecstack", "-o", "t.x"] + tf + ["-Wl,-rpath,$ORIGIN"], cwd=w, timeout=30)
            how = "gcc linking cjit's objects: " + " ".join(tf)
            rc, o, e = p.rc, b"", p.err
        elif mode == "exe":
            p = proc.run([ctx.b.cjit, "-q", "-o", "t.x"] + tf, cwd=w, timeout=30)
            how = "cjit -o t.x " + " ".join(tf)
            rc, o, e = p.rc, b"", p.err
        else:
            p = proc.run([ctx.b.cjit, "-q"] + tf, cwd=w, timeout=30)
            how = "cjit " + " ".join(tf)
            rc, o, e = p.rc, p.out, p.err
        e = e.decode("utf-8", "replace")
        if p.timeout or rc is None or rc < 0:
            return Fail("%s: timeout or crash (%s); stderr %s" % (how, rc, e[:300]))
        if exp is None:
            if kind == "undefined" and any(m["place"] != "obj" for m in c["mods"]):
                return Discard()                       # archives may be searched more than the system linker does
            if rc == 0:
                return Fail("%s: linked, ld says: %s" % (how, err[:400]))
            if o:
                return Fail("%s: user code ran: %r" % (how, o[:200]))
            if mode != "gccld" and not any(n in e for n in culprits):
                return Fail("%s: fails without naming one of %s: %s" % (how, sorted(culprits), e[:300]))
            return None
        if rc and mode == "run" and not o and "not position independent" in e and any("-fno-pie" in m["prod"] for m in c["mods"]):
            return None                                # memory above 2 GB cannot hold such code; said so, ran nothing
        if rc:
            return Fail("%s: exit status %s, stderr %s; ld links it and it prints %s" % (how, rc, e[:400], exp.decode()[:300]))
        if mode != "run":
            r = proc.run(["./t.x"], cwd=w, timeout=10, env=dict(os.environ, LD_LIBRARY_PATH=w))
            o, rc = r.out, r.rc
            e = r.err.decode("utf-8", "replace")
        if o != exp or rc:
            return Fail("%s: exit status %s%s" % (how, rc, diff(exp, o)) + " stderr: " + e[:300])
        if mode == "exe":
            f = self.valid(w, "t.x", exp)
            if f:
                return Fail("%s: %s" % (how, f))
        for f in tf:
            if f.startswith("t") and f.endswith(".o"):
                p = proc.run(["readelf", "-aW", f], cwd=w)
                if p.rc or p.err.strip():
                    return Fail("readelf on %s made by cjit: %s" % (f, p.err.decode("utf-8", "replace")[:300]))
        return None

    def valid(self, w, exe, exp):
        """the system's binary tools accept the executable"""
        p = proc.run(["readelf", "-aW", exe], cwd=w)
        if p.rc or p.err.strip():
            return "readelf: %s" % p.err.decode("utf-8", "replace")[:300]
        p = proc.run(["objdump", "-dr", exe], cwd=w)
        if p.rc or p.err.strip():
            return "objdump: %s" % p.err.decode("utf-8", "replace")[:300]
        p = proc.run(["strip", "-o", exe + ".s", exe], cwd=w)
        if p.rc or p.err.strip():
            return "strip: %s" % p.err.decode("utf-8", "replace")[:300]
        r = proc.run(["./" + exe + ".s"], cwd=w, timeout=10, env=dict(os.environ, LD_LIBRARY_PATH=w))
        if r.out != exp or r.rc:
            return "stripped: exit status %s%s" % (r.rc, diff(exp, r.out))
        return None

    def run(self, cases, ctx):
        return [self.run1(c, ctx) for c in cases]

    def show(self, c):
        return "mode %s, order %s, archives %s\n" % (c["mode"], c["order"], "last" if c["late"] else "in place") + "".join(
            "--- m%d.c (%s, %s%s)\n%s" % (j, m["prod"], m["place"], m["ar"] if m["place"] == "ar" else "", self.module(c, j)) for j, m in enumerate(c["mods"]))


PRODS = ["src", "cjit", "gcc -O0", "gcc -O2", "gcc -O1 -fPIC", "gcc -O2 -fno-pie", "gcc -O2 -ffunction-sections -fdata-sections", "gcc -Os -fPIC -fno-plt", "gcc -O2 -fno-common -fno-builtin", "clang -O1 -fPIC", "clang -O2 -fPIE"]


class Progs(Prop):
    name = "prog"
    rule = ("programs of 2-5 modules (shared globals, arrays, structs, cross-module pointers and function tables, statics of the same name, varargs, structures by value, floats, libc functions and their addresses, "
            "atexit, exit) whose output a model knows, each module compiled by cjit on the fly, cjit -c, gcc or clang with several options, some of them in an archive; run by cjit, linked by cjit, or "
            "linked by gcc; expected: the output and status the model knows; non-trivial = at least two producers take part")
    quick_n, quick_secs = 4000, 40
    thorough_n, thorough_secs = 60000, 350
    batch = 4
    shrink_evals = 300

    def gen(self, d):
        nm = d.int(2, 5)
        p = mtu.gen(d, nm)
        w = mtu.Writer(p, False, False)
        texts = tuple(w.module(m) for m in range(nm))
        mode = d.pick(["run", "run", "exe", "gccld"])
        prods = [d.pick(PRODS) for _ in range(nm)]
        # the program's entry is not looked for in archives
        ar = [d.chance(1, 4) and " main(" not in t for t in texts]
        if mode == "run":
            # code that is not position independent does not reach data of libc (see the known finding)
            prods = ["gcc -O2 -fPIC" if "stdout" in t and p[0] != "s" and p != "cjit" and "-fPIC" not in p else p for t, p in zip(texts, prods)]
        return {"p": p, "texts": texts, "mode": mode, "prods": prods, "ar": ar, "order": d.shuffle(range(nm)), "pie": d.draw(2)}

    def nontrivial(self, c, d):
        return len(set(c["prods"])) > 1

    def show(self, c):
        return "mode %s, order %s\n" % (c["mode"], c["order"]) + "".join("--- m%d.c (%s%s)\n%s" % (j, c["prods"][j], ", archive" if c["ar"][j] else "", t) for j, t in enumerate(c["texts"]))

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        w = os.path.realpath(ctx.work.path("p"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        lines = {}
        for t in c["texts"]:
            for n, l in enumerate(t.split("\n"), 1):
                for m in re.finditer(r"__LINE__; /\*@(\d+-\d+)@\*/", l):
                    lines[m.group(1)] = n
        try:
            exp = mtu.Model(c["p"], lines).run()
        except Discard:
            return Discard()
        objs = []
        for j, t in enumerate(c["texts"]):
            open("%s/m%d.c" % (w, j), "w", encoding="utf-8").write(t)
            prod = c["prods"][j]
            if prod == "src" and (c["mode"] == "gccld" or c["ar"][j]):
                prod = "cjit"
            if prod == "src":
                objs.append("m%d.c" % j)
                continue
            o = "o%d.o" % j
            cmd = [ctx.b.cjit, "-q", "-c", "m%d.c" % j, "-o", o] if prod == "cjit" else prod.split() + ["-w", "-c", "m%d.c" % j, "-o", o]
            r = proc.run(cmd, cwd=w, timeout=30)
            if r.rc:
                return Fail("%s: %s" % (" ".join(cmd), r.err.decode("utf-8", "replace")[:300])) if prod == "cjit" else Discard()
            objs.append(o)
        line = [objs[j] for j in c["order"] if not c["ar"][j]]
        mem = [objs[j] for j in c["order"] if c["ar"][j]]
        # the module with main is found in an archive when it is the program that is linked, like any other
        if mem:
            proc.run(["ar", "rcs", "libm.a"] + mem, cwd=w)
            line.append("libm.a")
        if not any(x.endswith((".c", ".o")) for x in line):
            return Discard()
        cj = [ctx.b.cjit, "-q", "-lm"]
        if c["mode"] == "run":
            r = proc.run(cj + line, cwd=w, timeout=20)
            how = " ".join(["cjit"] + line)
            if r.rc and not r.out and b"not position independent" in r.err and any("-fno-pie" in x for x in c["prods"]):
                return None
        else:
            if c["mode"] == "exe":
                cmd = cj + ["-o", "t.x"] + line
            else:
                pie = c["pie"] and not any("-fno-pie" in x for x in c["prods"])
                cmd = ["gcc", "-w", "-pie" if pie else "-no-pie", "-z", "noexecstack", "-o", "t.x"] + line + [ctx.b.tccdir + "/libtcc1.a", "-lm"]
            how = " ".join(cmd[:1] + cmd[3:])
            r = proc.run(cmd, cwd=w, timeout=30)
            if r.rc or not os.path.exists(w + "/t.x"):
                return Fail("%s: exit status %s: %s" % (how, r.rc, r.err.decode("utf-8", "replace")[:400]))
            r = proc.run(["./t.x"], cwd=w, timeout=20)
        if (r.out, r.rc) != exp or r.timeout:
            return Fail("%s: exit status %s (expected %s)%s; stderr %s" % (how, r.rc, exp[1], diff(exp[0], r.out), r.err.decode("utf-8", "replace")[:300]))
        return None


class Bad(Exception):
    pass


def diff(exp, got):
    e, g = exp.decode("latin-1").split("\n"), got.decode("latin-1").split("\n")
    for i, (a, b) in enumerate(zip(e + ["<end>"], g + ["<end>"])):
        if a != b:
            return "; line %d: expected [%s], got [%s]" % (i + 1, a, b)
    return "; length %d expected, got %d" % (len(e), len(g))


def hidden_dup(ctx):
    w = ctx.work.path("k")
    os.makedirs(w, exist_ok=True)
    open(w + "/a.c", "w").write("int s = 1; int t = 1;\n")
    open(w + "/b.c", "w").write("__attribute__((visibility(\"hidden\"))) int s = 2;\nint main(void) { return s; }\n")
    r = proc.run([ctx.b.cjit, "-q", "a.c", "b.c"], cwd=w)
    return "a second definition with hidden visibility is ignored, not reported as a duplicate" if r.rc == 1 and not r.err else None


def pie_data(ctx):
    w = ctx.work.path("k")
    os.makedirs(w, exist_ok=True)
    open(w + "/c.c", "w").write("extern void *stdout; int fputs(const char *, void *);\nint main(void) { fputs(\"ok\\n\", stdout); return 0; }\n")
    proc.run(["gcc", "-O1", "-fPIE", "-c", "c.c"], cwd=w)
    r = proc.run([ctx.b.cjit, "-q", "c.o"], cwd=w)
    return "run mode: objects compiled with gcc -fPIE crash when they use a variable of libc" if r.rc and not r.out else None


class C(Check):
    id = "C09"
    parts = [Bind(), Progs()]
    known = {"hidden-duplicate": hidden_dup, "pie-object-libc-data": pie_data}
    assumptions = ["the system's gcc and ld resolve symbols as the ELF rules say",
                   "undefined symbols are not compared when archives or shared libraries take part: cjit searches archives whole",
                   "whether a common symbol extracts the archive member that defines it is left open"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = Work(ctx.scratch)


CHECK = C()
