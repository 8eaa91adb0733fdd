"""B08: archives made by the built-in archiver."""
import os, random, resource, shutil, struct, subprocess
from vf import build, cbatch, proc, elfo
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check

STEMS = ["a", "b2", "x.y", "with space", "f123456789.1", "f1234567890.o", "f1234567890a.o", "seventeen-chars.o", "Z" * 40, "noext", "o", "+p", "_", "a.b.c.o"]
FOLDERS = ["", "./", "sub/", "sub/deeper.dir/", "sub//../", "@abs/"]


def defs(m):
    """names the index has to list for a member"""
    if m["kind"] == "pool":
        return None
    if not m["symtab"]:
        return []
    return [s["name"] for s in m["syms"] if s["bind"] != elfo.LOCAL and s["where"] != "undef"]


class Base(Prop):
    batch = 10

    def members(self, d, n, ctx_pool):
        ms, used, dup = [], [], []
        for i in range(n):
            if ctx_pool and d.draw(6) == 5:
                ms.append({"kind": "pool", "which": d.draw(ctx_pool), "odd": d.draw(2), "name": d.pick(STEMS), "in": d.draw(len(FOLDERS))})
                continue
            syms = []
            for j in range(d.draw(6) if d.draw(30) else 200 + d.draw(150)):
                w = d.wpick([(6, "text"), (3, "data"), (1, "bss"), (1, "abs"), (1, "com"), (1, "undef"), (1, "tls")])
                k = d.draw(8)
                nm = "s%d_%d" % (i, j)
                if k == 5:
                    nm = "%s$.%s" % (nm, "q" * d.draw(200))
                elif k == 6 and used and w != "undef":
                    nm = d.pick(used)
                    if nm in [s["name"] for s in syms]:
                        continue
                    dup.append(nm)
                elif k == 7:
                    nm = "n\u00e4me-%s@x" % nm
                bind = d.wpick([(5, elfo.GLOBAL), (2, elfo.WEAK), (2, elfo.LOCAL), (1, elfo.UNIQUE)])
                if w in ("com", "undef") and bind in (elfo.LOCAL, elfo.UNIQUE):
                    bind = elfo.GLOBAL
                if bind == elfo.UNIQUE and w not in ("data", "bss"):
                    bind = elfo.GLOBAL
                typ = {"text": elfo.FUNC, "data": elfo.OBJECT, "bss": elfo.OBJECT, "abs": elfo.NOTYPE, "com": elfo.OBJECT, "undef": elfo.NOTYPE, "tls": elfo.TLS}[w]
                if d.draw(6) == 5 and w in ("text", "data") and bind != elfo.UNIQUE:
                    typ = elfo.IFUNC if w == "text" and d.draw(2) else elfo.NOTYPE
                if bind != elfo.LOCAL and w != "undef":
                    used.append(nm)
                syms.append({"name": nm, "bind": bind, "type": typ, "where": w, "val": d.draw(256), "vis": d.pick([0, 0, 0, 2])if w != "undef" else 0})
            ms.append({"kind": "own", "syms": syms, "style": d.draw(32), "tail": d.wpick([(3, 0), (2, 1), (1, 2), (1, 3)]), "symtab": d.draw(6) != 5, "name": d.pick(STEMS), "in": d.draw(len(FOLDERS))})
        return ms

    def write(self, ms, ctx, w):
        """-> paths as given, contents"""
        paths, conts, taken = [], [], {}
        for m in ms:
            if m["kind"] == "pool":
                b = ctx.pool[m["which"] % len(ctx.pool)][0] + b"x" * m["odd"]
            else:
                b = elfo.obj(m["syms"], m["style"], b"T" * m["tail"], m["symtab"])
            # the same path may be given twice only with the same contents
            k, f = 0, m["in"]
            while True:
                folder = FOLDERS[(f + k) % len(FOLDERS)].replace("@abs", w + "/abs")
                real = os.path.normpath(os.path.join(w, folder, m["name"]))
                if taken.get(real, b) == b or k >= len(FOLDERS):
                    break
                k += 1
            if taken.get(real, b) != b:
                continue
            taken[real] = b
            p = folder + m["name"]
            if p.startswith("-"):
                p = "./" + p
            os.makedirs(os.path.dirname(real), exist_ok=True)
            with open(real, "wb") as f:
                f.write(b)
            paths.append(p)
            conts.append((m, b))
        return paths, conts

    def show(self, c):
        return repr(c)

    def run(self, cases, ctx):
        out = []
        for c in cases:
            w = ctx.work.path("b8")
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w + "/sub/deeper.dir")
            w = os.path.realpath(w)
            try:
                out.append(self.one(c, ctx, w))
            except elfo.Bad as e:
                out.append(Fail("the archive is malformed: %s" % e))
        return out


LIBS = ["lib.a", "./l", "sub/arch.a", "L" * 200 + ".a", "deep/" + "/".join(["d" * 90] * 4) + "/x.a", "with space.lib"]


class Make(Base):
    name = "make"
    rule = ("an archive of 0-12 members per case, made by cjit -ar: objects of an own ELF writer (all bindings, types and kinds of definition, 0-350 symbols, odd sizes, section and string table orders, no symbol table) and of real tools "
            "(gcc, g++, clang, cjit, ld -r, strip); names in all folders, of 1 to 40 bytes, repeated; re-creating over an old archive; oracles: an own archive reader (members, order, bytes, base names cut to 15 bytes, index = the global definitions "
            "of each member), the index GNU ar makes of the same members, GNU ar t/p on the result; non-trivial = at least two members and one symbol in the index")
    quick_n, quick_secs = 4000, 45
    thorough_n, thorough_secs = 200000, 350

    def gen(self, d):
        n = d.draw(6) if d.draw(5) else d.draw(13)
        return {"ms": self.members(d, n, 64), "lib": d.pick(LIBS), "opts": d.pick(["rcs", "r", "cr", "-rcs", "rcsv", "cq", "ruv"]), "again": d.draw(4) == 3, "gnu": d.draw(3) == 2, "san": d.draw(2)}

    def nontrivial(self, c, d):
        return len(c["ms"]) >= 2 and any(m["kind"] == "pool" or defs(m) for m in c["ms"])

    def one(self, c, ctx, w):
        paths, conts = self.write(c["ms"], ctx, w)
        lib = os.path.join(w, c["lib"])
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        before = {}
        if c["again"]:
            with open(lib, "wb") as f:
                f.write(elfo.write_ar([("old.o", b"o" * 5001)]))
        r = proc.run(ctx.ar[c.get("san", 0)] + [c["opts"], c["lib"]] + paths, cwd=w, timeout=30)
        said = "cjit -ar %s %s %s\nstatus %s\n%s%s" % (c["opts"], c["lib"], paths, r.rc, r.out.decode("latin-1"), r.err.decode("latin-1"))
        if r.rc != 0:
            return Fail("making the archive failed: " + said)
        with open(lib, "rb") as f:
            b = f.read()
        if os.path.exists(lib + ".tmp"):
            return Fail("left its temporary file: " + said)
        ms = elfo.read_ar(b)
        idx = []
        if ms and ms[0][0].rstrip() == b"/":
            idx = elfo.read_index(ms[0][2])
            ms = ms[1:]
        if len(ms) != len(conts):
            return Fail("%d members of %d: %s" % (len(ms), len(conts), said))
        want, i = [], 0
        for (raw, at, data), (m, cont), p in zip(ms, conts, paths):
            nm = m["name"].encode()[:15] + b"/"
            if raw.rstrip(b" ") != nm:
                return Fail("member %d is named %r, not %r: %s" % (i, raw, nm, said))
            if data != cont:
                return Fail("member %d (%r) differs from its file (%d bytes, file has %d): %s" % (i, raw, len(data), len(cont), said))
            names = ctx.pool[m["which"] % len(ctx.pool)][1] if m["kind"] == "pool" else defs(m)
            want += [(at, n.encode().decode("latin-1")) for n in names]
            i += 1
        if sorted(want) != sorted(idx):
            return Fail("index: missing %s, unexpected %s: %s" % (sorted(set(want) - set(idx)), sorted(set(idx) - set(want)), said))
        if [o for o, n in idx] != sorted(o for o, n in idx):
            return Fail("index not in member order: %s" % said)
        if c["gnu"]:
            g = os.path.join(w, "gnu.a")
            # a copy of each member under a name of its own, as GNU ar replaces members of the same name
            os.mkdir(w + "/g")
            l = []
            for i, (m, cont) in enumerate(conts):
                with open("%s/g/%d" % (w, i), "wb") as f:
                    f.write(cont)
                l.append("g/%d" % i)
            r = proc.run(["ar", "rcsD", g] + l, cwd=w, timeout=30)
            if r.rc == 0:
                with open(g, "rb") as f:
                    gm = elfo.read_ar(f.read())
                gi = []
                if gm and gm[0][0].rstrip() == b"/":
                    at = {x[1]: k for k, x in enumerate(gm[1:])}
                    gi = [(at[o], n) for o, n in elfo.read_index(gm[0][2])]
                at = {x[1]: k for k, x in enumerate(ms)}
                me = [(at[o], n) for o, n in idx]
                if sorted(me) != sorted(gi):
                    return Fail("index differs from the one of GNU ar, only here %s, only there %s: %s" % (sorted(set(me) - set(gi)), sorted(set(gi) - set(me)), said))
            r = proc.run(["ar", "t", c["lib"]], cwd=w, timeout=30)
            if r.rc or r.out != b"".join(m["name"].encode()[:15] + b"\n" for m, _ in conts):
                return Fail("ar t: status %s %r %r: %s" % (r.rc, r.out, r.err, said))
            r = proc.run(["ar", "p", c["lib"]], cwd=w, timeout=30)
            if r.rc or r.out != b"".join(x for _, x in conts):
                return Fail("ar p: status %s, %d bytes %r: %s" % (r.rc, len(r.out), r.err, said))
        return None


class Link(Base):
    name = "link"
    rule = ("2-9 members with functions, data and commons that call and read each other (acyclic, across members), weak references, members nobody needs; the archive made by cjit -ar (and by GNU ar, for reading) is linked by cjit in memory, by cjit into an executable, "
            "and by ld; oracle: value computed by the generator, and exactly the members reachable through undefined strong references are linked; non-trivial = a member is reached through another one and one is left out")
    quick_n, quick_secs = 2500, 50
    thorough_n, thorough_secs = 100000, 350

    def gen(self, d):
        n = 2 + d.draw(8)
        ms = []
        fn = []             # names by topological order
        kinds = {}
        for i in range(n):
            syms = []
            for j in range(1 + d.draw(3)):
                w = d.wpick([(5, "text"), (2, "data"), (1, "com"), (1, "bss")])
                nm = "v%d_%d" % (i, j)
                s = {"name": nm, "bind": d.wpick([(5, elfo.GLOBAL), (2, elfo.WEAK)]), "where": w, "val": d.draw(1000) if w in ("text", "data") else 0, "type": elfo.FUNC if w == "text" else elfo.OBJECT}
                if w == "com":
                    s["bind"] = elfo.GLOBAL
                if w == "text":
                    s["calls"] = [d.pick(l) for l in [[x for x in fn if kinds[x] == "text"]] if l for _ in range(d.draw(3))]
                    s["reads"] = [d.pick(l) for l in [[x for x in fn if kinds[x] != "text"]] if l for _ in range(d.draw(2))]
                syms.append(s)
            for s in syms:
                fn.append(s["name"])
                kinds[s["name"]] = s["where"]
            syms.append({"name": "mk_%d" % i, "bind": elfo.GLOBAL, "where": "data", "type": elfo.OBJECT, "val": i})
            ms.append({"kind": "own", "syms": syms, "style": d.draw(32), "tail": d.wpick([(3, 0), (2, 1), (1, 2)]), "symtab": True, "name": d.pick(STEMS), "in": d.draw(len(FOLDERS))})
        order = d.shuffle(list(range(n))) or list(range(n))
        funcs = [x for x in fn if kinds[x] == "text"] or []
        return {"ms": [ms[i] for i in order], "ids": order, "roots": [d.pick(fn) for _ in range(1 + d.draw(2))], "how": d.draw(3), "gnu": d.draw(4) == 3, "where": d.draw(3)}

    def model(self, c):
        by, home = {}, {}
        for i, m in zip(c["ids"], c["ms"]):
            for s in m["syms"]:
                by[s["name"]] = s
                home[s["name"]] = i
        vals = {}

        def val(n):
            if n not in vals:
                s = by[n]
                vals[n] = (s["val"] + sum(val(x) for x in s.get("calls", ())) + sum(val(x) for x in s.get("reads", ()))) & 0xffffffff
            return vals[n]
        tot = sum(val(r) for r in c["roots"]) & 0xffffffff
        need, todo = set(), [home[r] for r in c["roots"]]
        body = dict(zip(c["ids"], c["ms"]))
        while todo:
            i = todo.pop()
            if i in need:
                continue
            need.add(i)
            for s in body[i]["syms"]:
                todo += [home[x] for x in s.get("calls", []) + s.get("reads", [])]
        direct = {home[r] for r in c["roots"]}
        return tot, need, by, need != direct and len(need) < len(c["ms"])

    def nontrivial(self, c, d):
        return self.model(c)[3]

    def one(self, c, ctx, w):
        total, need, by, _ = self.model(c)
        paths, conts = self.write(c["ms"], ctx, w)
        if len(paths) != len(c["ms"]):
            return None
        lib = "lib%s.a" % ("" if c["where"] else " x")
        if c["gnu"]:
            r = proc.run(["ar", "qcs", lib] + paths, cwd=w, timeout=30)
        else:
            r = proc.run([ctx.b.cjit, "-ar", "rcs", lib] + paths, cwd=w, timeout=30)
        if r.rc:
            return Fail("making the archive of %s failed: %s%s" % (paths, r.out, r.err))
        marks = sorted(c["ids"])
        if c["how"] < 2:
            src = "int printf(const char *, ...);\n" + "".join("int %s(void);\n" % r if by[r]["where"] == "text" else "extern int %s;\n" % r for r in sorted(set(c["roots"])))
            src += "".join("extern int mk_%d __attribute__((weak));\n" % i for i in marks)
            src += "int main(void) {\nunsigned t = 0;\n" + "".join("t += %s%s;\n" % (r, "()" if by[r]["where"] == "text" else "") for r in c["roots"])
            src += "printf(\"%u\\n\", t);\n" + "".join("if (&mk_%d) printf(\"%d \");\n" % (i, i) for i in marks) + "return 5; }\n"
            with open(w + "/m.c", "w") as f:
                f.write(src)
            words = ["m.c", lib if c["where"] < 2 else "./" + lib]
            if c["how"] == 1:
                r = proc.run([ctx.b.cjit, "-q", "-o", "prog"] + words, cwd=w, timeout=30)
                if r.rc:
                    return Fail("linking an executable failed, members %s: %s%s\n%s" % (paths, r.out, r.err, src))
                r = proc.run(["./prog"], cwd=w, timeout=30)
            else:
                r = proc.run([ctx.b.cjit, "-q"] + words, cwd=w, timeout=30)
            want = "%d\n%s" % (total, "".join("%d " % i for i in marks if i in need))
            if r.rc != 5 or r.out.decode("latin-1") != want:
                return Fail("expected %r, got status %s %r %s (%s, members %s)\n%s" % (want, r.rc, r.out, r.err.decode("latin-1"), ["in memory", "executable"][c["how"]], paths, src))
            return None
        roots = [{"name": "_start", "bind": 1, "type": elfo.FUNC, "where": "text", "val": 0, "start": 1, "calls": [r for r in c["roots"] if by[r]["where"] == "text"], "reads": [r for r in c["roots"] if by[r]["where"] != "text"]}]
        with open(w + "/start.o", "wb") as f:
            f.write(elfo.obj(roots, 8))
        r = proc.run(["ld", "--no-warn-execstack", "start.o", lib, "-o", "prog"], cwd=w, timeout=30)
        if r.rc or r.err:
            return Fail("ld: status %s %s (members %s)" % (r.rc, r.err.decode("latin-1"), paths))
        r = proc.run(["./prog"], cwd=w, timeout=30)
        n = proc.run(["nm", "prog"], cwd=w, timeout=30)
        got = sorted(int(x.split(b"mk_")[1]) for x in n.out.split(b"\n") if b" mk_" in x)
        if r.rc != total & 255 or got != sorted(need):
            return Fail("ld: expected %d and members %s, got %s and %s (members %s)" % (total & 255, sorted(need), r.rc, got, paths))
        return None


class Take(Base):
    name = "take"
    rule = ("archives of any member contents (0-20000 bytes, also empty and of odd size) made by cjit -ar, GNU ar or an own writer are listed (t, tv) and extracted (x, xv) by cjit -ar; archives cut short, with a damaged header or with no archive magic must be refused; creating from files "
            "that are not ELF objects, from missing files and with a limit on the file size must fail and leave no archive; non-trivial = at least two members, or a damaged archive")
    quick_n, quick_secs = 5000, 40
    thorough_n, thorough_secs = 200000, 200

    def gen(self, d):
        k = d.wpick([(5, "read"), (3, "damage"), (2, "refuse")])
        if k == "refuse":
            ms = self.members(d, 1 + d.draw(4), 64)
            return {"k": k, "ms": ms, "bad": d.pick(["text", "empty", "short", "elf32", "missing", "limit", "dir"]), "at": d.draw(5), "lim": d.draw(1000), "seed": d.draw(1000), "san": d.draw(2)}
        names = []
        for _ in range(d.draw(7)):
            n = d.pick(STEMS)[:15]
            if n not in names:
                names.append(n)
        if k == "damage" and not names:
            names = ["a"]
        by = d.pick(["gnu", "own", "cjit"])
        mem = [[n, d.pick([0, 1, 2, 7, 60, 61, 4096, 20000]) if d.draw(2) else d.draw(3000), d.draw(1000)] for n in names]
        dmg = None
        if k == "damage":
            dmg = [d.pick(["cut", "magic", "fmag", "size", "junk"]), d.draw(1000), d.draw(256)]
        return {"k": k, "mem": mem, "by": by, "op": d.pick(["t", "x", "tv", "xv", "-t", "-x"]), "dmg": dmg, "san": d.draw(2)}

    def nontrivial(self, c, d):
        return c["k"] != "read" or len(c["mem"]) > 1

    def refuse(self, c, ctx, w):
        paths, conts = self.write(c["ms"], ctx, w)
        at = c["at"] % (len(paths) + 1)
        rnd = random.Random(c["seed"])
        bad, lim = w + "/bad file", None
        good = elfo.obj([{"name": "z", "bind": 1, "type": 2, "where": "text", "val": 1}])
        k = c["bad"]
        if k == "text":
            t = bytes(rnd.randrange(32, 127) for _ in range(rnd.randrange(1, 300)))
        elif k == "empty":
            t = b""
        elif k == "short":
            t = good[:rnd.randrange(0, 64)]
        elif k == "elf32":
            t = good[:4] + b"\x01" + good[5:]
        if k == "limit":
            lim = 8 + c["lim"] * (sum(len(x) for _, x in conts) + 59) // 1000
        elif k == "dir":
            os.mkdir(bad)
            paths.insert(at, "bad file")
        else:
            if k != "missing":
                with open(bad, "wb") as f:
                    f.write(t)
            paths.insert(at, "bad file")
        p = subprocess.run(ctx.ar[c.get("san", 0)] + ["rcs", "lib.a"] + paths, cwd=w, env=proc.base_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30,
                           preexec_fn=(lambda: (__import__("signal").signal(25, __import__("signal").SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim)))) if lim is not None else None)
        if p.returncode not in (1, 2) or not p.stderr.strip():
            return Fail("%s: status %s %r %r, limit %s, files %s" % (k, p.returncode, p.stdout, p.stderr, lim, paths))
        left = [f for f in ("lib.a", "lib.a.tmp") if os.path.exists(w + "/" + f)]
        if left:
            return Fail("%s: left %s (status %s)" % (k, left, p.returncode))
        return None

    def one(self, c, ctx, w):
        if c["k"] == "refuse":
            return self.refuse(c, ctx, w)
        mem = []
        for n, size, seed in c["mem"]:
            rnd = random.Random(seed * 31 + size)
            body = rnd.randbytes(size)
            if c["by"] == "cjit":
                body = elfo.obj([{"name": "y" + str(seed), "bind": 1, "type": 1, "where": "data", "val": seed}], seed % 32, body, seed % 5 != 0)
            mem.append((n, body))
            with open(os.path.join(w, "sub", n), "wb") as f:
                f.write(body)
        lib = w + "/lib.a"
        if c["by"] == "own":
            with open(lib, "wb") as f:
                f.write(elfo.write_ar(mem))
        else:
            r = proc.run((["ar", "qcS"] if c["by"] == "gnu" else [ctx.b.cjit, "-ar", "rcs"]) + ["lib.a"] + [os.path.join("sub", n) for n, _ in mem], cwd=w, timeout=30)
            if r.rc:
                return Fail("making the archive failed: %s %r" % (r.rc, r.err))
        if c["dmg"]:
            k, x, y = c["dmg"]
            with open(lib, "rb") as f:
                b = bytearray(f.read())
            ms = elfo.read_ar(bytes(b))
            if not ms:
                return Fail("%s archive of %s has no members" % (c["by"], [(n, len(b)) for n, b in mem]))
            m = ms[x % len(ms)]
            if k == "cut":
                # within the header or the contents of a member, or within the magic
                lo, hi = m[1] + 1, m[1] + 60 + len(m[2])
                cut = lo + (x * 256 + y) * (hi - lo) // 256000
                if y == 255:
                    cut = x % 8
                del b[cut:]
            elif k == "magic":
                b[x % 8] ^= 1 + y % 255
            elif k == "fmag":
                b[m[1] + 58 + (y & 1)] ^= 1 + y % 255
            elif k == "size":
                # the last member says it is longer than it is
                m = ms[-1]
                b[m[1] + 48:m[1] + 58] = str(len(m[2]) + 2 + x).ljust(10).encode()
            else:
                if len(b) & 1:
                    b += b"\n"
                b += bytes([y]) * (1 + x % 59)
            with open(lib, "wb") as f:
                f.write(b)
        out = w + "/out"
        os.mkdir(out)
        r = proc.run(ctx.ar[c.get("san", 0)] + [c["op"], "../lib.a"], cwd=out, timeout=30)
        said = "%s archive of %s, cjit -ar %s: status %s\n%s%s" % (c["by"], [(n, len(b)) for n, b in mem], c["op"], r.rc, r.out.decode("latin-1"), r.err.decode("latin-1"))
        if c["dmg"]:
            if r.rc not in (1, 2) or not r.err.strip():
                return Fail("damaged archive %s accepted: %s" % (c["dmg"], said))
            return None
        if r.rc:
            return Fail(said)
        listed, got = r.out.decode("latin-1"), {}
        for f in os.listdir(out):
            with open(os.path.join(out, f), "rb") as h:
                got[f] = h.read()
        if "t" in c["op"]:
            if listed != "".join(n + "\n" for n, _ in mem) or got:
                return Fail("listing: " + said)
        else:
            if "v" in c["op"] and listed != "".join("x - %s\n" % n for n, _ in mem):
                return Fail("listing: " + said)
            if got != dict(mem):
                return Fail("extracted %s: %s" % ({k: len(v) for k, v in got.items()}, said))
        return None


POOL_SRC = {
    "c": "int gi = 5; int gu; static int si; static int sf(void) { return si; } int gf(void) { return sf() + gi; } extern int ue; int uf(void) { return ue; } const char *gs = \"text\"; int arr[100];\n",
    "cc": "struct S { virtual ~S(); virtual int f(); int x; }; int S::f() { return 1; } S::~S() {} template <class T> T tf(T x) { static T y; return y += x; } int use() { return tf(1) + (int)tf(2.0); } inline int inl() { static int q; return ++q; } int u2() { return inl(); } namespace a { namespace b { long deep(const char *, S &) { return 2; } } }\n",
    "none": "static int x; static void f(void) { x++; }\n",
    "tls": "__thread int t1; __thread int t2 = 4; static __thread int t3; int *g(void) { return &t1 + t3; }\n",
    "ifunc": "static int i1(void) { return 1; } static void *res(void) { return i1; } int choose(void) __attribute__((ifunc(\"res\"))); int wk(void) __attribute__((weak)); int wk(void) { return 2; } extern int wu(void) __attribute__((weak)); int q(void) { return wu ? 1 : 0; } int hid __attribute__((visibility(\"hidden\"))) = 2; int al(void) __attribute__((alias(\"q\")));\n",
}


def make_pool(b, scratch):
    d = os.path.join(scratch, "pool")
    os.mkdir(d)
    n = [0]
    out = []

    def add(cmd):
        o = "%s/%d.o" % (d, n[0])
        n[0] += 1
        build.sh([x.replace("@o", o) for x in cmd], cwd=d)
        nm = build.sh(["nm", "-g", "--defined-only", o])
        names = [l.split(" ", 2)[2] for l in nm.split("\n") if len(l.split(" ", 2)) == 3 and len(l.split(" ", 2)[1]) == 1]
        with open(o, "rb") as f:
            out.append((f.read(), names))
        return o
    for k, t in POOL_SRC.items():
        with open("%s/%s.%s" % (d, k, "cc" if k == "cc" else "c"), "w") as f:
            f.write(t)
    for k in POOL_SRC:
        src = "%s.%s" % (k, "cc" if k == "cc" else "c")
        for cc in (["gcc"], ["gcc", "-g", "-O2"], ["gcc", "-fcommon", "-ffunction-sections", "-fdata-sections"], ["clang", "-O1", "-fPIC"]):
            cc = list(cc)
            if k == "cc":
                cc[0] = "g++" if cc[0] == "gcc" else "clang++"
            try:
                o = add(cc + ["-w", "-c", src, "-o", "@o"])
            except build.BuildError:
                if cc[0].startswith("clang"):
                    continue
                raise
            if cc == ["gcc", "-g", "-O2"] or cc == ["g++", "-g", "-O2"]:
                add(["strip", "-g", o, "-o", "@o"])
                add(["strip", "-s", o, "-o", "@o"])
                add(["ld", "-r", o, "-o", "@o"])
        if k in ("c", "none"):
            add([b.cjit, "-q", "-c", src, "-o", "@o"])
    return out


class C(Check):
    id = "B08"
    parts = [Make(), Link(), Take()]
    assumptions = ["binutils (ar, nm, ld) are right about archives", "names of members are cut to the 15 bytes a header holds (no table of long names)"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch, "p")
        ctx.work = cbatch.Work(ctx.scratch)
        root = ctx.b.root
        san = build.driver(ctx.scratch, "ar-asan", [], ["cjit-ar.c"], extra=["-DCJIT_AR_MAIN", "-fno-sanitize=alignment"], root=root, libs=[ctx.b.libtcc, "-lm", "-ldl", "-lpthread"])
        ctx.ar = [[ctx.b.cjit, "-ar"], [san]]
        ctx.pool = make_pool(ctx.b, ctx.scratch)


CHECK = C()
