"""B03: extracting a USTAR (tar or tar.gz) reproduces exactly its directories and files."""
import gzip, os, shutil, struct, zlib
from vf import build, pipe, proc, tarx, gz
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check


def archive(d, ents):
    """bytes of a USTAR archive of the entries, with the freedom the format gives a writer"""
    out = b""
    style, ck = d.draw(3), d.draw(2)
    for kind, path, data in ents:
        isd = kind == "d"
        nm = path + b"/" if isd and d.chance(2, 3) else path
        lead = b"./" if d.chance(1, 8) and len(nm) < 98 else b""
        sp = tarx.split(lead + nm, d.draw(4) if d.chance(1, 3) else None)
        if sp is None:
            sp = tarx.split(nm)
        kw = dict(mode=d.pick([0o644, 0o755, 0o600, 0, 0o777]), uid=d.pick([0, 1000, 65534]), gid=d.pick([0, 100]), mtime=d.pick([0, 1, 1700000000]),
                  uname=d.pick([b"", b"root"]), gname=d.pick([b"", b"root"]), style=style, cksum_style=ck)
        out += tarx.header(sp[1], sp[0], b"5" if isd else b"0", 0 if isd else len(data), **kw)
        if sp[0]:
            d.label("prefix")
        if not isd:
            out += tarx.pad(data)
        if d.chance(1, 10):          # entries of kinds the format allows and the extractor leaves out
            d.label("special-entry")
            t = d.pick([b"2", b"1", b"6", b"3"])
            out += tarx.header(b"special%d" % len(out), b"", t, 0, link=d.pick([b"a", b"/etc/passwd", b"../x"]), style=style)
    tail = d.wpick([(3, 2), (2, 20), (1, 1)])
    return out + b"\0" * (512 * tail)


def wrap(d, tar):
    """gzip it, as gzip(1) would or with generated header fields"""
    lvl = d.pick([9, 6, 1, 0])
    co = zlib.compressobj(lvl, zlib.DEFLATED, -15, 9, d.pick([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
    s = co.compress(tar) + co.flush()
    fl = d.pick([0, 8, 0, 16 | 8, 4])
    h = b"\x1f\x8b\x08" + bytes([fl]) + struct.pack("<IBB", d.pick([0, 1700000000]), 0, 3)
    if fl & 4:
        h += struct.pack("<H", 5) + b"AB\1\0x"
    if fl & 8:
        h += b"archive.tar\0"
    if fl & 16:
        h += b"comment\0"
    return h + s + struct.pack("<II", zlib.crc32(tar) & 0xFFFFFFFF, len(tar) & 0xFFFFFFFF)


def model(ents, pre):
    want = dict(pre)
    for kind, p, data in ents:
        want[p] = ("d",) if kind == "d" else ("f", data)
    return want


_n = [0]


def fresh(ctx):
    _n[0] += 1
    p = os.path.join(ctx.area, "%d-%d" % (os.getpid(), _n[0]))
    os.mkdir(p)
    os.chown(p, 65534, 65534)
    return p


def owned(p, mode=0o755):
    os.mkdir(p); os.chown(p, 65534, 65534)


class Extract(Prop):
    name = "extract"
    rule = ("generated trees (nested directories, empty and block-boundary files, long names that need the prefix field) written as USTAR "
            "by an own writer, plain or gzipped, extracted through the library entry points, and the resulting tree compared in full; "
            "non-trivial = at least one directory and two files with content")
    batch = 40
    quick_n, quick_secs = 12000, 45
    thorough_n, thorough_secs = 250000, 600

    def gen(self, d):
        ents = tarx.tree(d)
        if not [e for e in ents if e[0] == "f"]:
            ents.append(("f", b"only", tarx.content(d)))
        if d.chance(1, 12):
            ents.append(("f", b"big-zero", b"\0" * d.int(40000, 300000)))   # compresses far beyond 10:1
            d.label("highly-compressible")
        t = archive(d, ents)
        gzipped = d.chance(1, 2)
        d.label("tar.gz" if gzipped else "tar")
        pre = d.wpick([(3, 0), (1, 1), (1, 2)])   # target absent, empty, or with content of its own
        d.label("target:" + ["absent", "empty", "used"][pre])
        raw = wrap(d, t) if gzipped else t
        if gzipped and len(t) > 10 * len(raw):
            d.label("ratio>10")
        dirn = d.pick(["out", "out.d", "o", "a-long-target-directory-name", "./out", "n1/n2"])
        return (gzipped, dirn, pre, ents, raw)

    def nontrivial(self, c, d):
        return len([e for e in c[3] if e[0] == "f" and e[2]]) >= 2 and any(e[0] == "d" for e in c[3])

    def show(self, c):
        return {"gz": c[0], "dir": c[1], "target": c[2], "entries": [(k, p.decode("latin-1"), len(b)) for k, p, b in c[3]], "bytes": len(c[4])}

    def run(self, cases, ctx):
        reqs, roots, pres = [], [], []
        for gzd, dirn, pre, ents, raw in cases:
            r = fresh(ctx)
            roots.append(r)
            if dirn == "n1/n2":
                owned(r + "/n1")
            keep = {}
            if pre:
                owned(os.path.join(r, dirn))
            if pre == 2:
                keep[b"kept.txt"] = ("f", b"mine")
                f = [e for e in ents if e[0] == "f" and b"/" not in e[1]]
                if f:
                    keep[f[0][1]] = ("f", b"old content that is longer than the new one" * 30)
                for k, v in keep.items():
                    q = os.path.join(os.fsencode(r), dirn.encode(), k)
                    open(q, "wb").write(v[1]); os.chown(q, 65534, 65534)
            pres.append(keep)
            reqs.append(bytes([3 if gzd else 2]) + pipe.s(r) + pipe.s(dirn) + pipe.s(raw))
        out = []
        for (rep, err), (gzd, dirn, pre, ents, raw), r, keep in zip(pipe.all_replies(ctx.arch, reqs, timeout=120), cases, roots, pres):
            if rep is None:
                out.append(Fail("extraction driver died: %s" % err)); continue
            rd = pipe.Reader(rep)
            st, er = rd.u32(), rd.bytes()
            if st == 77:
                out.append(Discard()); continue
            if st != 0:
                out.append(Fail("extraction failed (status %d): %s" % (st, er.decode("utf-8", "replace")[:800]))); continue
            got = tarx.snapshot(os.path.join(r, dirn))
            want = model(ents, keep)
            out.append(Fail("extracted tree differs: " + tarx.diff(want, got)) if got != want else None)
            top = set(os.listdir(r)) - {os.path.normpath(dirn).split("/")[0]}
            if top:
                out[-1] = Fail("created outside the target: %s" % sorted(top))
        for r in roots:
            shutil.rmtree(r, ignore_errors=True)
        return out


class Iterate(Prop):
    name = "iterate"
    rule = ("the same archives walked with the reader API (headers and contents in pieces of a generated size) and compared with what was "
            "written; non-trivial = three or more entries")
    batch = 100
    quick_n, quick_secs = 20000, 20
    thorough_n, thorough_secs = 300000, 200

    def gen(self, d):
        ents = tarx.tree(d, 4, 6)
        if not ents:
            ents = [("f", b"only", b"x")]
        rows, out = [], b""
        style = d.draw(3)
        for kind, p, data in ents:
            sp = tarx.split(p, d.draw(4))
            mode, uid, gid, mt = d.draw(0o10000), d.draw(1 << 21), d.draw(1 << 18), d.draw(1 << 32)
            if style == 2:
                uid, gid = uid & 0o777777, gid & 0o777777
            t = d.pick([b"0", b"0", b"0", b"1", b"2", b"6"]) if kind == "f" else b"5"
            link = b"" if t not in (b"1", b"2") else d.pick([b"t", b"../some/where", b"k" * 99])
            if t in (b"1", b"2", b"6"):
                data = b""
            out += tarx.header(sp[1], sp[0], t, len(data), mode, uid, gid, mt, link, style) + tarx.pad(data)
            rows.append((sp[0], sp[1], link, t[0], mode, uid, gid, mt, data))
        return (rows, out + b"\0" * 1024, d.pick([1, 7, 100, 512, 513, 4096, 100000]))

    def nontrivial(self, c, d):
        return len(c[0]) >= 3

    def show(self, c):
        return {"entries": [(r[0].decode("latin-1"), r[1].decode("latin-1"), chr(r[3]), len(r[8])) for r in c[0]], "chunk": c[2]}

    def run(self, cases, ctx):
        out = []
        for (rep, err), (rows, raw, chunk) in zip(pipe.all_replies(ctx.arch, [bytes([4]) + pipe.u32(c[2]) + pipe.s(c[1]) for c in cases]), cases):
            if rep is None:
                out.append(Fail("reader died: %s" % err)); continue
            r = pipe.Reader(rep)
            res, n = r.i32(), r.u32()
            if res != 0:
                out.append(Fail("valid archive refused: %d" % res)); continue
            got = []
            for _ in range(n):
                a = [r.bytes(), r.bytes(), r.bytes()]
                a += [r.u32() for _ in range(5)]
                size = r.u32() | r.u32() << 32
                data = r.bytes()
                got.append(tuple(a[:3]) + tuple(a[3:]) + (data,))
                if size != len(data):
                    got[-1] += ("size %d" % size,)
            want = [tuple(x) for x in rows]
            if got != want:
                for i in range(max(len(got), len(want))):
                    g = got[i] if i < len(got) else None
                    w = want[i] if i < len(want) else None
                    if g != w:
                        break
                out.append(Fail("entry %d of %d (read %d): expected %.400r, got %.400r" % (i, len(want), len(got), w, g)))
            else:
                out.append(None)
        return out


class CLI(Prop):
    name = "cli"
    rule = "cjit --xtgz run as an unprivileged user on a generated archive, in an empty directory; non-trivial = as for extract"
    batch = 1
    quick_n, quick_secs = 300, 20
    thorough_n, thorough_secs = 3000, 120

    def gen(self, d):
        ents = tarx.tree(d)
        if not [e for e in ents if e[0] == "f"]:
            ents.append(("f", b"only", tarx.content(d)))
        if any(e[1] == b"in.tgz" for e in ents):
            raise Discard()
        if d.chance(1, 8):
            ents.append(("f", b"big-zero", b"\0" * d.int(40000, 300000)))
        return (ents, wrap(d, archive(d, ents)))

    def nontrivial(self, c, d):
        return len([e for e in c[0] if e[0] == "f" and e[2]]) >= 2

    def show(self, c):
        return {"entries": [(k, p.decode("latin-1"), len(b)) for k, p, b in c[0]]}

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        r = fresh(ctx)
        try:
            owned(r + "/cwd")
            with open(r + "/in.tgz", "wb") as f:
                f.write(c[1])
            p = proc.run([ctx.b.cjit, "--xtgz", "../in.tgz"], cwd=r + "/cwd", timeout=60, pre=drop)
            if p.timeout:
                return Discard()
            if p.rc != 0:
                return Fail("--xtgz of a valid archive exits with %s: %s" % (p.rc, p.err.decode("utf-8", "replace")[:600]))
            want = model(c[0], {})
            got = tarx.snapshot(r + "/cwd")
            if want != got:
                return Fail("--xtgz: extracted tree differs: " + tarx.diff(want, got))
            if set(os.listdir(r)) != {"cwd", "in.tgz"}:
                return Fail("--xtgz created files outside the current directory: %s" % os.listdir(r))
        finally:
            shutil.rmtree(r, ignore_errors=True)


def drop():
    if os.getuid() == 0:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
    os.umask(0o022)


class C(Check):
    id = "B03"
    parts = [Extract(), Iterate(), CLI()]
    assumptions = ["domain: USTAR archives in which a directory's parents are listed before it, target path of at most 100 bytes, regular files and directories (links and devices are documented as left out)"]

    def setup(self, ctx):
        ctx.arch = build.driver(ctx.scratch, "arch", ["arch.c"], ["muntar.c", "tinflate.c", "tinfgzip.c"])
        ctx.area = os.path.join(ctx.scratch, "area")
        os.mkdir(ctx.area)
        os.chmod(ctx.scratch, 0o755)
        ctx.b = build.full(ctx.scratch, "p")


CHECK = C()
