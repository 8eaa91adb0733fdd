"""B04: a malformed or hostile archive never crashes, never writes outside its target, and damage is reported."""
import os, shutil, struct, zlib
from vf import build, pipe, proc, tarx
from vf.pbt import Prop, Fail, Discard
from vf.runner import Check
from checks.B03 import archive, wrap, fresh, owned, drop

UP = [b"..", b"../x", b"../../x", b"a/../../x", b"../out2/x", b"../../../x", b"./../x", b"d/../../x", b"a/..", b"../", b"..//x", b"x/.."]
SAFE_ABS = [b"/abs1", b"//abs2", b"/abs3/"]


def pieces(d):
    """a list of [header bytes, data bytes, kind, path] plus the tail"""
    ents = tarx.tree(d, 4, 5)
    if not [e for e in ents if e[0] == "f"]:
        ents.append(("f", b"only", b"content of only"))
    out = []
    for kind, p, data in ents:
        sp = tarx.split(p)
        out.append([sp, b"5" if kind == "d" else b"0", data])
    return out


def build_one(e, **kw):
    (pre, name), typ, data = e
    kw.setdefault("size", 0 if typ == b"5" else len(data))
    return tarx.header(name, pre, typ, **kw) + (b"" if typ == b"5" else tarx.pad(data))


class Hostile(Prop):
    name = "hostile"
    rule = ("archives damaged or crafted: header checksum or field corruption, sizes beyond the archive, truncation, '..' components in name "
            "or prefix, random bytes, damaged gzip wrapping; extracted as an unprivileged user four levels deep in a scratch folder. Oracle: "
            "no crash or sanitizer report, nothing outside the target changes, and the damage classes that must be reported are; "
            "non-trivial = all")
    batch = 40
    quick_n, quick_secs = 20000, 60
    thorough_n, thorough_secs = 400000, 600

    def gen(self, d):
        es = pieces(d)
        kind = d.wpick([(3, "dotdot"), (2, "badsum"), (3, "oversize"), (2, "trunc"), (2, "flip"), (2, "fields"), (1, "random"), (2, "gz"), (1, "weird"), (1, "gzlie")])
        d.label(kind)
        must = False            # must be reported as an error
        opts = dict(style=d.draw(2), cksum_style=d.draw(2))
        gzipped = kind in ("gz", "gzlie") or d.chance(1, 4)
        end = b"\0" * 1024
        parts = [build_one(e, **opts) for e in es]
        if kind == "dotdot":
            up = d.pick(UP)
            typ = d.pick([b"0", b"0", b"5"])
            if d.chance(1, 3):
                pre, nm = d.pick([b"..", b"../..", b"a/..", b"../out2", b"./..", b"../", b"a/../.."]), d.pick([b"x", b"y/z", b"z"])
            else:
                pre, nm = b"", up
            i = d.draw(len(parts) + 1)
            data = d.bytes(d.int(0, 20))
            parts.insert(i, build_one([(pre, nm), typ, data], **opts))
            must = typ == b"0" or d.chance(1, 1)
        elif kind == "badsum":
            i = d.draw(len(es))
            delta = d.pick([1, -1, 8, 64, 256, 512, 3])
            parts[i] = build_one(es[i], badsum=delta, **opts)
            must = True
        elif kind == "oversize":
            i = len(es) - 1 if d.chance(1, 2) else d.draw(len(es))
            es[i][1] = b"0"
            rest = sum(len(p) for p in parts[i + 1:]) + len(parts[i]) - 512 + len(end)
            if d.chance(1, 2):
                sz = rest + d.wpick([(3, d.int(1, 600)), (2, d.int(1, 1 << 20)), (1, 0o77777777777 - rest)])
                parts[i] = build_one(es[i], size=sz, **opts)
            else:
                raw = d.pick([b"77777777777\0", b"777777777777", b"\x80\0\0\0\xff\xff\xff\xff\xff\xff\xff\xff", b"\xff" * 12, b"77777777777 ",
                              b"\x7f" * 11 + b"\0", b"99999999999\0", b"/\0" * 6, b"-0000000001\0", b"zzzzzzzzzzz\0"])
                parts[i] = build_one(es[i], rawsize=raw, **opts)
                sz = None
            must = sz is not None
        elif kind == "fields":
            i = d.draw(len(es))
            b = bytearray(parts[i])
            o, n = d.pick([(0, 100), (100, 8), (108, 8), (116, 8), (124, 12), (136, 12), (156, 1), (157, 100), (257, 8), (345, 155), (265, 64)])
            for _ in range(d.int(1, 12)):
                b[o + d.draw(n)] = d.pick([0, 32, 255, 47, 46, 49, 55, 128, d.draw(256)])
            h = b[:512]
            h[148:156] = b" " * 8
            b[148:156] = b"%06o\0 " % sum(h)
            parts[i] = bytes(b)
        elif kind == "weird":
            i = d.draw(len(es) + 1)
            parts.insert(i, build_one([(b"", d.pick([b"", b"/", b".", b"./", b"x" * 100, b"a//b", b"nodir/file", b"CON", b"\x01\x02"] + SAFE_ABS)),
                                       d.pick([b"0", b"5", b"\0", b"7", b"L", b"x", b"g", b"2", b"1", b"3", b"6"]), d.bytes(d.int(0, 30))], **opts))
        t = b"".join(parts) + end
        if kind == "trunc":
            t = t[:d.int(0, len(t) - 1)]
            if len(t) < 512:
                must = True
        elif kind == "flip":
            b = bytearray(t)
            for _ in range(d.int(1, 4)):
                b[d.draw(len(b))] ^= 1 << d.draw(8)
            t = bytes(b)
        elif kind == "random":
            t = d.bytes(d.int(0, 700))
            must = len(t) < 512
        raw = t
        if gzipped:
            raw = wrap(d, t)
        if kind == "gz":
            b = bytearray(raw)
            k = d.draw(4)
            if k == 0:
                b = b[:d.int(0, len(b) - 1)]
                must = True
            elif k == 1:
                i = d.int(len(b) - 8, len(b) - 1)
                b[i] ^= 1 << d.draw(8)
                must = True
            elif k == 2:
                b[d.draw(2)] ^= 1 << d.draw(8)
                must = True
            else:
                for _ in range(d.int(1, 5)):
                    b[d.draw(len(b))] = d.draw(256)
            raw = bytes(b)
        elif kind == "gzlie":
            raw = raw[:-4] + struct.pack("<I", d.pick([0, 1, 511, 0xFFFFFFFF, 0x7FFFFFFF, len(t) - 1, len(t) + 1, len(raw) * 1032, d.draw(1 << 32)]))
            must = struct.unpack("<I", raw[-4:])[0] != len(t)
        if must:
            d.label("must-report")
        return (gzipped, raw, must, kind)

    def show(self, c):
        return {"gz": c[0], "kind": c[3], "must_report": c[2], "bytes": c[1].hex()[:400]}

    def run(self, cases, ctx):
        reqs, roots, before = [], [], []
        for gzd, raw, must, kind in cases:
            r = fresh(ctx)
            p = r
            for n in ("l1", "l2", "l3", "l4"):
                p += "/" + n
                owned(p)
            for n in ("x", "y", "guard"):
                for q in (r, r + "/l1", r + "/l1/l2/l3", p):
                    open(q + "/" + n, "wb").write(b"untouched"); os.chown(q + "/" + n, 65534, 65534)
            owned(p + "/out2")
            roots.append(r)
            before.append(tarx.snapshot(r))
            reqs.append(bytes([3 if gzd else 2]) + pipe.s(p) + pipe.s("out") + pipe.s(raw))
        out = []
        pref = b"l1/l2/l3/l4/out"
        for (rep, err), (gzd, raw, must, kind), r, bef in zip(pipe.all_replies(ctx.arch, reqs, timeout=180), cases, roots, before):
            if rep is None:
                out.append(Fail("extraction driver died: %s" % err)); continue
            rd = pipe.Reader(rep)
            st, er = rd.u32(), rd.bytes().decode("utf-8", "replace")
            aft = {k: v for k, v in tarx.snapshot(r).items() if k != pref and not k.startswith(pref + b"/")}
            if st == 77:
                out.append(Discard())
            elif aft != bef:
                out.append(Fail("extraction changed something outside its target: " + tarx.diff(bef, aft)))
            elif st not in (0, 1):
                out.append(Fail("extraction died (%s): %s" % ("signal %d" % (st - 1000) if st >= 1000 else "status %d" % st, er[:1200])))
            elif must and st == 0:
                out.append(Fail("damaged archive (%s) extracted without an error" % kind))
            else:
                out.append(None)
        for r in roots:
            shutil.rmtree(r, ignore_errors=True)
        return out


class ListHostile(Prop):
    name = "reader"
    rule = "the same malformed archives walked with the reader API under ASan/UBSan: it ends, within the buffer; non-trivial = all"
    batch = 100
    quick_n, quick_secs = 30000, 20
    thorough_n, thorough_secs = 500000, 200
    gen = Hostile.gen
    show = Hostile.show

    def gen(self, d):
        g, raw, must, kind = Hostile.gen(self, d)
        if g:
            raise Discard()
        return (raw, d.pick([0, 1, 100, 512, 4096]), kind)

    def show(self, c):
        return {"kind": c[2], "bytes": c[0].hex()[:400]}

    def run(self, cases, ctx):
        res = pipe.all_replies(ctx.arch, [bytes([4]) + pipe.u32(c[1]) + pipe.s(c[0]) for c in cases], timeout=120)
        return [Fail("reader died: %s" % err) if rep is None else None for rep, err in res]


class WriteFault(Prop):
    name = "write-fault"
    rule = "a valid archive extracted under a limit on file size: it either extracts everything exactly or reports an error; non-trivial = the limit bites"
    batch = 40
    quick_n, quick_secs = 4000, 20
    thorough_n, thorough_secs = 60000, 120

    def gen(self, d):
        ents = tarx.tree(d, 3, 5)
        if not [e for e in ents if e[0] == "f"]:
            ents.append(("f", b"only", tarx.content(d)))
        return (ents, archive(d, ents), d.pick([0, 1, 5, 100, 511, 512, 1000, 4096, 5000]))

    def nontrivial(self, c, d):
        return any(k == "f" and len(b) > c[2] for k, p, b in c[0])

    def show(self, c):
        return {"entries": [(k, p.decode("latin-1"), len(b)) for k, p, b in c[0]], "limit": c[2]}

    def run(self, cases, ctx):
        roots = [fresh(ctx) for _ in cases]
        reqs = [b"\5" + pipe.u32(c[2]) + pipe.s(r) + pipe.s("out") + pipe.s(c[1]) for c, r in zip(cases, roots)]
        out = []
        for (rep, err), c, r in zip(pipe.all_replies(ctx.arch, reqs, timeout=120), cases, roots):
            if rep is None:
                out.append(Fail("extraction driver died: %s" % err)); continue
            rd = pipe.Reader(rep)
            st, er = rd.u32(), rd.bytes().decode("utf-8", "replace")
            bites = any(k == "f" and len(b) > c[2] for k, p, b in c[0])
            if st == 77:
                out.append(Discard())
            elif st not in (0, 1):
                out.append(Fail("extraction died (%d): %s" % (st, er[:800])))
            elif bites and st == 0:
                out.append(Fail("files could not be written in full and extraction reported success"))
            elif not bites and st != 0:
                out.append(Fail("extraction failed although every file fits: %s" % er[:400]))
            else:
                out.append(None)
            shutil.rmtree(r, ignore_errors=True)
        return out


class CLIBad(Prop):
    name = "cli"
    rule = "cjit --xtgz on the damaged archives that must be reported: it exits non-zero, without a crash, changing nothing outside the current directory; non-trivial = all"
    batch = 1
    quick_n, quick_secs = 500, 15
    thorough_n, thorough_secs = 5000, 120

    def gen(self, d):
        g, raw, must, kind = Hostile.gen(self, d)
        if not must:
            raise Discard()
        if not g:
            raw = wrap(d, raw)
        return (raw, kind)

    def show(self, c):
        return {"kind": c[1], "bytes": c[0].hex()[:400]}

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def one(self, c, ctx):
        r = fresh(ctx)
        try:
            p = r
            for n in ("l1", "l2", "l3", "l4"):
                p += "/" + n
                owned(p)
            with open(r + "/in.tgz", "wb") as f:
                f.write(c[0])
            bef = tarx.snapshot(r)
            q = proc.run([ctx.b.cjit, "--xtgz", r + "/in.tgz"], cwd=p, timeout=60, pre=drop)
            if q.timeout:
                return Fail("--xtgz does not end")
            pre = b"l1/l2/l3/l4/"
            aft = {k: v for k, v in tarx.snapshot(r).items() if not k.startswith(pre)}
            if aft != bef:
                return Fail("--xtgz changed something outside the current directory: " + tarx.diff(bef, aft))
            if q.rc == 0:
                return Fail("--xtgz of a damaged archive (%s) exits with 0" % c[1])
            if q.rc < 0:
                return Fail("--xtgz died with signal %d" % -q.rc)
        finally:
            shutil.rmtree(r, ignore_errors=True)


class C(Check):
    id = "B04"
    parts = [Hostile(), ListHostile(), WriteFault(), CLIBad()]
    assumptions = ["ASan/UBSan see every out-of-bounds access", "the '..' components generated climb at most three levels, so an escaping extraction stays inside the scratch folder"]

    def setup(self, ctx):
        ctx.arch = build.driver(ctx.scratch, "arch", ["arch.c"], ["muntar.c", "tinflate.c", "tinfgzip.c"])
        ctx.area = os.path.join(ctx.scratch, "area")
        os.mkdir(ctx.area)
        os.chmod(ctx.scratch, 0o755)
        ctx.b = build.full(ctx.scratch, "p")


CHECK = C()
