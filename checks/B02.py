"""B02: invalid or damaged gzip input is refused, and nothing outside the buffers is touched."""
import struct, zlib
from vf import build, pipe, gz
from vf.pbt import Prop, Fail
from vf.runner import Check
from checks.B01 import req

CRAFT = ["oversub", "incomplete", "no-eob", "hlit", "hdist", "rep16-first", "rep-overrun", "dist-too-far", "lsym286", "dsym30",
         "btype3", "stored-len", "stored-short", "empty-dist-used", "no-final", "one-code-1bit", "single-len2"]


def crafted(d, kind):
    """a deflate stream broken in one specific way"""
    b, out = gz.Bits(), bytearray()
    for _ in range(d.draw(2)):
        gz.block(d, b, out, False)
    b.put(1, 1)
    if kind == "btype3":
        b.put(3, 2); b.put(d.draw(1 << 20), 20)
        return b.bytes(), bytes(out)
    if kind in ("stored-len", "stored-short"):
        n = d.int(0, 30)
        b.put(0, 2); b.align()
        data = d.bytes(n)
        b.raw(struct.pack("<HH", n + (5 if kind == "stored-short" else 0), (n ^ 0xFFFF) ^ (1 << d.draw(16)) if kind == "stored-len" else (n + 5) ^ 0xFFFF) + data)
        return b.bytes(), bytes(out) + data
    if kind in ("dist-too-far", "lsym286", "dsym30", "no-final") and d.chance(1, 2):
        b.put(1, 2)
        toks = gz.tokens(d, out)
        lc, dc = gz.FIXL, gz.canon([5] * 32)
        for t in toks:
            if isinstance(t, int):
                b.code(*lc[t])
            else:
                s = gz.lsym(t[0]); b.code(*lc[257 + s]); b.put(t[0] - gz.LBASE[s], gz.LB[s])
                k = gz.dsym(t[1]); b.code(*dc[k]); b.put(t[1] - gz.DBASE[k], gz.DB[k])
        if kind == "lsym286":
            b.code(*lc[286 + d.draw(2)])
        elif kind == "dsym30":
            b.code(*lc[257]); b.code(*dc[30 + d.draw(2)])
        elif kind == "dist-too-far":
            far = len(out) + d.int(1, 3)
            if far <= 32768:
                b.code(*lc[257]); k = gz.dsym(far); b.code(*dc[k]); b.put(far - gz.DBASE[k], gz.DB[k])
        if kind != "no-final":
            b.code(*lc[256])
        return b.bytes(), bytes(out)
    # dynamic header with a chosen flaw
    L, D = [0] * 286, [0] * 30
    syms = [97, 98, 99, 256, 257]
    for s, l in zip(syms, [2, 2, 2, 3, 3]):
        L[s] = l
    D[0] = D[1] = 1
    hl, hd = 258, 2
    if kind == "oversub":
        L[d.pick([100, 0, 255])] = d.int(1, 3)
        if d.chance(1, 2):
            D[2] = d.int(1, 4); hd = 3
    elif kind == "incomplete":
        if d.chance(1, 2):
            L[97] = 0
        else:
            D[1] = 2
    elif kind == "no-eob":
        L[256] = 0; L[100] = 3
    elif kind == "empty-dist-used":
        D = [0] * 30; hd = 1
    elif kind == "one-code-1bit":
        D = [0] * 30; D[d.draw(3)] = 1; hd = 3
    elif kind == "single-len2":
        D = [0] * 30; D[0] = d.int(2, 5); hd = 1
    cl = [0] * 19
    for s in (0, 1, 2, 3, 4, 5, 18, 16):
        cl[s] = 3
    b.put(2, 2)
    # nothing else is wrong with these
    if kind == "hlit":
        hl = 287 + d.draw(2); L += [0, 0]
    elif kind == "hdist":
        hd = 31 + d.draw(2); D += [0, 0]
    b.put(hl - 257, 5)
    b.put(hd - 1, 5)
    b.put(15, 4)
    for i in range(19):
        b.put(cl[gz.CLC[i]], 3)
    cc = gz.canon(cl)
    seq = L[:hl] + D[:hd]
    i = 0
    if kind == "rep16-first":
        b.code(*cc[16]); b.put(0, 2); i = 3
    while i < len(seq):
        run = 1
        while i + run < len(seq) and seq[i + run] == seq[i]:
            run += 1
        if seq[i] == 0 and run >= 11:
            k = min(run, 138)
            b.code(*cc[18]); b.put(k - 11, 7); i += k
        else:
            b.code(*cc[seq[i]]); i += 1
            if kind == "rep-overrun" and i == len(seq) - 1:
                b.code(*cc[18]); b.put(d.draw(128), 7); break
    lc = gz.canon(L)
    c97 = lc.get(98)
    for _ in range(d.int(1, 5)):
        b.code(*c97); out += b"b"
    if kind in ("dist-too-far", "empty-dist-used", "one-code-1bit", "dsym30"):
        b.code(*lc[257]); b.put(d.draw(2), 1)
        out += out[-1:] * 3
    if kind not in ("no-eob", "no-final"):
        b.code(*lc[256])
    else:
        b.code(*c97)
    return b.bytes(), bytes(out)


class Damaged(Prop):
    name = "damaged"
    rule = ("a gzip member damaged by truncation, bit flips, byte edits, insertions, header/trailer edits, or a deflate stream crafted with "
            "one specific flaw, against an independent zlib-based reading; non-trivial = that reading says the input is invalid")
    batch = 100
    quick_n, quick_secs = 150000, 60
    thorough_n, thorough_secs = 3000000, 600

    def gen(self, d):
        kind = d.wpick([(3, "craft"), (3, "flip"), (2, "trunc"), (2, "edit"), (2, "header"), (2, "trailer"), (1, "insert"), (1, "random"), (1, "delete")])
        d.label(kind)
        if kind == "craft":
            k = d.pick(CRAFT)
            d.label("craft:" + k)
            s, c = crafted(d, k)
            m, h = gz.member(d, s, c)
            return (m, len(c) + d.wpick([(2, 0), (2, 300), (1, 70000)]), k)
        if kind == "random":
            m = b"\x1f\x8b\x08" + bytes([d.pick([0, 0, 4, 8, 16, 2, 31])]) + d.bytes(d.int(0, 60))
            return (m, d.int(0, 400), kind)
        s, c = gz.deflate(d)
        if len(s) > 3000:
            d.label("long")
        m, h = gz.member(d, s, c)
        b = bytearray(m)
        if kind == "flip":
            for _ in range(d.int(1, 3)):
                i = d.draw(len(b))
                b[i] ^= 1 << d.draw(8)
        elif kind == "trunc":
            b = b[:d.int(0, len(b) - 1) if d.chance(2, 3) else max(0, len(b) - d.int(1, 12))]
        elif kind == "edit":
            for _ in range(d.int(1, 4)):
                b[d.draw(len(b))] = d.draw(256)
        elif kind == "header":
            i = d.draw(min(len(b), h + 2))
            b[i] = d.wpick([(1, 0), (1, 255), (3, d.draw(256))])
        elif kind == "trailer":
            i = len(b) - 1 - d.draw(8)
            b[i] = (b[i] + d.int(1, 255)) & 255
        elif kind == "insert":
            i = d.draw(len(b) + 1)
            b[i:i] = d.bytes(d.int(1, 3))
        elif kind == "delete":
            i = d.draw(len(b))
            del b[i:i + d.int(1, 4)]
        return (bytes(b), len(c) + d.wpick([(3, 0), (2, 64), (1, 5000)]), kind)

    def nontrivial(self, c, d):
        ref = gz.reference(c[0])
        d.label("invalid" if ref is None else "still-valid")
        return ref is None

    def show(self, c):
        return {"bytes": c[0].hex()[:600], "dest": c[1], "damage": c[2]}

    def run(self, cases, ctx):
        return [self.judge(rep, err, m, cap) for (rep, err), (m, cap, k) in
                zip(pipe.all_replies(ctx.arch, [req(cap, m) for m, cap, k in cases]), cases)]

    def judge(self, rep, err, m, cap):
        if rep is None:
            return Fail("gunzip of damaged input died: %s" % err)
        ref = gz.reference(m)
        r = pipe.Reader(rep)
        ret, n, data = r.i32(), r.u32(), r.bytes()
        if ref is None:
            if ret == 0:
                return Fail("damaged member accepted (%d bytes out)" % n)
            if ret not in (-3, -5):
                return Fail("damaged member: undocumented result %d" % ret)
        elif len(ref) <= cap:
            if ret != 0 or data != ref:
                return Fail("member that is still valid: returned %d, content %s" % (ret, "equal" if data == ref else "different"))
        elif ret != -5:
            return Fail("destination too small: returned %d" % ret)
        return None


class C(Check):
    id = "B02"
    parts = [Damaged()]
    assumptions = ["Python's zlib is the reference for deflate and CRC-32", "ASan/UBSan see every out-of-bounds access"]

    def setup(self, ctx):
        ctx.arch = build.driver(ctx.scratch, "arch", ["arch.c"], ["muntar.c", "tinflate.c", "tinfgzip.c"])


CHECK = C()
