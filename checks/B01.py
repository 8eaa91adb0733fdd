"""B01/B02 share this file: gunzip against zlib."""
import struct, zlib
from vf import build, pipe, gz
from vf.pbt import Prop, Fail
from vf.runner import Check


def req(cap, src):
    return struct.pack("<BI", 1, cap) + pipe.s(src)


class Valid(Prop):
    name = "valid"
    rule = ("one gzip member (header flags, zlib at all levels/strategies or a hand-made deflate stream with odd Huffman shapes), "
            "destination exactly sized, larger or one short; non-trivial = more than one symbol of content")
    batch = 100
    quick_n, quick_secs = 120000, 60
    thorough_n, thorough_secs = 3000000, 600

    def gen(self, d):
        s, c = gz.deflate(d)
        m, _ = gz.member(d, s, c)
        slack = d.wpick([(5, 0), (3, d.int(1, 300)), (2, -1), (1, -d.int(1, 50))])
        return (m, c, max(0, len(c) + slack))

    def nontrivial(self, c, d):
        return len(c[1]) > 1

    def show(self, c):
        return {"gzip": c[0].hex()[:600], "content": c[1][:120].decode("latin-1"), "content_len": len(c[1]), "dest": c[2]}

    def run(self, cases, ctx):
        out = []
        for (rep, err), (m, c, cap) in zip(pipe.all_replies(ctx.arch, [req(cap, m) for m, c, cap in cases]), cases):
            out.append(self.judge(rep, err, m, c, cap))
        return out

    def judge(self, rep, err, m, c, cap):
        if rep is None:
            return Fail("gunzip of a valid member died: %s" % err)
        assert gz.reference(m) == c
        r = pipe.Reader(rep)
        ret, n, data = r.i32(), r.u32(), r.bytes()
        if cap < len(c):
            if ret != -5:
                return Fail("destination of %d bytes for %d bytes of content: returned %d, not the buffer error" % (cap, len(c), ret))
            return None
        if ret != 0:
            return Fail("valid member refused: returned %d (content %d bytes)" % (ret, len(c)))
        if n != len(c) or data != c:
            k = next((i for i in range(min(len(c), len(data))) if c[i] != data[i]), min(len(c), len(data)))
            return Fail("wrong content: length %d for %d, first difference at %d" % (n, len(c), k))
        return None


class C(Check):
    id = "B01"
    parts = [Valid()]
    assumptions = ["Python's zlib is the reference for deflate and CRC-32"]

    def setup(self, ctx):
        ctx.arch = build.driver(ctx.scratch, "arch", ["arch.c"], ["muntar.c", "tinflate.c", "tinfgzip.c"])


CHECK = C()
