"""Generators and an independent reader for gzip members and deflate streams."""
import heapq, struct, zlib

LB = [0]*8 + [1]*4 + [2]*4 + [3]*4 + [4]*4 + [5]*4 + [0]
LBASE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
DB = [0, 0, 0, 0] + [i // 2 for i in range(2, 28)]
DBASE = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
         8193, 12289, 16385, 24577]
CLC = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


class Bits:
    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, v, n):
        self.v |= (v & ((1 << n) - 1)) << self.n
        self.n += n

    def code(self, c, n):
        for i in range(n - 1, -1, -1):
            self.put(c >> i & 1, 1)

    def align(self):
        self.n = (self.n + 7) // 8 * 8

    def raw(self, b):
        assert self.n % 8 == 0
        self.v |= int.from_bytes(b, "little") << self.n
        self.n += 8 * len(b)

    def bytes(self):
        return self.v.to_bytes((self.n + 7) // 8, "little")


def canon(lengths):
    out, code = {}, 0
    for ln in range(1, 16):
        for s, l in enumerate(lengths):
            if l == ln:
                out[s] = (code, ln)
                code += 1
        code <<= 1
    return out


def random_tree(d, used, total, maxlen):
    """complete code lengths for the used symbols, shape chosen by d"""
    used = sorted(set(used))
    L = [0] * total
    if len(used) == 0:
        return L
    if len(used) == 1:
        L[used[0]] = 1
        return L
    leaves = [1, 1]
    while len(leaves) < len(used):
        cand = [i for i, l in enumerate(leaves) if l < maxlen]
        mode = d.draw(4)
        if mode == 0:
            i = min(cand, key=lambda i: leaves[i])
        elif mode == 1:
            i = max(cand, key=lambda i: leaves[i]) if len(used) - len(leaves) < 40 else min(cand, key=lambda i: leaves[i])
        else:
            i = cand[d.draw(len(cand))]
        l = leaves.pop(i)
        leaves += [l + 1, l + 1]
    order = d.shuffle(leaves) if len(leaves) < 60 else sorted(leaves)
    for s, l in zip(used, order):
        L[s] = l
    return L


def lsym(n):
    for i in range(28, -1, -1):
        if n >= LBASE[i] and (i != 28 or n == 258):
            if n - LBASE[i] < (1 << LB[i]):
                return i
    raise AssertionError


def dsym(n):
    for i in range(29, -1, -1):
        if n >= DBASE[i]:
            return i


def tokens(d, out):
    """a random token list; appends to the bytearray out"""
    toks = []
    n = d.wpick([(2, 3), (3, 12), (2, 40), (1, 120)])
    alpha = d.pick([b"a", b"ab", b"abc \n", bytes(range(256)), b"\0", b"\xff\x00Z"])
    for _ in range(d.int(0, n)):
        if out and d.chance(2, 5):
            dist = d.wpick([(3, 1), (3, 4), (2, 300), (2, 32768)])
            dist = min(len(out), 32768, d.int(1, dist)) if dist < 32768 else min(len(out), 32768 - d.draw(3))
            if d.chance(1, 6):
                dist = min(len(out), d.pick(DBASE))
            ln = d.wpick([(3, d.int(3, 12)), (2, d.int(3, 258)), (1, 258), (1, 257), (1, d.pick(LBASE))])
            toks.append((ln, dist))
            for _ in range(ln):
                out.append(out[-dist])
        else:
            c = alpha[d.draw(len(alpha))]
            toks.append(c)
            out.append(c)
    return toks


def write_tokens(b, toks, lc, dc, alt258=False):
    for t in toks:
        if isinstance(t, int):
            b.code(*lc[t])
        else:
            ln, dist = t
            s = lsym(ln)
            if ln == 258 and alt258:
                s = 27                      # 227 + 31: the other way to say 258
                b.code(*lc[257 + s])
                b.put(31, 5)
            else:
                b.code(*lc[257 + s])
                b.put(ln - LBASE[s], LB[s])
            k = dsym(dist)
            b.code(*dc[k])
            b.put(dist - DBASE[k], DB[k])
    b.code(*lc[256])


FIXL = canon([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
FIXD = canon([5] * 30)


def rle(d, lens):
    out, i = [], 0
    while i < len(lens):
        v, run = lens[i], 1
        while i + run < len(lens) and lens[i + run] == v:
            run += 1
        if v == 0 and run >= 3 and d.chance(7, 8):
            k = min(run, 138)
            if k >= 11 and d.chance(7, 8):
                k = d.int(11, k) if d.chance(1, 4) else k
                out.append((18, k - 11, 7)); i += k
            else:
                k = min(k, 10)
                out.append((17, k - 3, 3)); i += k
        elif i and lens[i - 1] == v and run >= 3 and d.chance(7, 8):
            k = min(run, 6)
            out.append((16, k - 3, 2)); i += k
        else:
            out.append((v, 0, 0)); i += 1
    return out


def block(d, b, out, final):
    kind = d.draw(3)
    b.put(1 if final else 0, 1)
    if kind == 0:
        n = d.wpick([(1, 0), (4, d.int(0, 20)), (1, d.int(0, 4000)), (1, 65535 if d.chance(1, 8) else 700)])
        data = bytes((i * 37 + d.draw(256)) & 255 for i in range(min(n, 32)))
        data = (data * (n // max(1, len(data)) + 1))[:n]
        b.put(0, 2)
        b.align()
        b.raw(struct.pack("<HH", n, n ^ 0xFFFF) + data)
        out += data
        d.label("stored")
        return
    toks = tokens(d, out)
    if kind == 1:
        b.put(1, 2)
        write_tokens(b, toks, FIXL, FIXD, d.chance(1, 4))
        d.label("fixed")
        return
    d.label("dynamic")
    alt = d.chance(1, 4)
    lu, du = {256}, set()
    for t in toks:
        if isinstance(t, int):
            lu.add(t)
        else:
            lu.add(257 + (27 if alt and t[0] == 258 else lsym(t[0])))
            du.add(dsym(t[1]))
    for _ in range(d.draw(4)):
        lu.add(d.draw(286))
        if d.chance(1, 2):
            du.add(d.draw(30))
    if len(lu) == 1 and d.chance(1, 2):
        lu.add(d.draw(256))
    L = random_tree(d, lu, 286, 15)
    D = random_tree(d, du, 30, 15)
    hl = max(257, max(i for i in range(286) if L[i]) + 1)
    hl = d.int(hl, 286) if d.chance(1, 4) else hl
    hd = max([i + 1 for i in range(30) if D[i]] + [1])
    hd = d.int(hd, 30) if d.chance(1, 4) else hd
    syms = rle(d, L[:hl] + D[:hd])
    cu = {s for s, _, _ in syms}
    if len(cu) == 1:
        cu.add((next(iter(cu)) + 1) % 19)
    CL = random_tree(d, cu, 19, 7)
    nc = max(4, max(i for i in range(19) if CL[CLC[i]]) + 1)
    nc = d.int(nc, 19) if d.chance(1, 4) else nc
    b.put(2, 2)
    b.put(hl - 257, 5); b.put(hd - 1, 5); b.put(nc - 4, 4)
    for i in range(nc):
        b.put(CL[CLC[i]], 3)
    cc = canon(CL)
    for s, x, n in syms:
        b.code(*cc[s])
        b.put(x, n)
    write_tokens(b, toks, canon(L), canon(D), alt)


def content(d):
    kind = d.draw(6)
    n = d.wpick([(2, d.int(0, 3)), (4, d.int(0, 200)), (3, d.int(0, 5000)), (1, d.int(0, 200000))])
    if kind == 0:
        return bytes(n)
    if kind == 1:
        import random
        return random.Random(d.draw(1 << 30)).randbytes(n)
    if kind == 2:
        w = [b"int ", b"main", b"(", b")", b"return ", b";\n", b"#include <stdio.h>\n", b"x", b"\t"]
        r, out = d.draw(1 << 30), bytearray()
        import random
        rr = random.Random(r)
        while len(out) < n:
            out += rr.choice(w)
        return bytes(out[:n])
    if kind == 3:
        p = d.bytes(d.int(1, 9))
        return (p * (n // len(p) + 1))[:n]
    if kind == 4:       # a repeat at a chosen distance
        import random
        p = random.Random(d.draw(1 << 30)).randbytes(min(40000, d.pick([1, 2, 257, 258, 259, 4096, 32767, 32768])))
        return p + p[:d.int(0, 600)] + p[-300:]
    return bytes((i * i >> 3) & 255 for i in range(n))


def deflate(d):
    """-> (deflate stream, content)"""
    if d.chance(1, 2):
        c = content(d)
        lv = d.pick([9, 1, 6, 0, 3])
        st = d.pick([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FILTERED])
        o = zlib.compressobj(lv, zlib.DEFLATED, -d.pick([15, 9, 12]), d.pick([8, 1, 9]), st)
        s, k = b"", d.draw(4)
        for i in range(k):
            s += o.compress(c[len(c) * i // (k + 1):len(c) * (i + 1) // (k + 1)]) + o.flush(d.pick([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH]))
        s += o.compress(c[len(c) * k // (k + 1):]) + o.flush()
        d.label("zlib-made")
        return s, c
    b, out = Bits(), bytearray()
    n = d.wpick([(4, 1), (3, 2), (1, 4)])
    for i in range(n):
        block(d, b, out, i == n - 1)
    d.label("hand-made")
    return b.bytes(), bytes(out)


def member(d, stream, content, bad_hcrc=False):
    flg, h = 0, b""
    tail = b""
    if d.chance(1, 3):
        flg |= 1
        tail_text = 1
    if d.chance(1, 4):
        flg |= 4
        x = d.bytes(d.wpick([(3, d.int(0, 12)), (1, 300)]))
        tail += struct.pack("<H", len(x)) + x
    if d.chance(1, 3):
        flg |= 8
        tail += bytes(1 + d.draw(255) for _ in range(d.int(0, 20))) + b"\0"
    if d.chance(1, 4):
        flg |= 16
        tail += bytes(1 + d.draw(255) for _ in range(d.int(0, 20))) + b"\0"
    hc = d.chance(1, 4)
    if hc:
        flg |= 2
    h = b"\x1f\x8b\x08" + bytes([flg]) + struct.pack("<I", d.draw(1 << 32)) + bytes([d.pick([0, 2, 4]), d.pick([3, 0, 255])]) + tail
    if hc:
        v = zlib.crc32(h) & 0xFFFF
        h += struct.pack("<H", v)
    if flg:
        d.label("header-flags")
    return h + stream + struct.pack("<II", zlib.crc32(content), len(content) & 0xFFFFFFFF), len(h)


def reference(src):
    """An independent reading of one gzip member filling src: content or None."""
    if len(src) < 18 or src[:3] != b"\x1f\x8b\x08" or src[3] & 0xE0:
        return None
    flg, p = src[3], 10
    if flg & 4:
        p += 2 + struct.unpack_from("<H", src, 10)[0]
    for bit in (8, 16):
        if flg & bit:
            z = src.find(b"\0", p) if p <= len(src) else -1
            if z < 0:
                return None
            p = z + 1
    if flg & 2:
        if p + 2 > len(src) or struct.unpack_from("<H", src, p)[0] != zlib.crc32(src[:p]) & 0xFFFF:
            return None
        p += 2
    if len(src) - p < 8:
        return None
    o = zlib.decompressobj(-15)
    try:
        c = o.decompress(src[p:-8], 1 << 24)
    except zlib.error:
        return None
    if not o.eof:
        return None
    crc, n = struct.unpack("<II", src[-8:])
    if crc != zlib.crc32(c) or n != len(c):
        return None
    return c
