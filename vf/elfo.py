"""Small writer of ELF64 x86-64 relocatable objects, and a reader of ar archives."""
import struct

GLOBAL, WEAK, LOCAL, UNIQUE = 1, 2, 0, 10
NOTYPE, OBJECT, FUNC, COMMON, TLS, IFUNC = 0, 1, 2, 5, 6, 10
ABS, COM = 0xfff1, 0xfff2


class Strtab:
    def __init__(self):
        self.b = bytearray(1)
        self.at = {"": 0}

    def add(self, s):
        if s not in self.at:
            self.at[s] = len(self.b)
            self.b += s.encode() + b"\0"
        return self.at[s]


def obj(syms, style=0, tail=b"", symtab=True):
    """syms: list of dicts name, bind, type, where (text data bss abs com undef tls), val,
    calls (names), reads (names), vis.  Returns the bytes of the object.
    style bits: 1 section headers before the contents, 2 one string table for names of
    sections and symbols, 4 string tables first, 8 extra sections, 16 extra string table."""
    secs = [".text", ".data", ".bss", ".tdata"]
    text, data, tdata = bytearray(), bytearray(), bytearray()
    bss = 0
    rel = []                    # offset in text, symbol name, type, addend
    place = {}
    for s in syms:
        w = s["where"]
        if w == "text":
            while len(text) % 16:
                text.append(0x90)
            place[s["name"]] = (0, len(text))
            text += b"\x53\xbb" + struct.pack("<I", s["val"] & 0xffffffff)
            for c in s.get("calls", ()):
                text += b"\xe8\0\0\0\0"
                rel.append((len(text) - 4, c, 4, -4))
                text += b"\x01\xc3"
            for c in s.get("reads", ()):
                text += b"\x8b\x05\0\0\0\0"
                rel.append((len(text) - 4, c, 2, -4))
                text += b"\x01\xc3"
            if s.get("start"):
                text += b"\x89\xdf\xb8\x3c\0\0\0\x0f\x05"      # exit(ebx)
            else:
                text += b"\x89\xd8\x5b\xc3"
        elif w == "data":
            place[s["name"]] = (1, len(data))
            data += struct.pack("<I", s["val"] & 0xffffffff)
        elif w == "bss":
            place[s["name"]] = (2, bss)
            bss += 4
        elif w == "tls":
            place[s["name"]] = (3, len(tdata))
            tdata += struct.pack("<I", s["val"] & 0xffffffff)
    names = [".text", ".data", ".bss", ".tdata"]
    strs = Strtab()
    shs = strs if style & 2 else Strtab()
    # section list: (name, type, flags, bytes or size, link, info, align, entsize)
    body = [[".text", 1, 6, bytes(text), 0, 0, 16, 0], [".data", 1, 3, bytes(data), 0, 0, 4, 0], [".bss", 8, 3, bss, 0, 0, 4, 0]]
    if tdata:
        body.append([".tdata", 1, 0x403, bytes(tdata), 0, 0, 4, 0])
    if style & 8:
        body.append([".note.GNU-stack", 1, 0, b"", 0, 0, 1, 0])
        body.insert(0, [".comment", 1, 0x30, b"\0by hand\0", 0, 0, 1, 1])
    if style & 16:
        body.insert(0, [".stabstr", 3, 0, b"\0not the one\0", 0, 0, 1, 0])
    meta = []
    if symtab:
        meta.append([".symtab", 2, 0, None, 0, 0, 8, 24])
    meta.append([".strtab", 3, 0, None, 0, 0, 1, 0])
    if not style & 2:
        meta.append([".shstrtab", 3, 0, None, 0, 0, 1, 0])
    if symtab and rel:
        meta.append([".rela.text", 4, 0x40, None, 0, 0, 8, 24])
    if style & 4:
        meta.reverse()
        order = meta[:2] + body + meta[2:]
    else:
        order = body + meta
    index = {s[0]: i + 1 for i, s in enumerate(order)}
    # symbols: locals first
    table, symidx = [(0, 0, 0, 0, 0, 0)], {}
    allsyms = list(syms)
    known = {s["name"] for s in syms}
    for off, n, t, a in rel:
        if n not in known:
            known.add(n)
            allsyms.append({"name": n, "bind": GLOBAL, "type": NOTYPE, "where": "undef", "val": 0})
    if symtab:
        for s in sorted(allsyms, key=lambda s: s["bind"] != LOCAL):
            w = s["where"]
            if w in ("text", "data", "bss", "tls"):
                k, v = place[s["name"]]
                shn, val, size = index[names[k]], v, 4
            elif w == "abs":
                shn, val, size = ABS, s["val"], 0
            elif w == "com":
                shn, val, size = COM, 4, 4
            else:
                shn, val, size = 0, 0, 0
            symidx[s["name"]] = len(table)
            table.append((strs.add(s["name"]), s["bind"] << 4 | s["type"], s.get("vis", 0), shn, val, size))
    for s in order:
        shs.add(s[0])
    first_global = 1 + sum(s["bind"] == LOCAL for s in allsyms)
    content = {".symtab": b"".join(struct.pack("<IBBHQQ", *t) for t in table),
               ".strtab": bytes(strs.b), ".shstrtab": bytes(shs.b),
               ".rela.text": b"".join(struct.pack("<QQq", o, symidx.get(n, 0) << 32 | t, a) for o, n, t, a in rel)}
    for s in order:
        if s[3] is None:
            s[3] = content[s[0]]
        if s[0] == ".symtab":
            s[4], s[5] = index[".strtab"], first_global
        if s[0] == ".rela.text":
            s[4], s[5] = index[".symtab"], index[".text"]
    out = bytearray(64)
    shoff = 0
    if style & 1:
        shoff = 64
        out += bytes(64 * (len(order) + 1))
    heads = [bytes(64)]
    for n, t, f, b, l, i, al, es in order:
        while len(out) % al:
            out.append(0)
        size = b if t == 8 else len(b)
        heads.append(struct.pack("<IIQQQQIIQQ", shs.at[n], t, f, 0, len(out), size, l, i, al, es))
        if t != 8:
            out += b
    if not style & 1:
        while len(out) % 8:
            out.append(0)
        shoff = len(out)
        out += b"".join(heads)
    else:
        out[64:64 + 64 * len(heads)] = b"".join(heads)
    out[:64] = struct.pack("<4sBBBBQHHIQQQIHHHHHH", b"\x7fELF", 2, 1, 1, 0, 0, 1, 62, 1, 0, 0, shoff, 0, 64, 0, 0, 64, len(order) + 1, index[".strtab" if style & 2 else ".shstrtab"])
    return bytes(out) + tail


class Bad(Exception):
    pass


def read_ar(b):
    """-> members [(raw name, offset, bytes)], the index member among them"""
    if b[:8] != b"!<arch>\n":
        raise Bad("no magic")
    at, out = 8, []
    while at < len(b):
        if at & 1:
            raise Bad("member at odd offset %d" % at)
        h = b[at:at + 60]
        if len(h) != 60 or h[58:] != b"`\n":
            raise Bad("bad header at %d" % at)
        for lo, hi, base in ((16, 28, 10), (28, 34, 10), (34, 40, 10), (40, 48, 8), (48, 58, 10)):
            f = h[lo:hi].rstrip(b" ")
            try:
                int(f or b"0", base)
            except ValueError:
                raise Bad("header field %r at %d" % (f, at))
        n = int(h[48:58])
        if at + 60 + n > len(b):
            raise Bad("member runs past the end")
        out.append((h[:16], at, b[at + 60:at + 60 + n]))
        at += 60 + n
        if n & 1:
            if at >= len(b):
                raise Bad("padding of the last member missing")
            at += 1
    return out


def read_index(data):
    """the '/' member -> [(offset, name)]"""
    n = struct.unpack(">I", data[:4])[0]
    if len(data) < 4 + 4 * n:
        raise Bad("index too short")
    offs = struct.unpack(">%dI" % n, data[4:4 + 4 * n])
    rest = data[4 + 4 * n:]
    names = rest.split(b"\0")
    if len(names) < n + 1 or any(names[n:]) or len(names) > n + 2:
        raise Bad("index names: %d for %d offsets" % (len(names) - 1, n))
    return list(zip(offs, [x.decode("latin-1") for x in names[:n]]))


def write_ar(members, pad=b"\n", stamp=0):
    out = bytearray(b"!<arch>\n")
    for name, data in members:
        out += (name + "/").ljust(16).encode() + str(stamp).ljust(12).encode() + b"0     0     100644  " + str(len(data)).ljust(10).encode() + b"`\n" + data
        if len(data) & 1:
            out += pad
    return bytes(out)
