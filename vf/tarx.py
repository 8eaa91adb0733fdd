"""USTAR archives: an own header writer, generators of trees, and reading back what was extracted."""
import os, stat, struct


def octal(v, width, style=0):
    if style == 0:
        return (b"%0*o\0" % (width - 1, v))
    if style == 1:                       # terminated by a space
        return (b"%0*o " % (width - 1, v))
    return (b"%0*o \0" % (width - 2, v)) if len(b"%o" % v) <= width - 2 else (b"%0*o\0" % (width - 1, v))


def split(name, where=None):
    """ustar name/prefix split of a long path (bytes) -> (prefix, name) or None"""
    opts = [i for i in range(len(name) - 1) if name[i:i + 1] == b"/" and i <= 155 and 0 < len(name) - i - 1 <= 100 and i > 0]
    if len(name) <= 100:
        opts = [None] + opts
    if not opts:
        return None
    o = opts[where % len(opts)] if where is not None else opts[0]
    return (b"", name) if o is None else (name[:o], name[o + 1:])


def header(name, prefix=b"", typ=b"0", size=0, mode=0o644, uid=0, gid=0, mtime=0, link=b"", style=0, uname=b"", gname=b"",
           magic=b"ustar\0", version=b"00", cksum_style=0, rawsize=None, badsum=None):
    h = bytearray(512)

    def fld(o, n, v):
        v = v[:n]
        h[o:o + len(v)] = v
    fld(0, 100, name)
    fld(100, 8, octal(mode, 8, style)); fld(108, 8, octal(uid, 8, style)); fld(116, 8, octal(gid, 8, style))
    fld(124, 12, octal(size, 12, style) if rawsize is None else rawsize)
    fld(136, 12, octal(mtime, 12, style))
    fld(148, 8, b" " * 8)
    fld(156, 1, typ); fld(157, 100, link); fld(257, 6, magic); fld(263, 2, version)
    fld(265, 32, uname); fld(297, 32, gname); fld(329, 8, octal(0, 8, style)); fld(337, 8, octal(0, 8, style))
    fld(345, 155, prefix)
    s = sum(h) + (badsum or 0)
    if cksum_style == 0:
        h[148:156] = b"%06o\0 " % s
    else:
        h[148:156] = b"%07o\0" % s
    return bytes(h)


def pad(b):
    return b + b"\0" * (-len(b) % 512)


NAMES = [b"a", b"b.c", b"README", b"x-1", b"inc", b"lib tcc", b".hid", b"..x", b"x..", b"...", b"h.h", b"\xc3\xa9t\xc3\xa9", b"A", b"d0", b"~", b"name.tar", b"%s", b"q'q"]


def component(d, longn=True):
    k = d.wpick([(8, 0), (3, 1), (1 if longn else 0, 2)])
    if k == 0:
        return d.pick(NAMES)
    if k == 1:
        return bytes(d.pick(b"abcxyzABC019_-+.,") for _ in range(d.int(1, 8))).strip(b".") or b"z"
    n = d.pick([50, 98, 99, 100, 60, 30, 97])
    return (b"L%d_" % n + b"n" * 120)[:n]


def content(d):
    k = d.wpick([(4, 0), (4, 1), (3, 2), (1, 3)])
    if k == 0:
        return d.bytes(d.int(0, 20))
    n = d.int(0, 1500) if k == 1 else d.pick([0, 1, 511, 512, 513, 1023, 1024, 1025, 1536]) if k == 2 else d.int(4000, 70000)
    seed = d.draw(1 << 16)
    unit = struct.pack("<HBB", seed, 0, 255) + b"text%d\n" % seed
    if d.chance(1, 3):
        unit = d.pick([b"\0", b"a", b"ab", b"ustar\x0000", unit])
    return (unit * (n // len(unit) + 1))[:n]


def tree(d, maxdirs=6, maxfiles=8, exact=True):
    """-> list of (kind, path, data) in archive order: parents of a directory come before it"""
    dirs, out, used = [b""], [], set()
    for _ in range(d.int(0, maxdirs)):
        p = d.pick(dirs)
        c = component(d)
        q = p + b"/" + c if p else c
        if q in used or len(q) > 240 or split(q + b"/") is None or split(q) is None:
            continue
        used.add(q); dirs.append(q)
        out.append(("d", q, b""))
    for _ in range(d.int(1, maxfiles)):
        p = d.pick(dirs)
        c = component(d)
        q = p + b"/" + c if p else c
        if q in used or len(q) > 250 or split(q) is None:
            continue
        used.add(q)
        # a file may come anywhere, before its directory too
        at = d.draw(len(out) + 1) if d.chance(1, 2) else len(out)
        out.insert(at, ("f", q, content(d)))
    if exact and d.chance(1, 6):
        # fields filled to the last byte
        d.label("exact")
        n = d.pick([155, 155, 154, 153, 100, 101])
        a = n // 2 + d.draw(9) - 4
        p1, p2 = b"D" * a, b"D" * a + b"/" + b"e" * (n - a - 1)
        name = b"f" * d.pick([100, 99, 98, 1, 5])
        if not {p1, p2} & used:
            for q in (p1, p2):
                out.append(("d", q, b""))
            out.append(("f", p2 + b"/" + name, content(d)))
            if d.draw(2):
                out.append(("f", b"g" * d.pick([100, 99]), content(d)))
    return out


def snapshot(root):
    """{relative path: ('d',) | ('f', bytes) | ('l', target) | (other,)}"""
    res = {}
    root = os.fsencode(root)
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                res[rel] = ("l", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                res[rel] = ("d",)
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    res[rel] = ("f", f.read())
            else:
                res[rel] = ("?", st.st_mode)
    return res


def diff(want, got):
    out = []
    for k in sorted(set(want) | set(got)):
        a, b = want.get(k), got.get(k)
        if a != b:
            def s(v):
                return "absent" if v is None else "directory" if v[0] == "d" else "%s %d bytes %r" % (v[0], len(v[1]), v[1][:40]) if v[0] == "f" else repr(v)
            out.append("%r: expected %s, got %s" % (k, s(a), s(b)))
    return "; ".join(out[:4])
