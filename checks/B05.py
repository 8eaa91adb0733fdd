"""B05: the path library against a split-based reference model."""
import struct
from vf import build, pipe
from vf.pbt import Prop, Fail
from vf.runner import Check

UNIX, WIN = 0, 1


# ---------------------------------------------------------------- model
def seps(st):
    return "\\/" if st else "/"


def is_sep(c, st):
    return c != "" and c in seps(st)


def next_stop(p, i, st):
    while i < len(p) and not is_sep(p[i], st):
        i += 1
    return i


def root(p, st):
    if st == UNIX:
        return 1 if p[:1] == "/" else 0
    if not p:
        return 0
    if is_sep(p[0], st):
        if not is_sep(p[1:2], st):
            return 1
        if p[2:3] in ("?", ".") and p[2:3] and is_sep(p[3:4], st):
            return 4
        i = 2
        if p[2:3] and p[2] in "?.":
            i = 3
        i = next_stop(p, i, st)
        while i < len(p) and is_sep(p[i], st):
            i += 1
        i = next_stop(p, i, st)
        if i < len(p) and is_sep(p[i], st):
            i += 1
        return i
    if p[1:2] == ":":
        return 3 if is_sep(p[2:3], st) else 2
    return 0


def absolute(p, st):
    n = root(p, st)
    return n > 0 and is_sep(p[n - 1], st)


def segs(p, st, start):
    """[(begin, end)]"""
    out, i = [], start
    while i < len(p):
        if is_sep(p[i], st):
            i += 1
            continue
        e = next_stop(p, i, st)
        out.append((i, e))
        i = e
    return out


def resolve(names, absol):
    """surviving positions of a segment list"""
    st = []
    for k, n in enumerate(names):
        if n == ".":
            continue
        if n == "..":
            if st and names[st[-1]] != "..":
                st.pop()
            elif not absol:
                st.append(k)
        else:
            st.append(k)
    return st


def join(paths, st):
    n = root(paths[0], st)
    r = paths[0][:n]
    if st == WIN:
        r = r.replace("/", "\\")
    ab = absolute(paths[0], st)
    names, started = [], False
    for i, p in enumerate(paths):
        sg = segs(p, st, root(p, st) if not started else 0)
        if sg:
            started = True
        names += [p[b:e] for b, e in sg]
    if not names:
        return r
    keep = resolve(names, ab)
    s = r + ("\\" if st else "/").join(names[k] for k in keep)
    return s or "."


def same(a, b, st):
    if st == UNIX:
        return a == b
    return a.lower().replace("/", "\\") == b.lower().replace("/", "\\")


def visible(p, st):
    sg = segs(p, st, root(p, st))
    return [sg[k] for k in resolve([p[b:e] for b, e in sg], absolute(p, st))]


def common(a, b, st):
    va, vb = visible(a, st), visible(b, st)
    k = 0
    while k < len(va) and k < len(vb) and same(a[va[k][0]:va[k][1]], b[vb[k][0]:vb[k][1]], st):
        k += 1
    return va, vb, k


def relative(a, b, st):
    ra, rb = a[:root(a, st)], b[:root(b, st)]
    if not same(ra, rb, st):
        return "", True
    va, vb, k = common(a, b, st)
    ok = all(a[x:y] != ".." for x, y in va[k:])
    out = [".."] * (len(va) - k) + [b[x:y] for x, y in vb[k:]]
    return (("\\" if st else "/").join(out) or "."), ok


def strip(v, st):
    return v.strip(seps(st))


OPS = ["normalize", "join", "get_absolute", "get_relative", "change_root", "change_basename", "change_extension",
       "get_basename", "get_dirname", "get_extension", "get_root", "get_intersection", "segments", "guess_style",
       "change_segment", "join_multiple"]
ALIASABLE = {"normalize", "change_root", "change_basename", "change_extension", "change_segment"}


def expect(op, st, a, b):
    """('buf', text) | ('vals', [...]) | None when the documentation leaves the result open"""
    sg = segs(a, st, root(a, st))
    if op == "normalize":
        return "buf", join([a], st)
    if op == "join":
        return "buf", join([a, b], st)
    if op == "join_multiple":
        return "buf", join([a] + b.split("\n")[:-1], st)
    if op == "get_absolute":
        if absolute(b, st):
            if st == WIN and not absolute(a, st):
                return None
            return "buf", join(([] if absolute(a, st) else ["/"]) + [b], st)
        ps = [a, b] if absolute(a, st) else ["\\" if st else "/", a, b]
        return "buf", join(ps, st)
    if op == "get_relative":
        t, ok = relative(a, b, st)
        return ("buf", t) if ok else None
    if op == "change_root":
        return "buf", b + a[root(a, st):]
    if op == "change_basename":
        if not sg:
            return "buf", a[:root(a, st)] + strip(b, st)
        return "buf", a[:sg[-1][0]] + strip(b, st) + a[sg[-1][1]:]
    if op == "change_extension":
        if not sg:
            return "buf", a[:root(a, st)] + ("" if b.startswith(".") else ".") + b
        x, y = sg[-1]
        d = a.rfind(".", x, y)
        head = a[:d] if d >= 0 else a[:y]
        return "buf", head + "." + (b[1:] if b.startswith(".") else b) + a[y:]
    if op == "get_basename":
        return "vals", ([1, sg[-1][0], sg[-1][1] - sg[-1][0]] if sg else [0, 0, 0]) + [1]
    if op == "get_dirname":
        return "vals", [sg[-1][0] if sg else 0]
    if op == "get_extension":
        if sg:
            x, y = sg[-1]
            d = a.rfind(".", x, y)
            if d >= 0:
                return "vals", [1, d, y - d, 1]
        return "vals", [0, 0, 777, 0]
    if op == "get_root":
        ab = int(absolute(a, st))
        return "vals", [root(a, st), ab, 1 - ab]
    if op == "get_intersection":
        ra, rb = a[:root(a, st)], b[:root(b, st)]
        if not same(ra, rb, st):
            return "vals", [0]
        va, vb, k = common(a, b, st)
        return "vals", [va[k - 1][1] if k else root(a, st)]
    if op == "segments":
        def dump(s):
            v = []
            for x, y in s:
                n = a[x:y]
                v += [x, y, y - x, 1 if n == "." else 2 if n == ".." else 0]
            return v
        return "vals", [len(sg)] + dump(sg) + [len(sg)] + dump(sg[::-1])
    if op == "guess_style":
        if root(a, WIN) > 1:
            return "vals", [0]
        for c in a:
            if c == "/":
                return "vals", [1]
            if c == "\\":
                return "vals", [0]
        if not a:
            return "vals", [1]
        if a[0] == ".":
            return "vals", [1]
        return "vals", [0 if "." in a else 1]
    if op == "change_segment":
        if not sg:
            return "vals", [0]
        k = min(int(b[0]) if b else 0, len(sg) - 1)
        x, y = sg[k]
        return "segbuf", a[:x] + strip(b[1:], st) + a[y:]
    raise AssertionError(op)


NAMES = ["a", "b", ".", "..", "foo.c", "A", "x.tar.gz", ".hid", "foo.", "...", "..a", "a..", "libm.so.6", "-", "a b", "Foo.C", ".c", "..."]


class Paths(Prop):
    name = "paths"
    rule = ("one library call on 1-3 paths built from a segment pool with repeated, leading and trailing separators, "
            "both styles, random output-buffer size incl. too small and in-place; non-trivial = a '..' or '.' segment, "
            "a double separator or a buffer too small for the result")
    batch = 250
    quick_n, quick_secs = 1000000, 60
    thorough_n, thorough_secs = 30000000, 700

    def path(self, d, st, plain=False):
        sep = (lambda: d.wpick([(6, "\\"), (3, "/"), (1, "\\\\")])) if st else (lambda: d.wpick([(8, "/"), (2, "//"), (1, "///")]))
        if st:
            r = d.wpick([(6, ""), (3, "C:\\"), (1, "c:/"), (1, "C:"), (1, "\\"), (1, "\\\\srv\\share\\"), (1, "\\\\srv\\share"),
                         (1, "\\\\.\\"), (1, "//?/"), (1, "\\\\"), (1, "\\\\srv")]) if not plain else ""
        else:
            r = d.wpick([(5, ""), (4, "/"), (1, "//"), (1, "/./")])
        n = d.wpick([(1, 0), (3, 1), (4, 2), (4, 3), (3, 4), (2, 6), (1, 9)])
        s = r
        for i in range(n):
            if i:
                s += sep()
            s += d.pick(NAMES) if d.chance(7, 8) else "".join(d.pick("ab./.C ") for _ in range(d.int(1, 5)))
        if d.chance(1, 4):
            s += sep()
        return s

    def gen(self, d):
        st = int(d.chance(1, 4))
        op = d.pick(OPS)
        a = self.path(d, st)
        if op in ("join", "get_absolute"):
            b = self.path(d, st, plain=True) if st and not (op == "get_absolute" and d.chance(1, 4)) else self.path(d, st)
        elif op in ("get_relative", "get_intersection"):
            b = self.path(d, st)
            if d.chance(2, 3):          # share a prefix
                b = a[:d.int(0, len(a))] + b if d.chance(1, 2) else a + "/" + b
        elif op == "change_root":
            b = d.pick(["/", "", "C:\\", "/x/", "../"])
        elif op == "change_basename":
            b = d.pick(["n", "/n", "n/", "new.c", "//n.x//", "", "/"])
        elif op == "change_extension":
            b = d.pick(["o", ".o", ".tar.gz", "", ".", "longextension", "..c"])
        elif op == "change_segment":
            b = str(d.int(0, 5)) + d.pick(["x", "/x/", "", "longer-segment", "..", "a/b"])
        elif op == "join_multiple":
            b = "".join(self.path(d, st, plain=True) + "\n" for _ in range(d.int(0, 4)))
        else:
            b = ""
        if op in ("get_basename", "guess_style", "get_dirname", "get_extension", "get_root", "segments", "get_intersection"):
            alias = 0
        else:
            alias = int(op in ALIASABLE and d.chance(1, 3))
        size = d.wpick([(4, "big"), (3, "fit"), (3, "short"), (1, "zero")])
        short = d.int(0, 12)
        d.label(op)
        if alias:
            d.label("in-place")
        d.label("windows" if st else "unix")
        e = expect(op, st, a, b)
        full = len(e[1]) if e and e[0] in ("buf", "segbuf") else 40
        bs = {"big": full + 64, "fit": full + 1, "short": max(1, full - short), "zero": 0}[size]
        return (op, st, a, b, bs, alias)

    def nontrivial(self, c, d):
        op, st, a, b, bs, alias = c
        return ".." in a or "/./" in a or "//" in a or "\\\\" in a or ".." in b or bs <= len(a)

    def run(self, cases, ctx):
        reqs = []
        for op, st, a, b, bs, alias in cases:
            reqs.append(struct.pack("<BB", OPS.index(op) + 1, st) + pipe.s(a) + pipe.s(b) + pipe.u32(bs) + struct.pack("<B", alias))
        out = []
        for (rep, err), c in zip(pipe.all_replies(ctx.complib, reqs), cases):
            out.append(self.judge(rep, err, c))
        return out

    def judge(self, rep, err, c):
        op, st, a, b, bs, alias = c
        if rep is None:
            return Fail("cwk_path %s(%r, %r) size %d%s (%s style) died: %s" %
                        (op, a, b, bs, " in place" if alias else "", "windows" if st else "unix", err))
        e = expect(op, st, a, b)
        if e is None:
            return None
        kind, want = e
        r = pipe.Reader(rep)
        if kind == "vals":
            got = [r.u32() for _ in range(len(rep) // 4)]
            if got != want:
                return Fail("cwk_path %s(%r, %r): got %r, model says %r" % (op, a, b, got, want))
            return None
        if kind == "segbuf":
            if r.u32() != 1:
                return Fail("cwk_path %s(%r, %r): no segment found" % (op, a, b))
        ret = r.u32()
        if ret != len(want):
            return Fail("cwk_path %s(%r, %r): returned length %d, model says %d (%r)" % (op, a, b, ret, len(want), want))
        if bs:
            term = r.u32()
            txt = r.bytes().decode("latin-1")
            if not term or txt != want[:bs - 1]:
                return Fail("cwk_path %s(%r, %r) buffer %d%s: wrote %r%s, model says %r" %
                            (op, a, b, bs, " in place" if alias else "", txt, "" if term else " (unterminated)", want[:bs - 1]))
        return None


class C(Check):
    id = "B05"
    parts = [Paths()]
    assumptions = ["ASan/UBSan report every out-of-bounds access of the exactly sized buffers"]

    def setup(self, ctx):
        ctx.complib = build.driver(ctx.scratch, "complib", ["complib.c"], ["cwalk.c", "array.c"])


CHECK = C()
