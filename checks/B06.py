"""B06: the growable array against a list model."""
import struct
from vf import build, pipe
from vf.pbt import Prop, Fail
from vf.runner import Check

ADD, ADDKEY, REMOVE, SETDATA, SWAP, INSERT, LIN, SENT, DBL, BIN, CLEAR, SORT, BUBBLE, SORTBY, DELETE, SET = range(16)
NAMES = "add addkey remove setdata swap insert linear sentinel double binary clear sort bubble sortby delete set".split()


class Histories(Prop):
    name = "histories"
    rule = ("a history of 1-80 array operations (append, keyed append, remove, set, insert, swap, delete, clear, searches, "
            "sorts) against a list; every element is compared after every operation; non-trivial = the array grew past its "
            "initial capacity or an element was removed/inserted in the middle")
    batch = 60
    quick_n, quick_secs = 200000, 60
    thorough_n, thorough_secs = 4000000, 600

    def gen(self, d):
        isz = d.wpick([(4, 2), (2, 1), (1, 0), (1, 3), (2, 8), (1, 17)])
        fixed = 1 if isz and d.chance(1, 12) else 0
        mode = d.wpick([(3, "mixed"), (2, "grow"), (2, "drain")])
        n = d.wpick([(3, 5), (3, 15), (3, 40), (1, 80)])
        n = d.int(1, n)
        ops, size = [], 0
        for k in range(n):
            w = {"mixed": [(6, ADD), (4, ADDKEY), (3, REMOVE), (2, SETDATA), (2, SWAP), (2, INSERT), (1, LIN), (1, SENT),
                           (1, DBL), (1, BIN), (1, SORT), (1, BUBBLE), (1, SORTBY), (1, DELETE), (1, SET)],
                 "grow": [(20, ADD), (10, ADDKEY), (1, REMOVE), (1, INSERT), (1, LIN), (1, SORTBY)],
                 "drain": [(6, ADD), (6, ADDKEY), (1, DELETE), (1, SENT)] if k < n // 2 else
                          [(10, REMOVE), (4, DELETE), (2, ADD), (1, LIN), (1, SWAP)]}[mode]
            if d.chance(1, 60):
                op = CLEAR
            else:
                op = d.wpick(w)
            data = b""
            a = b = 0
            if op in (ADD, ADDKEY, SETDATA, INSERT, SET):
                data = bytes(97 + d.draw(26) for _ in range(d.wpick([(1, 1), (4, 3), (2, 12), (1, 40)])))
                if d.chance(1, 6):
                    data += b"\0"
            key = d.wpick([(3, 4), (2, 40), (1, 1 << 31)])
            key = d.draw(key)
            if op == ADDKEY:
                a = key
            elif op in (LIN, SENT, DBL, BIN):
                a = key if d.chance(1, 2) else -1 - d.draw(max(1, size))   # negative: the key of that element
            elif op == SORTBY:
                a = d.draw(2)
            elif op in (REMOVE, SETDATA, SWAP, INSERT, DELETE, SET):
                a = d.draw(size) if size else 0
                b = d.draw(size) if size else 0
                if op == SWAP and d.chance(1, 6):
                    b = size + d.draw(20)   # out of range: changes nothing
                    if d.chance(1, 2):
                        a, b = b, a
                if op == SET:
                    b = key
                if op in (SETDATA, SET, INSERT) and not size:
                    continue
                if op == INSERT and fixed:
                    continue
            if op in (SWAP,) and not size:
                continue
            if op in (ADD, ADDKEY) and not (fixed and size >= isz):
                size += 1
            elif op == INSERT:
                size += 1
            elif op in (REMOVE, DELETE) and a < size:
                size -= 1
            elif op == CLEAR:
                size = 0
            d.label(NAMES[op])
            ops.append((op, a, b, data))
        return (isz, fixed, tuple(ops))

    def nontrivial(self, c, d):
        isz, fixed, ops = c
        return sum(o[0] in (ADD, ADDKEY, INSERT) for o in ops) > max(isz, 1) or any(o[0] in (REMOVE, DELETE, INSERT) for o in ops)

    def show(self, c):
        return {"initial_size": c[0], "fixed": c[1], "ops": [[NAMES[o[0]], o[1], o[2], o[3].decode("latin-1")] for o in c[2]]}

    def resolve_keys(self, c):
        """run the model; yields (op with concrete key, expectation)"""
        isz, fixed, ops = c
        m, out = [], []
        for op, a, b, data in ops:
            exp = []
            if op in (ADD, ADDKEY):
                if fixed and len(m) >= isz:
                    exp = [("i", -1)]
                else:
                    m.append((a if op == ADDKEY else 0, data))
                    exp = [("i", len(m) - 1)]
            elif op == REMOVE:
                if a < len(m):
                    o = m.pop(a)
                    exp = [("i", 1), ("i", o[0]), ("b", o[1])]
                else:
                    exp = [("i", 0)]
            elif op in (SETDATA, SET):
                o = m[a]
                m[a] = (b if op == SET else 0, data)
                exp = [("i", 1), ("i", o[0]), ("b", o[1])]
            elif op == SWAP:
                if a < len(m) and b < len(m):
                    m[a], m[b] = m[b], m[a]
            elif op == INSERT:
                m.insert(a, (0, data))
                exp = [("i", 1)]
            elif op in (LIN, SENT, DBL, BIN):
                if a < 0:
                    a = m[-1 - a][0] if -1 - a < len(m) else 7
                exp = [(NAMES[op], a, [k for k, _ in m])]
            elif op == CLEAR:
                m = []
            elif op in (SORT, BUBBLE):
                exp = [("sorted", "key")]
                m.sort(key=lambda e: e[0])
            elif op == SORTBY:
                exp = [("sorted", "size" if a else "key")]
                m.sort(key=lambda e: len(e[1]) if a else e[0])
            elif op == DELETE:
                if a < len(m):
                    m.pop(a)
            out.append(((op, a, b, data), exp, list(m)))
        return out

    def run(self, cases, ctx):
        reqs, models = [], []
        for c in cases:
            mo = self.resolve_keys(c)
            models.append(mo)
            q = struct.pack("<BIB", 100, c[0], c[1]) + pipe.u32(len(mo))
            for (op, a, b, data), _, _ in mo:
                q += struct.pack("<B", op) + pipe.u32(a) + pipe.u32(b) + pipe.s(data)
            reqs.append(q)
        return [self.judge(rep, err, c, mo) for (rep, err), c, mo in zip(pipe.all_replies(ctx.complib, reqs), cases, models)]

    def judge(self, rep, err, c, mo):
        if rep is None:
            return Fail("array history died: %s" % err)
        r = pipe.Reader(rep)
        got = None
        for step, ((op, a, b, data), exp, m) in enumerate(mo):
            where = "step %d (%s %d %d %r)" % (step, NAMES[op], a, b, data)
            for e in exp:
                if e[0] == "i":
                    v = r.i32()
                    if v != e[1] and (v & 0xFFFFFFFF) != e[1]:
                        return Fail("%s: returned %d, model says %d" % (where, v, e[1]))
                elif e[0] == "b":
                    v = r.bytes()
                    if v != e[1]:
                        return Fail("%s: handed back %r, model says %r" % (where, v, e[1]))
                elif e[0] in ("linear", "sentinel", "double", "binary"):
                    v = r.i32()
                    _, key, keys = e
                    srt = all(x <= y for x, y in zip(keys, keys[1:]))
                    if v == -1:
                        bad = key in keys and (e[0] != "binary" or srt)
                    else:
                        bad = not (0 <= v < len(keys)) or keys[v] != key
                        if e[0] == "linear" and not bad:
                            bad = keys.index(key) != v
                    if bad:
                        return Fail("%s: search answered %d for key %d in %r" % (where, v, key, keys))
            n = r.u32()
            now = []
            for i in range(n):
                k = r.u32()
                has = r.u32()
                dat = r.bytes()
                z = r.u32()
                cons = r.u32()
                if not has or not z or not cons:
                    return Fail("%s: element %d inconsistent (contains=%d terminated=%d accessors=%d)" % (where, i, has, z, cons))
                now.append((k, dat))
            beyond, cap = r.u32(), r.u32()
            if not beyond or not cap:
                return Fail("%s: access past the end not refused, or capacity below length" % where)
            if exp and exp[0][0] == "sorted":
                key = (lambda e: len(e[1])) if exp[0][1] == "size" else (lambda e: e[0])
                if sorted(now) != sorted(m) or [key(e) for e in now] != [key(e) for e in m]:
                    return Fail("%s: not a sorted permutation: %r" % (where, now))
                # order of equal elements is open: later steps need the actual order
                if now != m:
                    return None
            if now != m:
                return Fail("%s: contents %r, model says %r" % (where, now, m))
        if r.u32() != 1:
            return Fail("XArray_Free did not reset the handle")
        return None


class C(Check):
    id = "B06"
    parts = [Histories()]
    assumptions = ["ASan/UBSan report out-of-bounds accesses and double frees in the array"]

    def setup(self, ctx):
        ctx.complib = build.driver(ctx.scratch, "complib", ["complib.c"], ["cwalk.c", "array.c"])


CHECK = C()
