"""Generated C object types: scalars, arrays, structs, unions, bit-fields, attributes."""

INTS = [("char", 1, True), ("signed char", 1, True), ("unsigned char", 1, False), ("short", 2, True), ("unsigned short", 2, False),
        ("int", 4, True), ("unsigned", 4, False), ("long", 8, True), ("unsigned long", 8, False), ("long long", 8, True),
        ("unsigned long long", 8, False), ("_Bool", 1, False)]
FLOATS = ["float", "double", "long double"]


class Sc:
    """scalar: cls in int float ptr cstr fptr enum wide"""
    agg = False

    def __init__(self, cls, name, size, signed=False):
        self.cls, self.name, self.size, self.signed = cls, name, size, signed

    def decl(self, x):
        if self.cls == "fptr":
            return "int (*%s)(void)" % x
        return "%s %s" % (self.name, x) if not self.name.endswith("*") else self.name + x


class Arr:
    agg = True

    def __init__(self, el, n):
        self.el, self.n = el, n

    def decl(self, x):
        return self.el.decl("%s[%s]" % (x, "" if self.n is None else self.n))

    @property
    def isstr(self):
        return isinstance(self.el, Sc) and self.el.cls == "int" and self.el.size == 1 and self.el.name != "_Bool"

    @property
    def wide(self):
        return {"int": "L"}.get(self.el.name) if isinstance(self.el, Sc) and self.el.cls == "int" else None


class Mem:
    def __init__(self, name, ty, width=None, attr="", pre=""):
        self.name, self.ty, self.width, self.attr, self.pre = name, ty, width, attr, pre


class St:
    agg = True

    def __init__(self, tag, mems, union=False, attr="", pack=0):
        self.tag, self.mems, self.union, self.attr, self.pack = tag, mems, union, attr, pack
        self.kw = "union" if union else "struct"

    def decl(self, x):
        return "%s %s %s" % (self.kw, self.tag, x)

    def body(self):
        out = []
        for m in self.mems:
            if m.name is None and isinstance(m.ty, St):
                out.append(m.pre + m.ty.kw + m.ty.attr_pre() + " " + m.ty.body() + m.ty.attr_post() + ";")
            elif m.width is not None:
                out.append("%s%s : %d%s;" % (m.pre, m.ty.decl(m.name or ""), m.width, m.attr))
            else:
                out.append("%s%s%s;" % (m.pre, m.ty.decl(m.name), m.attr))
        return "{ " + " ".join(out) + " }"

    def attr_pre(self):
        return ""

    def attr_post(self):
        return " __attribute__((%s))" % self.attr if self.attr else ""

    def define(self):
        s = "%s %s %s%s;" % (self.kw, self.tag, self.body(), self.attr_post())
        if self.pack:
            s = "#pragma pack(push, %d)\n%s\n#pragma pack(pop)" % (self.pack, s)
        return s

    def named(self):
        """members an initialiser list walks over, in order"""
        return [m for m in self.mems if m.name is not None or isinstance(m.ty, St)]


class TypeGen:
    def __init__(self, d, prefix="T", attrs=True, flex=True, ptrs=True, bits=True):
        self.d, self.prefix, self.defs, self.n, self.k = d, prefix, [], 0, 0
        self.attrs, self.flex, self.ptrs, self.bits = attrs, flex, ptrs, bits
        self.structs = []

    def scalar(self):
        d = self.d
        k = d.draw(20)
        if k < 13:
            n, s, g = d.pick(INTS if self.ptrs else INTS[:11])
            return Sc("int", n, s, g)
        if k < 16:
            n = d.pick(FLOATS)
            return Sc("float", n, {"float": 4, "double": 8, "long double": 16}[n])
        if k == 16:
            return Sc("enum", "enum E@", 4)
        if not self.ptrs:
            return Sc("int", "int", 4, True)
        return [Sc("ptr", "char *", 8), Sc("cstr", "const char *", 8), Sc("fptr", "", 8)][k - 17]

    def type(self, depth):
        d = self.d
        k = d.draw(10)
        if depth <= 0 or k < 4:
            return self.scalar()
        if k < 7:
            el = self.type(depth - 1)
            return Arr(el, d.wpick([(6, d.int(1, 4)), (1, d.int(5, 12))]) if not el.agg else d.int(1, 3))
        old = [s for s in self.structs if self.ptrs or not s.hasptr]
        if old and k == 7:
            return d.pick(old)
        return self.struct(depth - 1)

    def mname(self):
        self.k += 1
        return "m%d" % self.k

    def struct(self, depth, union=None, anon=False, top=False):
        d = self.d
        if union is None:
            union = d.draw(5) == 0
        mems = []
        n = d.wpick([(6, d.int(1, 4)), (2, d.int(5, 9))])
        bitty = self.bits and d.draw(3) == 0
        pack = self.attrs and not anon and d.draw(8) == 0 and d.pick([1, 2, 4, 8])
        keep = self.attrs, self.bits
        if pack:
            # how the pragma combines with attributes and bit-fields is not part of the property
            self.attrs = self.bits = bitty = False
        ptrs = self.ptrs
        if union:
            # the integer members would show where things are in memory
            self.ptrs = False
        for _ in range(n):
            k = d.draw(12)
            attr, pre = "", ""
            if self.attrs and d.draw(12) == 0:
                attr = " __attribute__((%s))" % d.pick(["packed", "aligned(2)", "aligned(4)", "aligned(8)", "aligned(16)", "aligned"])
            elif self.attrs and d.draw(20) == 0:
                pre = d.pick(["_Alignas(8) ", "_Alignas(16) ", "_Alignas(double) ", "_Alignas(long double) "])
            if (bitty and k < 9) or (self.bits and k == 0):
                if d.draw(6) == 0:
                    t = Sc("enum", "enum E@", 4) if d.draw(2) or not self.ptrs else Sc("int", "_Bool", 1)
                else:
                    nm, s, g = d.pick(INTS[1:11])
                    t = Sc("int", nm, s, g)
                w = 1 if t.name == "_Bool" else d.wpick([(5, d.int(1, t.size * 8)), (2, d.int(1, 5)), (1, t.size * 8)])
                if t.cls == "enum":
                    w = max(w, 4)
                if w == 64:
                    attr = ""    # "field width 64 not implemented" when packed: a diagnosed limitation
                r = d.draw(14)
                if "16" in attr or "aligned" in attr and (d.draw(2) or "(" in attr[17:] and int(attr[attr.index("d(") + 2:].rstrip(")")) < t.size):
                    attr = ""
                pre = ""
                if r == 0:
                    mems.append(Mem(None, t, 0))
                elif r == 1:
                    mems.append(Mem(None, t, w))
                else:
                    mems.append(Mem(self.mname(), t, w, attr))
            elif k == 1 and depth > 0:
                s = self.struct(depth - 1, anon=True)
                if s.named():
                    mems.append(Mem(None, s))
            else:
                t = self.type(depth - 1)
                # (an alignment smaller than the type's own is a known finding)
                if "aligned" in attr and "aligned)" not in attr and int(attr[attr.index("d(") + 2:].rstrip(")")) < natural(t) or pre and natural(t) > 8:
                    attr = pre = ""
                mems.append(Mem(self.mname(), t, None, attr, pre))
        if not any(m.name for m in mems):
            mems.append(Mem(self.mname(), self.scalar()))
        self.ptrs = ptrs
        if pack:
            self.attrs, self.bits = keep
        a = []
        if self.attrs and not pack and d.draw(7) == 0:
            # full-width bit-fields in a struct declared packed after its members: known finding
            full = any(m.width and m.width == m.ty.size * 8 and m.ty.name != "_Bool" for m in mems)
            a.append("aligned(16)" if full else d.pick(["packed", "packed", "aligned(4)", "aligned(8)", "aligned(16)", "packed, aligned(2)", "packed, aligned(8)", "aligned(1)"]))
        s = St("%s%d_@" % (self.prefix, self.n), mems, union, ", ".join(a), pack or 0)
        s.hasptr = any(x.cls in ("ptr", "cstr", "fptr") or x.name == "_Bool" for p, x, w in leaves(s, "", cap=1000))
        self.n += 1
        if not anon:
            if top and self.flex and not union and d.draw(8) == 0 and s.mems[-1].name:
                el = self.scalar() if d.draw(2) else self.d.pick(self.structs or [self.scalar()])
                s.mems.append(Mem(self.mname(), Arr(el, None)))
                s.flexible = True
            else:
                self.structs.append(s)
            self.defs.append(s.define())
        return s


def natural(t):
    """an upper bound on the alignment a type has of itself"""
    if isinstance(t, Sc):
        return t.size
    if isinstance(t, Arr):
        return natural(t.el)
    m = [natural(x.ty) for x in t.mems if x.ty is not None] + [1]
    txt = t.attr + "".join(x.attr + x.pre for x in t.mems)
    return max(m + [16 if "16" in txt or "aligned)" in txt or "long double" in txt else 8 if "8" in txt or "double" in txt else 4 if "aligned(4)" in txt else 1])


def leaves(t, path, width=None, out=None, cap=60):
    """[(path, scalar type, width)] of every scalar inside"""
    out = [] if out is None else out
    if len(out) >= cap:
        return out
    if isinstance(t, Sc):
        out.append((path, t, width))
    elif isinstance(t, Arr):
        for i in range(t.n or 0):
            leaves(t.el, "%s[%d]" % (path, i), None, out, cap)
    else:
        for m in t.mems:
            if m.name is None:
                if isinstance(m.ty, St):
                    leaves(m.ty, path, None, out, cap)
            else:
                leaves(m.ty, "%s.%s" % (path, m.name), m.width, out, cap)
    return out


def subobjects(t, path, out=None, cap=40):
    """[(path, type)] addressable subobjects"""
    out = [] if out is None else out
    if len(out) >= cap:
        return out
    if isinstance(t, Arr):
        for i in range(t.n or 0):
            out.append(("%s[%d]" % (path, i), t.el))
            subobjects(t.el, "%s[%d]" % (path, i), out, cap)
    elif isinstance(t, St):
        for m in t.mems:
            if m.name is None:
                if isinstance(m.ty, St):
                    subobjects(m.ty, path, out, cap)
            elif m.width is None:
                out.append(("%s.%s" % (path, m.name), m.ty))
                subobjects(m.ty, "%s.%s" % (path, m.name), out, cap)
    return out


class InitGen:
    """well-formed initialisers; static_ restricts to constant expressions"""

    def __init__(self, d, static_, vars_=()):
        self.d, self.static, self.vars, self.items = d, static_, list(vars_), 0

    def scalar(self, t, width=None):
        d = self.d
        self.items += 1
        if t.cls == "int" or t.cls == "enum":
            if t.cls == "enum" and d.draw(3):
                return d.pick(["EA@", "EB@", "EC@"])
            k = d.draw(12)
            bits = width or t.size * 8
            if k < 4:
                return str(d.int(0, 9))
            if k < 6:
                return str(-d.int(1, 9)) if t.cls != "enum" else str(d.int(0, 9))
            if k == 6:
                return "0x%x" % d.draw(1 << bits)
            if k == 7:
                return "'%s'" % d.pick(list("abzAZ09 ") + ["\\0", "\\n", "\\377", "\\x41"])
            if k == 8 and t.cls == "int" and not width:
                return d.pick(["1.5", "2.75f", "3.0L", "-1.25" if t.signed else "1.25", "100.9f"])
            if k == 9:
                return d.pick(["sizeof(int)", "EB@", "(1 << 3)", "(2 > 1)", "!0", "~0", "(char)200", "1 ? 2 : 3", "sizeof(struct { char c; int i; })"])
            if k == 10 and not self.static and self.vars:
                return d.pick(self.vars)
            return str(d.draw(1 << min(bits, 31)))
        if t.cls == "float":
            return d.pick(["1.5", "-2.25f", "0.1", "3", "-7", "'a'", "1e10", "0x1.8p1", "0.1L", "-0.0", "1.0f/3.0f", "2147483648u", "18446744073709551615ull"])
        if t.cls == "ptr":
            return d.pick(["G_", "G_ + 3", "&G_[5]", "0", "(char *)0", "(char *)GI_ + 1", "(char *)&GI_[2]", "&G_[7] - 2", "(void *)G_", "GS_.b", "&GS_.a", "(char *)&GS_.i + 1", "G_ + sizeof(int)", "&*G_", "1 + G_"])
        if t.cls == "cstr":
            return d.pick(['"abc"', '"abc" + 1', '""', '"x" "y"', '"hello" " " "world"', "0", '"\\101\\x42"', '&"qwerty"[2]'])
        return d.pick(["fa_", "&fb_", "0", "fb_", "*fa_"])

    def string(self, t):
        d = self.d
        self.items += 1
        n = t.n if t.n is not None else d.int(1, 6)
        k = d.int(0, n)
        if not t.isstr:
            return t.wide + '"' + "".join(d.pick(["a", "b", "\\x41", "\\n", "z"]) for _ in range(k)) + '"'
        s = ['"']
        for i in range(k):
            s.append(d.pick(["a", "b", "Z", "\\n", "\\0", "\\101", "\\\\", "%", "\\\"", "0"]))
            if d.draw(12) == 0:
                s.append('" "')
        return "".join(s) + '"'

    def isstring(self, t):
        return isinstance(t, Arr) and (t.isstr or t.wide) and self.d.draw(3 if t.isstr else 1) == 0 if isinstance(t, Arr) else False

    def init(self, t, width=None, depth=0):
        """initialiser for an object of type t"""
        d = self.d
        if isinstance(t, Sc):
            s = self.scalar(t, width)
            return "{ %s }" % s if d.draw(12) == 0 else s
        if isinstance(t, Arr) and (t.isstr or (t.wide and d.draw(3) == 0)) and d.draw(2):
            s = self.string(t)
            return "{ %s }" % s if d.draw(5) == 0 else s
        return self.braced(t, depth)

    def path_in(self, t, flat=False):
        """designator path from t down to some subobject -> (text, type, width, first index, last index)"""
        d = self.d
        if isinstance(t, Arr):
            n = t.n if t.n is not None else d.int(1, 6)
            i = j = d.draw(n)
            if t.n is not None and d.draw(5) == 0 and i + 1 < n:
                j = d.int(i, n - 1)
                txt = "[%d ... %d]" % (i, j)
                # only the last designator may be a range
                return txt, t.el, None, i, j
            txt, el, w = "[%d]" % i, t.el, None
        else:
            # any named member, also through anonymous ones
            c = [(i, m) for i, m in enumerate(t.named())]
            i, m = d.pick(c)
            j = i
            if m.name is None:
                txt, el, w, _, _ = self.path_in(m.ty, flat)
                return txt, el, w, i, -1
            txt, el, w = "." + m.name, m.ty, m.width
        if el.agg and not flat and not (isinstance(el, Arr) and el.n is None) and d.draw(3) == 0 and (not isinstance(el, St) or el.named()):
            t2, el2, w2, _, _ = self.path_in(el)
            return txt + t2, el2, w2, i, -1
        return txt, el, w, i, j

    @staticmethod
    def hasunion(t):
        if isinstance(t, Arr):
            return InitGen.hasunion(t.el)
        return isinstance(t, St) and (t.union or any(InitGen.hasunion(m.ty) for m in t.mems))

    def count(self, t):
        if isinstance(t, Arr):
            return t.n if t.n is not None else self.d.int(1, 5)
        n = len(t.named())
        return min(n, 1) if t.union else n

    def nth(self, t, i):
        if isinstance(t, Arr):
            return t.el, None
        m = t.named()[i]
        return m.ty, m.width

    def flat(self, t, width=None):
        """items that initialise t with its braces left out; None when that is not possible"""
        if isinstance(t, Sc):
            return [self.scalar(t, width)]
        if isinstance(t, Arr) and t.n is None:
            return None
        if isinstance(t, Arr) and t.isstr and self.d.draw(3) == 0:
            return [self.string(t)]
        if isinstance(t, St) and getattr(t, "flexible", False):
            return None
        out = []
        for i in range(self.count(t)):
            el, w = self.nth(t, i)
            # an item that starts with a brace would be read as the list of the whole
            f = self.flat(el, w) if not i or self.d.draw(4) or not el.agg else [self.init(el, w)]
            if f is None:
                return None
            out += f
        return out

    def braced(self, t, depth=0):
        d = self.d
        if isinstance(t, St) and not t.named():
            return "{ }"
        n = self.count(t)
        out = []
        i = 0
        stop = d.wpick([(4, n), (2, d.int(0, n))])
        if d.draw(14) == 0 and not (isinstance(t, Arr) and t.n is None):
            return "{ }"
        touched = set()
        guard = 0
        while guard < 14:
            guard += 1
            k = d.draw(8)
            if k == 0 and depth < 4:
                txt, el, w, first, last = self.path_in(t)
                part = last < 0           # only part of that element
                span = {first} if part else set(range(first, last + 1))
                if isinstance(t, St) and t.union and touched:
                    break
                if span & touched:
                    # what a union holds after a second initialiser, and what is left of an aggregate
                    # initialised again without braces, are not compared
                    if part and self.hasunion(self.nth(t, first)[0]):
                        continue
                    d.label("override")
                touched |= span
                x = self.init(el, w, depth + 1)
                out.append("%s = %s" % (txt, x))
                d.label("designator")
                if part:
                    d.label("nested-designator")
                    # what follows would continue inside that element
                    nxt = n
                else:
                    nxt = last + 1
                if isinstance(t, St) and t.union:
                    break
                i = nxt
                if d.draw(3) == 0:
                    break
                continue
            if i >= stop or i >= n:
                if out and d.draw(3) == 0 and d.draw(2) and not (isinstance(t, St) and t.union):
                    i = n
                    continue
                break
            el, w = self.nth(t, i)
            if isinstance(el, Arr) and el.n is None and (not self.static or depth > 0):
                break
            if el.agg and k < 4 and i not in touched:
                f = self.flat(el)
                if f:
                    d.label("elided")
                    if d.draw(4) == 0 and i + 1 >= n:
                        f = f[:d.int(1, len(f))]
                        out += f
                        break
                    out += f
                    touched.add(i)
                    i += 1
                    continue
            touched.add(i)
            out.append(self.init(el, w, depth + 1))
            i += 1
        if not out:
            out = [self.init(self.nth(t, 0)[0], self.nth(t, 0)[1], depth + 1)] if not (isinstance(self.nth(t, 0)[0], Arr) and self.nth(t, 0)[0].n is None) else []
        return "{ %s%s }" % (", ".join(out), "," if out and d.draw(6) == 0 else "")
