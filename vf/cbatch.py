"""Batches of C units: many independent generated functions in one program.

A unit is a dict: top (file-scope text), body (statements of one function),
both with '@' for the unit's number.  A unit prints with P(); the program
separates units.  expect = output known from the generator's interpreter, or
None when gcc is the reference.
"""
import os, re, time
from . import proc
from .pbt import Prop, Fail, Discard

PRELUDE = r'''
extern long write(int, const void *, unsigned long);
static char B_[1 << 18]; static int n_;
static void F_(void) { if (n_) write(1, B_, n_); n_ = 0; }
static void P(unsigned long long v) {
    char t[20]; int i = 0;
    if (n_ > (1 << 18) - 64) F_();
    do { t[i++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
    while (i) B_[n_++] = t[--i];
    B_[n_++] = ' ';
}
static void S_(const char *s) { while (*s) { if (n_ > (1 << 18) - 64) F_(); B_[n_++] = *s++; } B_[n_++] = ' '; }
#define K_(e) _Generic((e), _Bool:0, char:1, signed char:2, unsigned char:3, short:4, unsigned short:5, int:6, unsigned:7, \
    long:8, unsigned long:9, long long:10, unsigned long long:11, float:12, double:13, long double:14, default:15)
'''


def hex64(v):
    return "%x" % (v & 0xFFFFFFFFFFFFFFFF)


def program(units, prelude=PRELUDE, idx=None):
    out = [prelude]
    idx = idx or range(len(units))
    for i, u in zip(idx, units):
        out.append("//unit %d" % i)
        if u.get("top"):
            out.append(u["top"].replace("@", str(i)))
        out.append("static void u%d(void) {\n%s\n}" % (i, u["body"].replace("@", str(i))))
    out.append("//main\nint main(void) {")
    for i in idx:
        out.append('S_("\\n#%d"); u%d(); F_();' % (i, i))
    out.append('S_("\\n#end"); F_(); return 0; }')
    return "\n".join(out) + "\n"


def split(out):
    """program output -> {unit: text}; 'end' present when main returned"""
    res = {}
    for m in re.finditer(r"\n#(\w+) ([^\n]*)", out.decode("latin-1")):
        res[m.group(1)] = m.group(2).strip()
    return res


class Work:
    """A scratch folder per worker process."""
    def __init__(self, base):
        self.base, self.pid, self.n = base, None, 0

    def path(self, name=""):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.dir = os.path.join(self.base, "w%d" % self.pid)
            os.makedirs(self.dir, exist_ok=True)
        return os.path.join(self.dir, name) if name else self.dir


class Ref:
    """Reference compilers."""
    FLAGS = ["-w", "-std=gnu11", "-fno-strict-aliasing", "-fwrapv", "-fno-builtin", "-fsigned-char"]

    @staticmethod
    def build(cc, src, exe, extra=(), timeout=120):
        return proc.run([cc] + Ref.FLAGS + list(extra) + ["-o", exe, src, "-lm"], timeout=timeout, fsize=1 << 30)


def gate(src_text, work, expect_out, timeout=20, clang=True, extra=(), san=True, unitkey=None, noise=None):
    """Is this program's output agreed by gcc -O0, gcc -O2, clang and sanitizer-clean?
    -> (output bytes or None, why)"""
    src = work.path("gate.c")
    with open(src, "w", encoding="latin-1") as f:
        f.write(src_text)
    outs = []
    confs = [("gcc", ["-O0"]), ("gcc", ["-O2"])]
    if clang:
        confs.append(("clang", ["-O1"]))
    if san:
        confs.append(("gcc", ["-O0", "-fno-wrapv", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"]))
        if clang:
            confs.append(("clang", ["-O0", "-fno-wrapv", "-fsanitize=undefined,address", "-fno-sanitize-recover=undefined"]))
    for cc, fl in confs:
        exe = work.path("gate.exe")
        b = Ref.build(cc, src, exe, fl + list(extra))
        if b.rc != 0:
            if cc == "clang":
                continue
            return None, "%s %s rejects it: %s" % (cc, fl, b.err.decode("utf-8", "replace")[:300])
        r = proc.run([exe], timeout=timeout, cwd=work.path())
        if r.timeout or r.rc != 0:
            return None, "%s %s: exit %s %s" % (cc, fl, r.rc, r.err.decode("utf-8", "replace")[:300])
        outs.append(r.out)
    if any(o != outs[0] for o in outs):
        return None, "reference compilers disagree"
    if expect_out is not None and expect_out != outs[0]:
        return None, "model disagrees with the reference compilers"
    return outs[0], None


def canary(text, good):
    """a recorded defect is there as long as the program does not print good"""
    def fn(ctx):
        p = ctx.work.path("canary.c")
        with open(p, "w") as f:
            f.write("int printf(const char *, ...);\n" + text)
        r = proc.run([ctx.b.cjit, "-q", p], timeout=20, cwd=ctx.work.path())
        got = r.out.decode("latin-1").strip()
        return None if got == good and r.rc == 0 else "%s: prints [%s], not [%s]" % (" ".join(text.split()), got, good)
    return fn


class UnitProp(Prop):
    """Cases are unit dicts; judged in batches against expect or gcc -O0."""
    batch = 40
    prelude = PRELUDE
    use_clang = True
    shrink_evals = 250
    shrink_secs = 90
    timeout = 20
    ref_flags = []

    def program(self, units, idx=None):
        return program(units, self.prelude, idx)

    def command(self, ctx, src):
        """the command that compiles and runs src with the compiler under test"""
        return [ctx.b.cjit, "-q", src]

    def run_test(self, ctx, text):
        src = ctx.work.path(self.name + ".c")
        with open(src, "w", encoding="latin-1") as f:
            f.write(text)
        return proc.run(self.command(ctx, src), timeout=self.timeout, cwd=ctx.work.path())

    def run_ref(self, ctx, text):
        src = ctx.work.path(self.name + "-ref.c")
        with open(src, "w", encoding="latin-1") as f:
            f.write(text)
        exe = ctx.work.path("ref.exe")
        b = Ref.build("gcc", src, exe, ["-O0"] + self.ref_flags)
        if b.rc != 0:
            return None, b.err.decode("utf-8", "replace")
        r = proc.run([exe], timeout=self.timeout, cwd=ctx.work.path())
        return r, None

    def expected(self, units, ctx):
        """{index: text} from the model or from gcc"""
        exp, need = {}, []
        for i, u in enumerate(units):
            if u.get("expect") is not None:
                exp[i] = u["expect"]
            else:
                need.append(i)
        if need:
            # drop the units gcc refuses, by the lines it complains about
            for _ in range(6):
                text = self.program([units[i] for i in need], need)
                r, err = self.run_ref(ctx, text)
                if r is not None or not need:
                    break
                cur, where = None, []
                for line in text.split("\n"):
                    m = re.match(r"//unit (\d+)$", line)
                    cur = int(m.group(1)) if m else cur
                    where.append(cur)
                out = {where[int(m.group(1)) - 1] for m in re.finditer(r"^[^:\n]+\.c:(\d+):\d+: error:", err, re.M) if int(m.group(1)) <= len(where)} - {None}
                if not out:
                    break
                for i in out:
                    exp[i] = None
                need = [i for i in need if i not in out]
            s = split(r.out) if r is not None else {}
            if "end" in s:
                for i in need:
                    exp[i] = s.get(str(i))
            else:
                for i in need:
                    r1, e1 = self.run_ref(ctx, self.program([units[i]], [i]))
                    s1 = split(r1.out) if r1 is not None else {}
                    exp[i] = s1.get(str(i)) if "end" in s1 else None
        return exp

    def run(self, cases, ctx):
        exp = self.expected(cases, ctx)
        t = self.run_test(ctx, self.program(cases))
        got = split(t.out)
        bad = [i for i in range(len(cases)) if exp[i] is not None and got.get(str(i)) != exp[i]]
        if "end" not in got and not t.timeout and t.rc == 0 and not bad:
            bad = [len(cases) - 1]
        if t.rc != 0 and not bad:
            bad = list(range(len(cases)))
        out = [None if exp[i] is not None else Discard() for i in range(len(cases))]
        # judge the suspicious ones alone; after a crash, later units were simply not reached
        n = 0
        for i in bad:
            if n >= 6 and any(isinstance(o, Fail) for o in out):
                break
            n += 1
            out[i] = self.confirm(cases[i], ctx)
        if bad and not any(isinstance(o, Fail) for o in out) and all(o is None for o in out):
            # only fails in company: keep the whole batch as evidence
            i = bad[0]
            out[i] = self.together(cases, exp, i, ctx)
        return out

    def company(self, cases, ctx):
        """the units of one program together: None or Fail"""
        exp = self.expected(cases, ctx)
        keep = [i for i in range(len(cases)) if exp[i] is not None]
        cases = [cases[i] for i in keep]
        exp = {j: exp[i] for j, i in enumerate(keep)}
        if not cases:
            return None
        text = self.program(cases)
        t = self.run_test(ctx, text)
        got = split(t.out)
        bad = [i for i in exp if got.get(str(i)) != exp[i]]
        if not bad and "end" in got and t.rc == 0:
            return None
        out, why = gate(text, ctx.work, None, clang=False, extra=self.ref_flags)
        if out is None:
            return None
        ref = split(out)
        if "end" not in ref or any(ref.get(str(i)) != exp[i] for i in exp):
            return None
        return Fail("%d units in one program, exit status %s%s: unit %s expected [%s], got [%s]; stderr: %s" % (
            len(cases), t.rc, " (timeout)" if t.timeout else "", bad[:1], exp[bad[0]][:300] if bad else "", str(got.get(str(bad[0])))[:300] if bad else "",
            t.err.decode("utf-8", "replace")[:600]))

    def together(self, cases, exp, i, ctx):
        """Each unit passes alone and the program of all of them does not."""
        f = self.company(cases, ctx)
        if not isinstance(f, Fail):
            return None
        # smaller groups that still fail
        best, end = list(cases), time.monotonic() + 60
        size = len(best) // 2
        while size >= 1 and time.monotonic() < end:
            k = 0
            while k < len(best) and len(best) > 1 and time.monotonic() < end:
                c = best[:k] + best[k + size:]
                f2 = self.company(c, ctx) if c else None
                if isinstance(f2, Fail):
                    best, f = c, f2
                else:
                    k += size
            size //= 2
        f.kw["company"] = best
        return f

    def compare(self, u, exp, got, run):
        if exp == got:
            return None
        return "expected [%s] got [%s]" % (exp, got)

    def confirm(self, u, ctx):
        text = self.program([u], [0])
        t = self.run_test(ctx, text)
        exp = self.expected([u], ctx)[0]
        if exp is None:
            return Discard()
        got = split(t.out)
        if got.get("0") == exp and "end" in got and t.rc == 0:
            return None
        # soundness gate: only well-defined programs that every reference agrees on
        out, why = gate(text, ctx.work, None, clang=self.use_clang, extra=self.ref_flags)
        if out is None or split(out).get("0") != exp:
            if os.environ.get("VF_DEBUG"):
                print("DISCARD", why or "model: %s refs: %s got: %s" % (exp, split(out).get("0"), got.get("0")), t.err[:300], self.show(u), flush=True)
            return Discard()
        why = "timeout" if t.timeout else "exit status %s" % t.rc
        return Fail("%s: expected [%s], got [%s]; stderr: %s" % (why, exp[:600], str(got.get("0"))[:600], t.err.decode("utf-8", "replace")[:800]))

    def show(self, u):
        return (u.get("top") or "") + "\nvoid u@(void) {\n" + u["body"] + "\n}"
