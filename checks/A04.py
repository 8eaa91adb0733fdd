"""A04: the runtime assets on disk are complete and correct whatever happened before."""
import os, shutil, stat, subprocess, time
from vf import build, proc
from vf.cbatch import Work
from vf.pbt import Prop, Fail
from vf.runner import Check

PROG = r'''
#include <stddef.h>
#include <stdarg.h>
#include <float.h>
#include <stdbool.h>
#include <stdalign.h>
#include <stdnoreturn.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
static int sum(int n, ...) { va_list a; va_start(a, n); int s = 0; while (n--) s += va_arg(a, int); va_end(a); return s; }
struct s { char c; double d; };
int main(int argc, char **argv) {
    volatile double big = 9e18; volatile float f = 1.5f;
    unsigned long long u = (unsigned long long)(big * 1.5);
    int *p = __builtin_alloca(16 * argc); p[0] = argc;
    bool b = f > 1;
    printf("ok %d %d %llu %d %d %d %d\n", sum(3, 1, 2, argc), (int)offsetof(struct s, d), u, (int)b, p[0], DBL_DIG, (int)alignof(struct s));
    return 7;
}
'''
WANT = b"ok 4 8 13500000000000000000 1 1 15 8\n"


class Hist(Prop):
    name = "history"
    rule = ("histories of 1-6 steps over one asset folder: runs, 2-8 processes started at once (delayed inside extraction), a process killed before or in the middle of its N-th file "
            "operation, an N-th file operation that fails, --xass, --xass to a given folder, runs in folders with decoys, and runs as an unprivileged user who may not write; "
            "starting from an absent, empty, partly filled or blocked folder; oracle: every undisturbed run prints the right result and leaves every file byte-identical to "
            "the build's; non-trivial = more than a plain run")
    batch = 4
    quick_n, quick_secs = 3600, 45
    thorough_n, thorough_secs = 60000, 600
    shrink_evals = 120

    def gen(self, d):
        start = d.wpick([(4, "absent"), (2, "empty"), (2, "partial"), (1, "file")])
        steps = []
        for _ in range(d.int(1, 6)):
            k = d.wpick([(3, "run"), (4, "race"), (4, "kill"), (2, "fault"), (1, "xass"), (2, "xassdir"), (1, "nobody"), (1, "wipe"), (1, "killrace")])
            if k == "run":
                steps.append((k, d.draw(4)))
            elif k == "race":
                steps.append((k, d.int(2, 8), d.draw(50)))
            elif k in ("kill", "fault"):
                steps.append((k, d.int(1, 45), d.draw(2)))
            elif k == "killrace":
                steps.append((k, d.int(1, 45), d.int(1, 6), d.draw(50)))
            elif k == "xassdir":
                steps.append((k, d.pick(["fresh", "again", "deep", "file", "long"]), d.draw(2)))
            else:
                steps.append((k,))
            d.label(k)
        d.label("start:" + start)
        return (start, tuple(steps))

    def nontrivial(self, c, d):
        return c[0] != "absent" or any(s[0] != "run" for s in c[1]) or len(c[1]) > 1

    def run(self, cases, ctx):
        return [self.one(c, ctx) for c in cases]

    def slot(self, ctx):
        """a copy of cjit with an asset folder of its own, per worker"""
        if getattr(self, "_slot", (None,))[0] == os.getpid():
            return self._slot[1:]
        for i in range(100):
            d = os.path.join(ctx.scratch, "slot%d" % i)
            try:
                os.mkdir(d)
            except FileExistsError:
                continue
            v = ctx.b.version
            nv = "w%02d" % i + v[3:]
            data = open(ctx.b.cjit, "rb").read().replace(v.encode(), nv.encode())
            exe = os.path.join(d, "cjit")
            open(exe, "wb").write(data)
            os.chmod(exe, 0o755)
            self._slot = (os.getpid(), exe, "/tmp/cjit-" + nv)
            return self._slot[1:]
        raise RuntimeError("no slot")

    def check_tree(self, root, ctx):
        for rel, data in ctx.ref.items():
            p = os.path.join(root, rel)
            try:
                got = open(p, "rb").read()
            except OSError as e:
                return "%s is missing: %s" % (rel, e)
            if got != data:
                return "%s has %d bytes, differing from the %d built in" % (rel, len(got), len(data))
        for dp, dn, fn in os.walk(os.path.join(root, "include")):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), root)
                if rel not in ctx.ref:
                    return "%s is not among the assets" % rel
        return None

    def one(self, c, ctx):
        start, steps = c
        exe, adir = self.slot(ctx)
        w = os.path.realpath(ctx.work.path("h"))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        self.clear(adir)
        src = w + "/p.c"
        open(src, "w").write(PROG)
        blocked = False
        if start == "empty":
            os.mkdir(adir)
        elif start == "partial":
            os.makedirs(adir + "/include")
            open(adir + "/include/stddef.h", "w").write("#error partial\n")
        elif start == "file":
            open(adir, "w").write("x")
            blocked = True
        env = proc.base_env({"VF_DIR": adir})
        sh = dict(env, LD_PRELOAD=ctx.shim)
        complete = False

        def start_(e, cwd=w):
            return subprocess.Popen([exe, "-q", src], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

        def good(rc, out, err, what):
            if blocked:
                if rc == 0 or rc == 7 or out or not err:
                    return Fail("%s with the asset folder blocked by a file: exit %s, stdout %r, stderr %r" % (what, rc, out[:200], err[:400]))
                return None
            if rc != 7 or out != WANT:
                return Fail("%s: exit %s, stdout %r, stderr %r" % (what, rc, out[:200], err[:600]))
            t = self.check_tree(adir, ctx)
            return Fail("%s: after it, %s" % (what, t)) if t else None

        try:
            for n, s in enumerate(steps):
                what = "step %d %r" % (n + 1, s)
                if s[0] == "run":
                    cwd = w
                    if s[1] == 1:
                        cwd = w + "/decoy"
                        os.makedirs(cwd + "/include", exist_ok=True)
                        open(cwd + "/include/stddef.h", "w").write("#error decoy\n")
                        open(cwd + "/stddef.h", "w").write("#error decoy\n")
                        open(cwd + "/libtcc1.a", "w").write("decoy")
                    elif s[1] == 2:
                        cwd = "/"
                    elif s[1] == 3:
                        cwd = w + "/a b"
                        os.makedirs(cwd, exist_ok=True)
                    p = start_(env, cwd)
                    out, err = self.wait(p)
                    f = good(p.returncode, out, err, what)
                    if f:
                        return f
                    complete = not blocked
                elif s[0] in ("race", "killrace"):
                    ps = []
                    if s[0] == "killrace":
                        ps.append(start_(dict(sh, VF_AT=str(s[1]), VF_MODE="k")))
                    for i in range(s[1] if s[0] == "race" else s[2]):
                        ps.append(start_(dict(sh, VF_AT=str(1000 + s[-1] * 10 + i), VF_MODE="s")))
                    res = [(p,) + self.wait(p) for p in ps]
                    for i, (p, out, err) in enumerate(res):
                        if s[0] == "killrace" and i == 0:
                            continue
                        f = good(p.returncode, out, err, "%s, process %d of %d" % (what, i + 1, len(ps)))
                        if f:
                            return f
                    complete = not blocked
                elif s[0] in ("kill", "fault"):
                    mode = ("k", "h")[s[2]] if s[0] == "kill" else "f"
                    p = start_(dict(sh, VF_AT=str(s[1]), VF_MODE=mode))
                    out, err = self.wait(p)
                    if p.returncode == 7 and not blocked:
                        # not reached: an ordinary run; or the failed operation did no harm
                        f = good(p.returncode, out, err, what)
                        if f:
                            return f
                    elif s[0] == "fault":
                        if p.returncode == 0 or p.returncode < 0:
                            return Fail("%s: exit %s, stdout %r, stderr %r" % (what, p.returncode, out[:200], err[:400]))
                        if out or not err:
                            return Fail("%s: fails with stdout %r and stderr %r" % (what, out[:200], err[:200]))
                elif s[0] == "wipe":
                    self.clear(adir)
                    blocked = complete = False
                elif s[0] == "nobody":
                    if blocked:
                        continue
                    if not os.path.isdir(adir):
                        os.mkdir(adir, 0o755)
                    r = proc.run([exe, "-q", src], cwd="/tmp", env=env, pre=lambda: (os.setgid(65534), os.setuid(65534)))
                    if complete:
                        f = good(r.rc, r.out, r.err, what)
                        if f:
                            return f
                    elif r.rc == 7:
                        f = good(r.rc, r.out, r.err, what)
                        if f:
                            return f
                        complete = True
                    elif r.rc == 0 or r.rc < 0 or r.out or not r.err:
                        return Fail("%s: may not write the asset folder: exit %s, stdout %r, stderr %r" % (what, r.rc, r.out[:200], r.err[:300]))
                elif s[0] in ("xass", "xassdir"):
                    bad = s[0] == "xass" and blocked
                    args, root = ["--xass"], adir
                    if s[0] == "xassdir":
                        root = {"fresh": w + "/x%d" % n, "again": w + "/again", "deep": w + "/no/such/dir", "file": src, "long": w + "/" + "l" * (95 - len(w))}[s[1]]
                        if s[1] == "again" and os.path.isdir(root):
                            # older files of the same name are replaced
                            open(root + "/include/float.h", "w").write("#error old\n")
                        bad = s[1] in ("deep", "file")
                        shown = os.path.relpath(root, w) if s[2] else root
                        args = ["--xass=" + shown]
                    r = proc.run([exe] + args, cwd=w, env=env)
                    if bad:
                        if r.rc == 0 or not r.err:
                            return Fail("%s: exit %s, stderr %r although the folder cannot be made" % (what, r.rc, r.err[:300]))
                    else:
                        if r.rc != 0:
                            return Fail("%s: exit %s, stderr %r" % (what, r.rc, r.err[:300]))
                        if s[0] == "xass" and r.out.decode().strip() != adir:
                            return Fail("%s: prints %r, not the folder %s" % (what, r.out, adir))
                        t = self.check_tree(root, ctx)
                        if t:
                            return Fail("%s: after it, %s" % (what, t))
                        if s[0] == "xass":
                            complete = True
        finally:
            self.clear(adir)
        return None

    def wait(self, p):
        try:
            return p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            return o, e + b" (timeout)"

    def clear(self, adir):
        if os.path.islink(adir) or os.path.isfile(adir):
            os.unlink(adir)
        else:
            shutil.rmtree(adir, ignore_errors=True)


class C(Check):
    id = "A04"
    parts = [Hist()]
    assumptions = ["files in /tmp are not altered by others once extraction is complete", "a crash loses nothing already written (process death, not power loss)"]

    def setup(self, ctx):
        ctx.b = build.full(ctx.scratch)
        ctx.work = Work(ctx.scratch)
        v = ctx.b.version
        for i in range(100):
            build.extra_cleanup.append(("/tmp/cjit-w%02d" % i + v[3:], os.getpid()))
        ctx.shim = os.path.join(ctx.scratch, "crash.so")
        build.sh(["gcc", "-w", "-O1", "-shared", "-fPIC", "-U_FORTIFY_SOURCE", "-o", ctx.shim, os.path.join(build.HERE, "harness", "crash.c"), "-ldl"])
        ctx.ref = {"libtcc1.a": open(os.path.join(ctx.b.tccdir, "libtcc1.a"), "rb").read()}
        for dp, dn, fn in os.walk(ctx.b.include):
            for f in fn:
                p = os.path.join(dp, f)
                ctx.ref["include/" + os.path.relpath(p, ctx.b.include)] = open(p, "rb").read()


CHECK = C()
