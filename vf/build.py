"""Scratch builds of /repo's working tree.

Nothing is ever built inside /repo: sources are copied to a scratch folder
that the check creates and removes.  cjit unpacks its runtime assets into
/tmp/cjit-<VERSION>; each build therefore gets a VERSION of its own and that
folder is removed together with the build.
"""
import os, shutil, subprocess, sys, tempfile, atexit, signal

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SKIP_EXT = (".o", ".a", ".so", ".exe", ".test", ".output", ".gcc", ".ref")


class BuildError(Exception):
    pass


def _ignore(d, names):
    rel = os.path.relpath(d, REPO)
    out = []
    for n in names:
        if n.endswith(SKIP_EXT):
            out.append(n)
        elif rel == "src" and (n.startswith("embed_") or n in ("assets.c", "assets.h")):
            out.append(n)
        elif rel == "lib/tinycc" and n in ("tcc", "config.h", "config.mak", "tccdefs_.h", "c2str.exe", "tests"):
            out.append(n)
        elif n == ".git":
            out.append(n)
    return out


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, LC_ALL="C.UTF-8")
    for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS", "CPATH", "C_INCLUDE_PATH"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout.decode("utf-8", "replace")


def copy_tree(dst):
    for d in ("src", "lib", "build"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), symlinks=True, ignore=_ignore)
    shutil.copy(os.path.join(REPO, "GNUmakefile"), dst)
    # assets that other build files refer to are not needed on Linux


class Build:
    """A full scratch build: .cjit .tcc .libtcc .libtcc1 .include"""

    def __init__(self, root, version, variant):
        self.root, self.version, self.variant = root, version, variant
        self.cjit = os.path.join(root, "cjit")
        self.tccdir = os.path.join(root, "lib/tinycc")
        self.tcc = os.path.join(self.tccdir, "tcc")
        self.libtcc = os.path.join(self.tccdir, "libtcc.a")
        self.include = os.path.join(self.tccdir, "include")
        self.assets = "/tmp/cjit-" + version


def full(scratch, tag="p", variant="plain"):
    root = os.path.join(scratch, "build-" + tag)
    os.makedirs(root)
    copy_tree(root)
    version = "vf%s-%d" % (tag, os.getpid())
    mk = ["make", "-s", "-j8", "-f", "build/linux.mk", "VERSION=" + version]
    mk += ["CC=gcc"]
    if variant == "asan":
        san = "-fsanitize=address,undefined -fno-sanitize=alignment,shift,pointer-overflow,signed-integer-overflow,float-cast-overflow,nonnull-attribute,null,object-size,bounds,float-divide-by-zero -fno-sanitize-recover=undefined"
        san = "-fsanitize=address"
        mk += ["CFLAGS=-O1 -g -fno-omit-frame-pointer " + san, "ldflags=" + san]
    env = {"ASAN_OPTIONS": "detect_leaks=0"}
    sh(mk + ["lib/tinycc/libtcc1.a"], cwd=root, env=env)
    sh(mk + ["embed-posix"], cwd=root, env=env)
    sh(mk + ["cjit"], cwd=root, env=env)
    b = Build(root, version, variant)
    if not (os.path.exists(b.cjit) and os.path.exists(b.libtcc)):
        raise BuildError("build produced no cjit")
    # warm the runtime assets once, before any parallel run
    shutil.rmtree(b.assets, ignore_errors=True)
    subprocess.run([b.cjit, "--xass"], cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, env=dict(os.environ, **env), timeout=60)
    return b


def driver(scratch, name, sources, repo_sources, san=True, cc="gcc", extra=(), root=None, libs=(), opt="-O1"):
    """Compile a C driver of /verif/harness with sources of /repo/src."""
    out = os.path.join(scratch, name)
    root = root or REPO
    cmd = [cc, opt, "-g", "-w", "-D_GNU_SOURCE", "-DLIBC_GNU", "-DCJIT_BUILD_LINUX", '-DVERSION="vf"',
           "-fno-omit-frame-pointer"]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    cmd += list(extra)
    cmd += ["-I" + os.path.join(root, "src"), "-I" + os.path.join(root, "lib/tinycc")]
    cmd += [os.path.join(HERE, "harness", s) for s in sources]
    cmd += [os.path.join(root, "src", s) for s in repo_sources]
    cmd += list(libs) + ["-o", out]
    sh(cmd)
    return out


_scratches = []
extra_cleanup = []      # (path, pid): asset folders of copies with another version


def scratch_dir():
    d = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
    os.chmod(d, 0o755)
    _scratches.append((d, os.getpid()))
    return d


def cleanup():
    me = os.getpid()
    for d, pid in extra_cleanup:
        if pid == me and os.path.lexists(d):
            shutil.rmtree(d, ignore_errors=True)
            if os.path.lexists(d):
                os.unlink(d)
    for d, pid in _scratches:
        if pid == me:
            for n in os.listdir(d) if os.path.isdir(d) else ():
                if n.startswith("build-"):
                    a = "/tmp/cjit-vf%s-%d" % (n[len("build-"):], me)
                    shutil.rmtree(a, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)


atexit.register(cleanup)


def _term(sig, frm):
    sys.exit(3)


def install_signal_cleanup():
    signal.signal(signal.SIGTERM, _term)
