"""Running untrusted child processes: limits, timeouts, output caps."""
import os, resource, signal, subprocess, threading

ENV_KEEP = ("PATH", "HOME")


def base_env(extra=None):
    e = {k: os.environ[k] for k in ENV_KEEP if k in os.environ}
    e.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["LC_ALL"] = "C.UTF-8"
    e["TERM"] = "dumb"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    if extra:
        e.update(extra)
    return e


class R:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "R(rc=%r, timeout=%r, out=%r, err=%r)" % (self.rc, self.timeout, self.out[-300:], self.err[-300:])


def run(cmd, cwd=None, input=None, timeout=20, env=None, mem=None, fsize=64 << 20, cpu=None, stdin=None, pre=None, merge=False):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if pre:
            pre()
    if stdin is None:
        stdin = subprocess.PIPE if input is not None else subprocess.DEVNULL
    p = subprocess.Popen(cmd, cwd=cwd, stdin=stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         env=env if env is not None else base_env(), preexec_fn=lim)
    to = False
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = b"", b""
    # whatever the child left behind in its session
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return R(p.returncode, out or b"", err or b"", to)
