"""Batches of requests to a request/reply driver process."""
import struct
from . import proc


def batch(exe, reqs, timeout=60, cwd=None):
    """-> list of (reply bytes | None); None from the first request the process did not answer; plus the run."""
    data = b"".join(struct.pack("<I", len(r)) + r for r in reqs)
    r = proc.run([exe], input=data, timeout=timeout, fsize=1 << 30, cwd=cwd)
    out, pos, res = r.out, 0, []
    while pos + 4 <= len(out) and len(res) < len(reqs):
        (n,) = struct.unpack_from("<I", out, pos)
        if pos + 4 + n > len(out):
            break
        res.append(out[pos + 4:pos + 4 + n])
        pos += 4 + n
    while len(res) < len(reqs):
        res.append(None)
    return res, r


def all_replies(exe, reqs, timeout=60, cwd=None):
    """Like batch, but restarts after a request that killed the process.
    -> list of (reply | None, error text)"""
    out, i = [], 0
    while i < len(reqs):
        res, r = batch(exe, reqs[i:], timeout, cwd)
        k = 0
        while k < len(res) and res[k] is not None:
            out.append((res[k], None))
            k += 1
        i += k
        if i < len(reqs):
            why = "timeout" if r.timeout else "exit status %s: %s" % (r.rc, r.err.decode("utf-8", "replace")[:1500])
            out.append((None, why))
            i += 1
        elif r.rc != 0 and k == len(res) and res:
            # died after the last reply (end-of-process checks)
            out[-1] = (None, "exit status %s: %s" % (r.rc, r.err.decode("utf-8", "replace")[:1500]))
    return out


class Reader:
    def __init__(self, b):
        self.b, self.p = b, 0

    def u32(self):
        (v,) = struct.unpack_from("<I", self.b, self.p)
        self.p += 4
        return v

    def i32(self):
        (v,) = struct.unpack_from("<i", self.b, self.p)
        self.p += 4
        return v

    def bytes(self):
        n = self.u32()
        v = self.b[self.p:self.p + n]
        self.p += n
        return v


def u32(v):
    return struct.pack("<I", v & 0xFFFFFFFF)


def s(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return struct.pack("<I", len(b)) + b
