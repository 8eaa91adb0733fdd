"""A small property-based-testing engine.

Every random decision of a generator is one bounded integer drawn through
Data.draw(); the list of those integers *is* the case.  A case is therefore
replayable from its choice list and shrinks by editing that list (delete
blocks, zero blocks, lower single values) - the same idea Hypothesis uses
internally, written here so that cases can be checked in large batches
(one compiler run for dozens of cases) and on all cores, and so that a run
is a pure function of (code under test, VERIF_SEED).
"""
import hashlib, json, os, random, sys, time, traceback
import multiprocessing as mp


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Data:
    __slots__ = ("rng", "prefix", "choices", "labels", "i", "nt")

    def __init__(self, rng=None, prefix=None):
        self.rng, self.prefix = rng, prefix
        self.choices, self.labels, self.i = [], {}, 0
        self.nt = None

    def draw(self, n):
        """An integer in [0,n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix[self.i] if self.i < len(self.prefix) else 0
            v = v if 0 <= v < n else n - 1
            self.i += 1
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.draw(den) >= den - num

    def wpick(self, pairs):
        """pairs of (weight, value); put the simplest first."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def bytes(self, n):
        return bytes(self.draw(256) for _ in range(n))

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def label(self, s, k=1):
        self.labels[s] = self.labels.get(s, 0) + k


def mix(*parts):
    h = hashlib.sha256("\0".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def case_key(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "surrogateescape"), digest_size=8).digest()


class Fail:
    """A property violation found for one case."""
    def __init__(self, msg, **kw):
        self.msg, self.kw = msg, kw

    def __repr__(self):
        return "Fail(%s)" % self.msg


class Prop:
    """Sub-class per property (or per component of a property).

    gen(d)            -> case (any picklable value with a stable repr)
    run(cases, ctx)   -> list of None | Fail | Discard  (same length)
    nontrivial(case, d) -> bool (by the stated rule)
    show(case)        -> a printable sample
    """
    name = "main"
    rule = ""
    batch = 1
    shrink_evals = 400
    shrink_secs = 60

    def gen(self, d):
        raise NotImplementedError

    def run(self, cases, ctx):
        raise NotImplementedError

    def nontrivial(self, case, d):
        return True

    def show(self, case):
        return case

    def setup_worker(self, ctx):
        pass

    def confirm(self, case, ctx):
        """Re-judge one case in isolation (used for confirming and shrinking)."""
        return self.run([case], ctx)[0]


def make_case(prop, choices=None, seed=None):
    d = Data(rng=random.Random(seed)) if choices is None else Data(prefix=choices)
    try:
        case = prop.gen(d)
    except Discard:
        return d, None
    return d, case


def _worker(prop, ctx, seed, n, batch, counter, stop, q, deadline, wid):
    try:
        prop.setup_worker(ctx)
        stats = {"evals": 0, "discards": 0, "labels": {}, "nt": set(), "samples": []}
        while not stop.is_set() and time.monotonic() < deadline:
            with counter.get_lock():
                b = counter.value
                counter.value += 1
            lo, hi = b * batch, min(n, (b + 1) * batch)
            if lo >= n:
                break
            ds, cases, idxs = [], [], []
            for i in range(lo, hi):
                d, c = make_case(prop, seed=mix(seed, prop.name, i))
                if c is None:
                    stats["discards"] += 1
                    continue
                ds.append(d); cases.append(c); idxs.append(i)
            if not cases:
                continue
            res = prop.run(cases, ctx)
            assert len(res) == len(cases)
            for i, d, c, r in zip(idxs, ds, cases, res):
                if isinstance(r, Discard) or r is Discard:
                    stats["discards"] += 1
                    continue
                stats["evals"] += 1
                for k, v in d.labels.items():
                    stats["labels"][k] = stats["labels"].get(k, 0) + v
                if prop.nontrivial(c, d):
                    stats["nt"].add(case_key(c))
                    if len(stats["samples"]) < 2:
                        stats["samples"].append((i, prop.show(c)))
                if isinstance(r, Fail):
                    q.put(("fail", i, d.choices, r.msg, r.kw))
        q.put(("stats", stats))
    except BaseException:
        q.put(("error", traceback.format_exc()))


class Result:
    def __init__(self):
        self.evals = self.discards = 0
        self.labels, self.nt, self.samples = {}, set(), []
        self.fails = []
        self.complete = True


def explore(prop, ctx, seed, n, secs, workers=None, max_fails=20):
    """Generate and check n cases (fewer if secs run out) on all cores."""
    workers = workers or int(os.environ.get("VF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    m = mp.get_context("fork")
    counter, stop, q = m.Value("l", 0), m.Event(), m.Queue()
    deadline = time.monotonic() + secs
    ps = [m.Process(target=_worker, args=(prop, ctx, seed, n, prop.batch, counter, stop, q, deadline, w))
          for w in range(workers)]
    for p in ps:
        p.start()
    r, done = Result(), 0
    errors = []
    while done < workers:
        try:
            msg = q.get(timeout=1.0)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                errors.append("a worker process died without reporting")
                break
            continue
        if msg[0] == "fail":
            r.fails.append(msg[1:])
            if len(r.fails) >= max_fails:
                stop.set()
        elif msg[0] == "stats":
            s = msg[1]
            r.evals += s["evals"]; r.discards += s["discards"]
            for k, v in s["labels"].items():
                r.labels[k] = r.labels.get(k, 0) + v
            r.nt |= s["nt"]; r.samples += s["samples"]
            done += 1
        else:
            errors.append(msg[1]); done += 1
            stop.set()
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if errors:
        raise RuntimeError("worker error:\n" + "\n".join(errors))
    r.fails.sort(key=lambda f: f[0])
    r.samples = [s for _, s in sorted(r.samples, key=lambda t: t[0])][:4]
    r.complete = counter.value * prop.batch >= n
    return r


def shrink(prop, ctx, choices, secs=None, evals=None, accept=None):
    """Greedy choice-list shrinking; returns (choices, Fail)."""
    secs = prop.shrink_secs if secs is None else secs
    evals = prop.shrink_evals if evals is None else evals
    end = time.monotonic() + secs
    seen, left = set(), [evals]

    def test(ch):
        k = tuple(ch)
        if k in seen or left[0] <= 0 or time.monotonic() > end:
            return None
        seen.add(k); left[0] -= 1
        d, case = make_case(prop, choices=list(ch))
        if case is None:
            return None
        try:
            r = prop.confirm(case, ctx)
        except Exception:
            return None
        if isinstance(r, Fail) and (accept is None or accept(case, r)):
            # use the choices actually consumed
            return d.choices, r
        return None

    best = list(choices)
    t = test(best)
    if t is None:
        return None
    best, fail = t
    seen.clear()
    improved = True

    def better(a, b):
        return (len(a), a) < (len(b), b)

    while improved and left[0] > 0 and time.monotonic() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                t = test(best[:i] + best[i + size:])
                if t and better(t[0], best):
                    best, fail = t; improved = True
                else:
                    i += size
                if left[0] <= 0 or time.monotonic() > end:
                    break
            size //= 2
        size = 16
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    t = test(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                    if t and better(t[0], best):
                        best, fail = t; improved = True
                i += size
                if left[0] <= 0 or time.monotonic() > end:
                    break
            size //= 4
        for i in range(len(best)):
            if i >= len(best):
                break
            for v in (best[i] // 2, best[i] - 1):
                if i < len(best) and 0 < v < best[i]:
                    t = test(best[:i] + [v] + best[i + 1:])
                    if t and better(t[0], best):
                        best, fail = t; improved = True
                        break
    return best, fail
