"""Runs one check: build, explore, confirm, shrink, report, write evidence."""
import argparse, hashlib, importlib, json, os, sys, time, traceback
from . import build, pbt

HERE = build.HERE
KNOWN = os.path.join(HERE, "known-findings.txt")


class Ctx:
    pass


class Check:
    """One property.  Sub-classes set id, parts and setup().

    parts    : list of pbt.Prop; each has quick_n/quick_secs, thorough_n/thorough_secs
    examples : dict part name -> list of explicit cases run before exploration
    known    : dict key -> function(ctx) returning a description while the defect is there
    """
    id = None
    level = "exploration"
    assumptions = []
    parts = []
    known = {}

    def setup(self, ctx):
        pass

    def examples(self, part, ctx):
        return []

    def exhaustive(self, ctx):
        return None


def listed_findings(pid):
    out = set()
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                kv = dict(w.split("=", 1) for w in line.split()[1:4] if "=" in w)
                if kv.get("property") == pid:
                    out.add(kv.get("key"))
    return out


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return x.decode("latin-1") if len(x) < 400 else x[:400].decode("latin-1") + "...(%d bytes)" % len(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    return repr(x)


def clip(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(jsonable(x), ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def write_replay(chk, part, choices, fail, case, seed, company=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": chk.id, "part": part.name, "choices": choices, "message": fail.msg,
            "detail": jsonable(fail.kw), "case": None if company is not None else jsonable(part.show(case)), "seed": seed}
    if company is not None:
        body["company"] = repr(company)
        body["case"] = "\n".join(part.show(c) for c in company)
    elif choices is None:
        body["example"] = True
        body["case_repr"] = repr(case)
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (chk.id, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def confirm3(part, ctx, choices=None, case=None, company=None):
    last = None
    for _ in range(3):
        if company is not None:
            r = part.company(company, ctx)
            if not isinstance(r, pbt.Fail):
                return None, None
            last = r
            continue
        if choices is not None:
            _, case = pbt.make_case(part, choices=list(choices))
            if case is None:
                return None, None
        r = part.confirm(case, ctx)
        if not isinstance(r, pbt.Fail):
            return None, None
        last = r
    return last, case


def load(pid):
    return importlib.import_module("checks." + pid).CHECK


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--n", type=int)
    ap.add_argument("--max-fails", type=int, default=8)
    ap.add_argument("--all-fails", action="store_true", help="report each failure, without shrinking")
    a = ap.parse_args(argv)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    tier = "thorough" if a.tier == "thorough" else "quick"
    build.install_signal_cleanup()
    t0 = time.monotonic()
    chk = load(a.id)
    ctx = Ctx()
    ctx.tier, ctx.seed, ctx.scratch = tier, seed, build.scratch_dir()
    ctx.home = os.path.join(ctx.scratch, "home")
    os.makedirs(ctx.home)
    os.environ["HOME"] = ctx.home
    os.umask(0o022)
    chk.setup(ctx)
    t_build = time.monotonic() - t0

    if a.replay:
        rep = json.load(open(a.replay))
        part = [p for p in chk.parts if p.name == rep["part"]][0]
        part.setup_worker(ctx)
        if rep.get("company"):
            import ast
            r = part.company(ast.literal_eval(rep["company"]), ctx)
            print("FAIL: " + r.msg if isinstance(r, pbt.Fail) else "passes")
            if isinstance(r, pbt.Fail):
                print("VIOLATION property=%s replay=%s" % (chk.id, a.replay))
                return 1
            return 0
        if rep.get("example"):
            import ast
            case = ast.literal_eval(rep["case_repr"])
        else:
            _, case = pbt.make_case(part, choices=rep["choices"])
        r = part.confirm(case, ctx)
        print(clip(part.show(case), 20000))
        if isinstance(r, pbt.Fail):
            print("FAIL:", r.msg)
            for k, v in r.kw.items():
                print("  %s: %s" % (k, clip(v, 4000)))
            print("VIOLATION property=%s replay=%s" % (chk.id, a.replay))
            return 1
        print("passes:", r)
        return 0

    rc = 0
    violations = []
    listed = listed_findings(chk.id)
    known_seen = []
    for key, fn in chk.known.items():
        what = fn(ctx)
        if what:
            if key in listed:
                known_seen.append(key)
                print("KNOWN-FINDING: property=%s %s: %s" % (chk.id, key, what))
            else:
                path = os.path.join(HERE, "replays", "%s-%s.txt" % (chk.id, key))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                open(path, "w").write("%s\n" % what)
                violations.append((path, what))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": {}}
    rules, unconfirmed = [], 0
    for part in chk.parts:
        if a.part and part.name != a.part:
            continue
        n = a.n or getattr(part, tier + "_n")
        secs = a.secs or getattr(part, tier + "_secs")
        tp = time.monotonic()
        fails = []
        # explicit cases first
        ex = list(chk.examples(part, ctx))
        if ex:
            part.setup_worker(ctx)
            for c in ex:
                r = part.confirm(c, ctx)
                if isinstance(r, pbt.Fail):
                    f, _ = confirm3(part, ctx, case=c)
                    if f:
                        violations.append((write_replay(chk, part, None, f, c, seed), f.msg))
                        print("failing example: %s" % clip(part.show(c)))
                        print("  " + clip(f.msg, 3000))
                        break
        res = pbt.explore(part, ctx, seed, n, secs, max_fails=a.max_fails)
        if res.fails:
            part.setup_worker(ctx)
        if a.all_fails:
            for i, choices, msg, kw in res.fails:
                d, case = pbt.make_case(part, choices=list(choices))
                print("---- fail #%d: %s\n%s" % (i, clip(msg, 3000), clip(part.show(case), 6000)))
            if res.fails:
                violations.append(("-", "-"))
            res.fails = []
        for i, choices, msg, kw in res.fails:
            company = kw.get("company")
            if company is not None:
                f, _ = confirm3(part, ctx, company=company)
                if f:
                    f.kw.pop("company", None)
                    violations.append((write_replay(chk, part, None, f, None, seed, company), f.msg))
                    print("failing group of %d cases (part %s): %s" % (len(company), part.name, clip("\n".join(part.show(c) for c in company), 6000)))
                    print("  " + clip(f.msg, 3000))
                    break
                unconfirmed += 1
                continue
            f, case = confirm3(part, ctx, choices)
            if not f:
                unconfirmed += 1
                print("note: case %d of %s failed once and not again: %s" % (i, part.name, clip(msg, 1000)))
                continue
            best = choices
            s = pbt.shrink(part, ctx, choices)
            if s:
                f2, case2 = confirm3(part, ctx, s[0])
                if f2:
                    best, f, case = s[0], f2, case2
            path = write_replay(chk, part, best, f, case, seed)
            violations.append((path, f.msg))
            print("failing case (part %s): %s" % (part.name, clip(part.show(case), 6000)))
            print("  " + clip(f.msg, 3000))
            break
        cov["evaluations"] += res.evals + len(ex)
        cov["distinct_nontrivial"] += len(res.nt)
        cov["samples"] += [{"part": part.name, "case": clip(s)} for s in res.samples[:3]]
        cov["parts"][part.name] = {"evaluations": res.evals, "explicit": len(ex),
                                   "distinct_nontrivial": len(res.nt), "discarded": res.discards,
                                   "planned": n, "finished_plan": res.complete, "secs": round(time.monotonic() - tp, 1),
                                   "classes": dict(sorted(res.labels.items()))}
        rules.append("%s: %s" % (part.name, part.rule))
        print("%s/%s: %d cases, %d distinct non-trivial, %d discarded, %d failing, %.1fs" %
              (chk.id, part.name, res.evals, len(res.nt), res.discards, len(res.fails), time.monotonic() - tp))
        sys.stdout.flush()
    cov["rule"] = " | ".join(rules)
    cov["known_findings_seen"] = known_seen
    cov["unconfirmed"] = unconfirmed
    cov["build_s"] = round(t_build, 1)
    ev = {"property": chk.id, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": list(chk.assumptions), "wall_s": round(time.monotonic() - t0, 2),
          "violations": len(violations)}
    if not a.part:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", chk.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    for path, msg in violations[:5]:
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        rc = 1
    return rc


def cli():
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except build.BuildError as e:
        print("build error:", e)
        rc = 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        build.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
