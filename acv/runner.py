"""Runs the checks of one property: sharding, shrinking, evidence, replays."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
FINDINGS = os.path.join(VERIF, "known_findings.json")

PROPS = [
    name[:-3].upper() for name in sorted(os.listdir(
        os.path.join(VERIF, "acv", "props")))
    if name.startswith("p") and name.endswith(".py") and name[1:-3].isdigit()
]


def load(prop):
    return importlib.import_module("acv.props." + prop.lower())


def findings_of(prop):
    with open(FINDINGS) as f:
        data = json.load(f)
    return [x for x in data["entries"]
            if x["property"] == prop and x["kind"] == "finding"]


def judged(check, case):
    """Run one case.  On the domain of the checks the oracles interpret
    whatever the product does without raising, so an unexpected exception is
    a product behaviour the property does not allow."""
    from .core import Violation, Skip
    try:
        return check.run(case)
    except (Violation, Skip):
        raise
    except Exception:
        raise Violation("the product's behaviour could not be interpreted:\n"
                        + traceback.format_exc()[-3000:]) from None


def _worker(job):
    """Explore one shard.  Returns a plain dict."""
    prop, name, shard, n, seed, gen_s, shrink_s = job
    out = {"shard": shard, "evals": 0, "skips": 0, "nontrivial": {},
           "samples": [], "tags": {}, "failure": None, "error": None,
           "cut": False}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import random
        from .core import Violation, Skip, D, digest, shrink, derive_seed
        mod = load(prop)
        check = next(c for c in mod.CHECKS if c.name == name)
        end = time.monotonic() + gen_s
        for k in range(n):
            if time.monotonic() > end:
                out["cut"] = True
                break
            d = D(random.Random(derive_seed(seed, k)))
            try:
                case = check.strategy(d)
            except Skip:
                continue
            out["evals"] += 1
            try:
                info = judged(check, case)
            except Skip:
                out["skips"] += 1
                continue
            except Violation as v:
                out["failure"] = (case, str(v))
                out["at"] = k
                stop = time.monotonic() + shrink_s

                def fails(c):
                    try:
                        judged(check, c)
                    except Violation:
                        return True
                    except Skip:
                        pass
                    return False
                ch = shrink(check.strategy, d.taken, fails,
                            lambda: stop - time.monotonic())
                small = check.strategy(D(given=ch))
                if fails(small):
                    out["failure"] = (small, str(v))
                break
            if info is None:
                continue
            for t in info.get("tags", ()):
                out["tags"][t] = out["tags"].get(t, 0) + 1
            if info.get("nontrivial"):
                h = digest(case)
                if h not in out["nontrivial"]:
                    out["nontrivial"][h] = 1
                    if len(out["samples"]) < 3:
                        out["samples"].append(case)
    except BaseException:
        out["error"] = traceback.format_exc()
    out["nontrivial"] = list(out["nontrivial"])
    return out


def run_one(prop, name, case):
    """Run one case directly.  Returns the violation message or None."""
    from .core import Violation, Skip
    mod = load(prop)
    check = next(c for c in mod.CHECKS if c.name == name)
    try:
        judged(check, case)
    except Violation as v:
        return str(v)
    except Skip:
        return None
    return None


def _history(prop, name, seed, k):
    """Run cases 0..k of a shard in one process.  Returns the violation
    message of the last one or None."""
    import random
    from .core import Violation, Skip, D, derive_seed
    check = next(c for c in load(prop).CHECKS if c.name == name)
    msg = None
    for i in range(k + 1):
        msg = None
        try:
            judged(check, check.strategy(
                D(random.Random(derive_seed(seed, i)))))
        except Violation as v:
            msg = "after %d earlier compilations in one process: %s" % (
                i, v)
        except Skip:
            pass
    return msg


def _in_child(fn, args):
    with multiprocessing.get_context("fork").Pool(1) as pool:
        return pool.apply(fn, args)


def _trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def run_property(prop, tier, seed, out=sys.stdout):
    t0 = time.monotonic()
    mod = load(prop)
    os.makedirs(REPLAYS, exist_ok=True)
    nproc = int(os.environ.get("ACV_JOBS", "8"))
    total_s = float(os.environ.get("ACV_TIME", "420" if tier == "quick" else "3000"))
    scale = float(os.environ.get("ACV_SCALE", "1"))
    per = {}
    violations = []
    error = None
    # committed regression cases first (each is one concrete input)
    reg = getattr(mod, "REGRESSIONS", [])
    for name, case in reg:
        msg = run_one(prop, name, case)
        if msg is not None:
            violations.append((name, case, msg))
            break
    known = []
    for f in findings_of(prop):
        msg = run_one(prop, f["check"], f["case"])
        if msg is not None and f["match"] in msg:
            known.append(f)
    jobs = []
    ctx = multiprocessing.get_context("fork")
    sel = os.environ.get("ACV_ONLY")
    checks = [c for c in mod.CHECKS if not sel or c.name in sel.split(",")]
    if not violations:
        for c in checks:
            n = c.quick if tier == "quick" else c.thorough
            n = max(1, int(n * scale))
            shards = 1 if c.serial else min(nproc, n)
            for s in range(shards):
                k = n // shards + (1 if s < n % shards else 0)
                from .core import derive_seed
                jobs.append((prop, c.name, s, k,
                             derive_seed(seed, prop, c.name, s),
                             total_s, 60.0 if tier == "quick" else 240.0))
        # big shards first would not change the verdict; keep the order
        results = []
        with ctx.Pool(min(nproc, max(1, len(jobs))), maxtasksperchild=1) as pool:
            for job, r in zip(jobs, pool.imap(_worker, jobs)):
                results.append((job, r))
                if r["failure"] or r["error"]:
                    pool.terminate()
                    break
        for job, r in results:
            p = per.setdefault(job[1], {"evals": 0, "skips": 0, "non": set(),
                                        "samples": [], "tags": {}, "cut": 0})
            p["evals"] += r["evals"]
            p["skips"] += r["skips"]
            p["non"].update(r["nontrivial"])
            if len(p["samples"]) < 3:
                p["samples"].extend(r["samples"][:3 - len(p["samples"])])
            for t, v in r["tags"].items():
                p["tags"][t] = p["tags"].get(t, 0) + v
            p["cut"] += bool(r["cut"])
            if r["error"] and error is None:
                error = (job, r["error"])
            if r["failure"]:
                case, msg = r["failure"]
                violations.append((job[1], case, msg, job[4], r["at"]))
    confirmed = []
    for name, case, msg, *hist in violations[:1]:
        again = run_one(prop, name, case)
        if again is None and hist:
            # it takes the cases before it in the same process
            again = _in_child(_history, (prop, name, hist[0], hist[1]))
            if again is not None:
                case = {"history": hist}
        if again is None:
            error = error or (name, "unreproducible violation: %s\ncase: %s"
                              % (msg, json.dumps(case)[:2000]))
            continue
        path = os.path.join(REPLAYS, "%s-%s.json" % (prop, name))
        with open(path, "w") as f:
            json.dump({"property": prop, "check": name, "case": case,
                       "message": again}, f, indent=1)
        confirmed.append((name, path, again))
    evals = sum(p["evals"] for p in per.values())
    non = sum(len(p["non"]) for p in per.values())
    samples = []
    for name, p in per.items():
        for s in p["samples"][:2]:
            samples.append({"check": name, "case": _trim(s)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": non,
            "rule": mod.RULE,
            "samples": samples[:12],
            "per_check": {
                name: {"evaluations": p["evals"], "skipped": p["skips"],
                       "distinct_nontrivial": len(p["non"]),
                       "cut_shards": p["cut"],
                       "tags": dict(sorted(p["tags"].items()))}
                for name, p in per.items()},
            "regression_cases": len(reg),
            "known_findings": [f["id"] for f in known],
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(confirmed),
    }
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), file=out)
    for name, path, msg in confirmed:
        print("check %s: %s" % (name, msg[:3000]), file=out)
        print("VIOLATION property=%s replay=%s" % (prop, path), file=out)
    if confirmed:
        return 1
    if error:
        print("HARNESS ERROR in %s" % (error[0],), file=out)
        print(error[1], file=out)
        return 2
    floor = getattr(mod, "FLOOR", 0.02)
    for name, p in per.items():
        if p["evals"] >= 100 and len(p["non"]) < floor * p["evals"]:
            print("HARNESS ERROR: check %s found only %d non-trivial cases "
                  "in %d" % (name, len(p["non"]), p["evals"]), file=out)
            return 2
    print("OK property=%s tier=%s evaluations=%d nontrivial=%d wall=%.1fs"
          % (prop, tier, evals, non, time.monotonic() - t0), file=out)
    return 0


def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        with open(argv[1]) as f:
            r = json.load(f)
        if isinstance(r["case"], dict) and list(r["case"]) == ["history"]:
            msg = _history(r["property"], r["check"], *r["case"]["history"])
        else:
            msg = run_one(r["property"], r["check"], r["case"])
        if msg is None:
            print("replay: no violation")
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (r["property"], argv[1]))
        return 1
    if argv == ["setup"]:
        for p in PROPS:
            load(p)
        from .h import run_src
        run_src("x := 1\nx += 2\n")
        print("ready:", " ".join(PROPS))
        return 0
    if not argv or argv[0].upper() not in PROPS:
        print("usage: run.py PROP [quick|thorough] | run.py replay FILE")
        print("properties:", " ".join(PROPS))
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_property(argv[0].upper(), tier, seed)
