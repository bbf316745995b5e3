#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   (or: check.py --all [ids...] for development)"""
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def main():
    from lib import base

    args = [a for a in sys.argv[1:]]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
        os.environ["VERIF_TIER"] = tier
    if args and args[0] == "--all":
        pids = args[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith("P") and f.endswith(".py"))
    else:
        pids = args
    t0 = time.time()
    mods = {p: base._mod(p) for p in pids}
    jobs = {p: m.jobs(tier) for p, m in mods.items() if hasattr(m, "jobs")}
    res = base.run_jobs(jobs)
    rc = 0
    for p in pids:
        m = mods[p]
        errs = {n: r["error"] for n, r in res.get(p, {}).items() if "error" in r}
        groups = {}
        for n, e in sorted(errs.items()):
            groups.setdefault(e, []).append(n)
        for e, ns in list(groups.items())[:6]:
            print("not-analysed %s: %d configurations (%s): %s" % (p, len(ns), ", ".join(ns[:2]), e[-400:].replace("\n", " / ")))
        findings, coverage, assumptions = m.finish(res.get(p, {}), tier)
        coverage.setdefault("jobs", len(jobs.get(p, [])))
        coverage["jobs_not_analysed"] = sorted(errs)
        coverage["jobs_stopped_by_time_limit"] = sorted(n for n, r in res.get(p, {}).items() if r.get("partial"))
        coverage["imprecision"] = sorted({l for r in res.get(p, {}).values() for l in r.get("lossy", {})})[:20]
        c = base.report(p, findings, coverage, t0, m.TECHNIQUE, assumptions)
        rc = max(rc, c)
    return rc


if __name__ == "__main__":
    sys.exit(main())
