"""Check driver: parallel analysis, known findings, evidence, verdict lines."""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from multiprocessing import Pool, TimeoutError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
MEM = int(float(os.environ.get("ABCV_WORKER_GB", "3.5")) * 2 ** 30)


class Finding:
    """one violation, anchored at a construct of /repo"""

    def __init__(self, key, where, msg, path=()):
        self.key, self.where, self.msg, self.path = key, where, msg, tuple(path)

    def as_dict(self):
        return dict(key=self.key, where=self.where, message=self.msg, path=list(self.path))


def modpath(m):
    return m.replace(".", "/") + ".py"


def where(file, line, func=""):
    return "%s:%s%s" % (modpath(file) if "/" not in file else file, line, " (%s)" % func if func else "")


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(20000)


_MODS = {}


def _mod(pid):
    if pid not in _MODS:
        import importlib

        _MODS[pid] = importlib.import_module("checks." + pid)
    return _MODS[pid]


class JobTimeout(BaseException):
    pass


def _alarm(*a):
    raise JobTimeout("analysis of one configuration exceeded its time limit")


def _work(arg):
    job, pids = arg
    from lib import harness as H

    t0 = time.time()
    out = {}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(os.environ.get("ABCV_JOB_S", "150")))
        try:
            res = H.analyse(job)
        finally:
            signal.alarm(0)
    except JobTimeout:
        # what was found on the abstract states explored so far remains valid
        res = H.partial()
        if res is None:
            return job.name, {p: dict(error="timeout") for p in pids}, time.time() - t0
    except MemoryError:
        return job.name, {p: dict(error="memory") for p in pids}, time.time() - t0
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        return job.name, {p: dict(error="%s: %s | %s" % (type(e).__name__, e, " / ".join(tb[-7:-1]))) for p in pids}, time.time() - t0
    for p in pids:
        try:
            out[p] = _mod(p).visit(res) or {}
        except Exception as e:
            out[p] = dict(error="visit %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
    for p in pids:
        if res.partial and "error" not in out[p]:
            out[p]["partial"] = True
        out[p].setdefault("lossy", dict(res.I.lossy))
        out[p].setdefault("steps", res.I.steps)
        out[p].setdefault("funcs", sorted("%s.%s" % x for x in res.I.called))
    return job.name, out, time.time() - t0


def run_jobs(jobs_by_pid, procs=8):
    """jobs_by_pid: {pid: [Job]} -> {pid: {jobname: visit result}}; identical jobs are analysed once"""
    merged = {}
    for pid, jobs in jobs_by_pid.items():
        for j in jobs:
            k = (j.kind, j.name, j.call, j.pre)
            if k in merged:
                merged[k][1].append(pid)
            else:
                merged[k] = (j, [pid])
    res = {pid: {} for pid in jobs_by_pid}
    work = list(merged.values())
    # long jobs first
    work.sort(key=lambda x: -x[0].info.get("cost", 1))
    with Pool(min(procs, max(1, len(work))), initializer=_init, maxtasksperchild=6) as p:
        it = p.imap_unordered(_work, work)
        deadline = time.time() + float(os.environ.get("ABCV_TOTAL_S", "720"))
        while True:
            try:
                name, out, dt = it.next(timeout=max(0.1, deadline - time.time()))
            except StopIteration:
                break
            except TimeoutError:
                p.terminate()
                break
            for pid, r in out.items():
                r["wall"] = dt
                res[pid][name] = r
    for j, pids in merged.values():
        for pid in pids:
            res[pid].setdefault(j.name, dict(error="not analysed within the total time limit"))
    return res


def known():
    """known findings: {property: {key: text}}; 'fixed:' lines suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                f = line[7:].split(" ", 2)
                pid = f[0].split("=", 1)[1]
                key = f[1].split("=", 1)[1]
                r.setdefault(pid, {})[key] = f[2] if len(f) > 2 else ""
    return r


def report(pid, findings, coverage, t0, technique, assumptions=(), level="other"):
    """write evidence + replay, print verdict lines, return exit code"""
    kn = known().get(pid, {})
    uniq = {}
    for f in findings:
        uniq.setdefault(f.key, f)
    listed = [f for f in uniq.values() if f.key in kn]
    new = [f for f in uniq.values() if f.key not in kn]
    for f in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[f.key] or f.msg, f.where))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(
        property=pid, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level=level, coverage=coverage, wall_s=round(time.time() - t0, 2),
        violations=[f.as_dict() for f in new] if False else len(new),
        assumptions=list(assumptions),
    )
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write("\n")
    if new:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.json")
        with open(rp, "w") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1, default=str)
        for f in new:
            print("  %s: %s [%s]" % (f.where, f.msg, f.key))
            for s in f.path[:12]:
                print("      via %s" % s)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    rp = os.path.join(ROOT, "evidence", pid + ".violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    print("OK property=%s %s" % (pid, {k: v for k, v in coverage.items() if isinstance(v, (int, float))}))
    return 0
