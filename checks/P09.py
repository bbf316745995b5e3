"""P09: results are deterministic: no randomness, object identity, hash order or environment enters them (except rsd)."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: effect analysis (randomness, time, environment, id/hash, iteration order of string sets)"
RANDOM_RULES = {"rsd"}


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] in ("None", "m")] + H.prop_jobs() + H.reader_jobs()


def visit(res):
    hits, n = [], 0
    name = res.job.name
    rnd = res.job.info.get("rule") in RANDOM_RULES
    for e in U.events(res, "nondet", "iter-strset", "sort-setrepr"):
        n += 1
        if e.kind == "nondet" and rnd and ("random" in str(e.data.get("what"))):
            continue
        what = {"nondet": "uses %s" % e.data.get("what"), "iter-strset": "depends on the iteration order of a set of strings",
                "sort-setrepr": "sorts sets by their printed form, which depends on insertion order"}[e.kind]
        hits.append(U.evhit(e.kind, e, "%s %s" % (name, what)))
    return dict(hits=hits, n=n + len(res.I.called))


finish = U.simple_finish("calls to random/time/environment sources and order-sensitive uses of hashed containers in every function reachable from the entry points",
                         ["sets of small integers iterate in a reproducible order (CPython hashes integers by value)", "solver libraries are deterministic"])
