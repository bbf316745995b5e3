"""P12: only ratios of voter weights matter (scale invariance)."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: dimensional analysis (weight exponent of every number; additions and comparisons need equal dimensions)"


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] in ("None", "m")] + H.prop_jobs(quota=False)


def visit(res):
    hits = []
    name = res.job.name
    for e in U.events(res, "unit-mismatch"):
        d = e.data
        if e.func.endswith("has_unit_weights"):
            continue  # the unit-weight test itself
        hits.append(U.evhit("scale", e, "%s: %s mixes weight^%s and weight^%s quantities" % (name, d["what"], d["left"], d["right"])))
    return dict(hits=hits, n=len(res.I.called))


finish = U.simple_finish("dimension of every number derived from voter weights; obligation: sums and comparisons are homogeneous in the weights",
                         ["numerical tolerances below 1/1000 are dimension-free"])
