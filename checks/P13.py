"""P13: voter weights are used (or refused) by every rule, score function and property check."""
from lib import harness as H, util as U
from engine import lin as L
from engine.values import *

TECHNIQUE = "abstract interpretation: information-flow labels from Voter.weight to committees, solver models and verdicts; reachability for weights >= 2"
# the definition does not depend on weights
WEIGHT_FREE = {"minimaxav", "trivial", "check_pareto_optimality", "api/minimaxav_score", "api/num_voters_with_upper_bounded_hamming_distance",
               "api/dominate", "api/monroescore", "api/monroescore_matching", "api/monroescore_flowbased"}
# only defined for unit weights: must refuse
REFUSE = {"monroe", "greedy-monroe", "lexminimaxav", "rsd"}
# load- and support-based rules: weights enter through constraints that depend on the profile
LOADS = {"leximaxphragmen", "minimaxphragmen", "maximin-support", "monroe", "lexminimaxav", "minimaxav"}
HEAVY = H.PRE.replace("weight=W", "weight=W2").replace("p = Profile", "p = Profile")
READ = ("api/thiele_score", "api/marginal_thiele", "api/profile.total_weight", "api/profile.has_unit_weights", "api/str(profile)", "api/profile.str_compact",
        "api/profile.copy")


def jobs(tier):
    js = [j for j in H.compute_jobs() if j.info["m"] in ("None", "m") and j.info["rule"] not in WEIGHT_FREE | REFUSE]
    js += [j for j in H.compute_jobs(pre=HEAVY) if j.info["m"] == "None" and j.info["rule"] in REFUSE]
    for j in js:
        if j.pre == HEAVY:
            j.name += "/weights>=2"
    return js + [j for j in H.prop_jobs(quota=False) if j.info["func"] not in WEIGHT_FREE] + [j for j in H.reader_jobs() if j.name.startswith(READ)]


def visit(res):
    j = res.job
    who = "/".join(j.name.split("/")[:2])
    hits = []
    if j.pre == HEAVY:
        if res.outs and not res.I.lossy:
            hits.append(U.hit("weights-not-refused", "abcvoting.abcrules", 0, who, "%s: a rule that is only defined for unit weights returns committees for voters of weight >= 2" % j.name))
        return dict(hits=hits, n=1)
    n = 0
    labs = U.result_labels(res)
    for st in res.outs:
        for o in st.heap.values():
            if o.kind == "ext":
                labs |= set(o.labels)
        for a in res.value(st).a:
            n += 1
    if "weight" not in labs and res.outs and not res.I.lossy:
        hits.append(U.hit("weights-ignored", "abcvoting.abcrules" if j.kind == "compute" else "abcvoting.properties", 0, who, "%s: voter weights never reach the result" % j.name))
    if j.kind == "compute" and j.info["rule"] not in LOADS:
        for e in U.events(res, "optimize"):
            n += 1
            if "True" not in e.data["objw"] and not e.data["mustw"]:
                hits.append(U.evhit("unweighted-objective", e, "a program is solved whose objective (and unconditional constraints) contain no voter weight, "
                                    "although the rule maximises a weighted score", who))
    return dict(hits=hits, n=n)


finish = U.simple_finish("labels of Voter.weight through data and control flow (including solver models) into each result; rules restricted to unit weights: "
                         "no normal return for weights >= 2", ["a label proves that weights are consulted, not that they are used correctly (P12 checks dimensions)"])
