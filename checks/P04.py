"""P04: invalid parameters of compute functions are rejected with the documented exception, never answered."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: reachability of a normal return for every class of invalid parameter values"


def jobs(tier):
    return [j for j in H.badcall_jobs() if j.info["what"] != "unknown algorithm"]


def visit(res):
    return reject(res, res.job.info["expect"], "%s: %s" % (res.job.info["rule"], res.job.info["what"]), "abcvoting.abcrules", res.job.info["what"])


def reject(res, expect, label, file, fkey, definite=True):
    hits = []
    what = res.job.info.get("what", "")
    if res.outs and (not res.I.lossy or not definite):
        hits.append(U.hit("accepted", file, 0, fkey, "%s is accepted: a call with this invalid parameter can return normally" % label))
    for st, exc, (loc, implicit, stack) in res.excs:
        for nm, anc in U.exc_classes(res, st, exc):
            if nm == "?" :
                continue
            if expect not in [nm] + list(anc):
                hits.append(U.hit("wrong-exception", loc[0], loc[1], fkey, "%s raises %s%s instead of %s" % (label, nm, " (implicitly)" if implicit else "", expect), stack))
    if not res.outs and not res.excs and not res.I.lossy:
        hits.append(U.hit("no-exit", file, 0, fkey, "%s: neither returns nor raises" % label))
    return dict(hits=hits, n=1)


finish = U.simple_finish("calls with one invalid parameter, for every rule id and the generic Thiele/separable entry points; obligation: no normal return is "
                         "reachable and every exception is of the documented class", ["the remaining parameters are valid"])
