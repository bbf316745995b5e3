"""P08: results do not depend on the verbosity level."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: information-flow labels from output.verbosity to results, exceptions and argument objects"


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] in ("None", "m")] + H.prop_jobs() + H.reader_jobs()


def visit(res):
    hits, n = [], 0
    name = res.job.name
    for st in res.outs:
        n += 1
        labs = set(st.pc) | U.deep_labels(res.value(st), st)
        if "verb" in labs:
            hits.append(U.hit("verbosity-flow", "abcvoting.output", 0, "/".join(name.split("/")[:2]), "%s: the result depends on the output verbosity" % name))
    for st, exc, (loc, implicit, stack) in res.excs:
        if "verb" in st.pc and not implicit:
            hits.append(U.hit("verbosity-raise", loc[0], loc[1], stack[-1] if stack else "", "%s: an exception is raised depending on the output verbosity" % name, stack))
    return dict(hits=hits, n=n)


finish = U.simple_finish("labels attached to output.verbosity and propagated through data and control flow; obligation: no label reaches a result or an explicit raise",
                         ["logger objects are not installed"])
