"""P11: floating-point values are compared with a tolerance."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: number-kind analysis of comparisons; tolerance typestate (isclose sibling / added slack / constant threshold)"
FLOAT_ALGS = {"float-fractions", "gurobi", "mip-cbc", "mip-gurobi"}


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["alg"] in FLOAT_ALGS and j.info["m"] in ("None", "m")] + H.prop_jobs()


def visit(res):
    hits = []
    name = res.job.name
    tol = set()
    n = 0
    for e in U.events(res, "isclose"):
        n += 1
        for f, l in e.stack:
            tol.add(f)
        tol.add(e.func)
    for e in U.events(res, "cmp-inexact"):
        n += 1
        d = e.data
        if d.get("slack"):
            continue
        const = d["lconst"] != "None" or d["rconst"] != "None"
        if d["op"] in ("==", "!="):
            if const and not ({"float", "npfloat"} & set(d["l"]) and {"float", "npfloat"} & set(d["r"]) or d["lconst"] not in ("None", "0") or d["rconst"] not in ("None", "0")):
                continue
            hits.append(U.evhit("float-equality", e, "%s: floating-point numbers are compared with %s" % (name, d["op"])))
        elif not const and not siblings(e, tol):
            hits.append(U.evhit("float-order", e, "%s: floating-point numbers are ordered with '%s' in a function that never allows for rounding" % (name, d["op"])))
        elif const and "solution" in e.kind:
            pass
    for e in U.events(res, "membership-inexact"):
        hits.append(U.evhit("float-membership", e, "%s: membership test on floating-point numbers" % name))
    return dict(hits=hits, n=n)


def siblings(e, tol):
    return e.func in tol


finish = U.simple_finish("comparisons whose operands may be floats: equality is never exact, ordering comparisons happen next to misc.isclose or with an explicit slack",
                         ["comparisons with a constant threshold are tolerant by construction"])
