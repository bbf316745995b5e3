"""P14: committees and verdicts are taken from a solver only when it reports an optimal solution (or proves infeasibility)."""
from lib import harness as H, shape as SH, util as U
from engine import lin as L
from engine.values import *

TECHNIQUE = "abstract interpretation: typestate of solver models (set of possible status codes, refined by the status tests on each path) at every solution read and every exit"
OPT = {"OPTIMAL"}
DECIDED = {"OPTIMAL", "INFEASIBLE", "INT_INFEASIBLE"}
MAXGAP = 1e-5
# what a feasible model means for the property
FEASIBLE_MEANS = {"check_pareto_optimality": False, "check_EJR": False, "check_PJR": False, "check_FJR": False, "check_core": False,
                  "check_priceability": True, "check_stable_priceability": True}
NONEMPTY_EXEMPT = {"leximaxphragmen", "minimaxphragmen", "maximin-support"}


def jobs(tier):
    js = [j for j in H.compute_jobs() if any(x in j.info["alg"] for x in ("gurobi", "mip", "ortools", "cbc", "highs"))]
    return js + [j for j in H.prop_jobs(quota=tier == "thorough") if j.info["alg"] in ("gurobi", "fastest")]


def lst(xs):
    xs = sorted(xs)
    return ", ".join(xs[:3]) + (", ..." if len(xs) > 3 else "")


def last_status(st):
    """possible status codes of the last solver run of this path (None: no run)"""
    lo = st.heap.get(("lastopt", 0, "r"))
    if lo is None:
        return None
    out = set()
    for a in lo.elem.a:
        o = st.heap.get(a.addr) if a.__class__ is R else None
        s = o.attrs.get("status") if o is not None and o.kind == "ext" else None
        if s is None:
            continue
        for y in s.a:
            out.add(y.path.split(".")[-1] if y.__class__ is X else repr(y))
    return out


def visit(res):
    j = res.job
    who = "/".join(j.name.split("/")[:2])
    hits, n = [], 0
    for e in U.events(res, "solution-read"):
        n += 1
        bad = set(e.data["status"]) - OPT
        if bad:
            hits.append(U.evhit("read-status", e, "%s is read although the solver may not have reported an optimal solution (possible status: %s)"
                                % (e.data["what"], lst(bad)), who))
    for e in U.events(res, "optimize"):
        n += 1
        gap = e.data["gap"]
        if gap == "default" or isinstance(gap, (int, float)) and gap > MAXGAP:
            hits.append(U.evhit("gap", e, "an integer program is solved with a relative optimality gap of %s: a suboptimal solution counts as optimal" % (gap if gap != "default" else "the solver's default 1e-4"), who))
        bad = set(e.data["prev"]) - OPT
        if bad:
            hits.append(U.evhit("resolve-status", e, "the model is solved again although the previous run may have ended with status " + lst(bad), who))
    mod = "abcvoting.properties" if j.kind == "prop" else "abcvoting.abcrules"
    seen = set()
    for st in res.outs:
        s = last_status(st)
        if s is None:
            continue
        n += 1
        seen |= s
        und = {x for x in s - DECIDED if "undef" not in x and x != "unsolved"}
        if und:
            hits.append(U.hit("undecided", mod, 0, who, "%s: a result is returned although the last solver run may have ended with status %s"
                              % (j.name, lst(und))))
        if j.kind == "prop":
            want = FEASIBLE_MEANS.get(j.info["func"])
            r = res.value(st)
            vals = {a.v for a in r.a if a.__class__ is C}
            if want is not None and vals and len(s & DECIDED) == 1 and not und:
                sat = "OPTIMAL" in s
                if vals == {want != sat}:
                    hits.append(U.hit("verdict", mod, 0, who, "%s: the verdict %s is returned when the solver reports %s" % (j.name, vals.pop(), "a solution" if sat else "infeasibility")))
        elif "INFEASIBLE" in s and j.info["rule"] not in NONEMPTY_EXEMPT and not res.I.lossy:
            for a in res.value(st).a:
                o = st.heap.get(a.addr) if a.__class__ is R else None
                for i in o.lens if o is not None else ():
                    if not any(L.le(L.ONE, z) for z in i[0]) and any(z.is_const() for z in i[1]):
                        hits.append(U.hit("no-committee", mod, 0, who, "%s: an empty list of committees is returned when the solver finds no committee" % j.name))
    if j.kind == "compute" and j.info["m"] == "None" and not j.info["resolute"] and "maximin" not in j.info["rule"] and seen and not seen & (DECIDED - OPT):
        hits.append(U.hit("not-exhaustive", mod, 0, who, "%s: the search for further winning committees never runs until the solver reports that there is none" % j.name))
    return dict(hits=hits, n=n)


finish = U.simple_finish("solver status at every read of a solution value, at every further solve and at every normal exit; polarity of the verdict of "
                         "solver-based property checks; no empty result after an infeasible first run",
                         ["the status codes of gurobipy, python-mip and OR-Tools have their documented meaning"])
