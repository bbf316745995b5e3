"""P05: rule and algorithm identifiers: unknown ones are rejected, known ones run the requested algorithm."""
from lib import harness as H, util as U
from . import P04

TECHNIQUE = "abstract interpretation: reachability of normal returns for unknown identifiers, solver-effect analysis of known algorithms"
BADIDS = ("", "xyz", "seq", "revseq", "seqxyz", "revseqxyz", "seqav", "revseqav", "seqseqpav", "seqsav", "geom", "geomfoo", "seqgeom", "seqgeomfoo",
          "revseqgeomfoo", "PAV", "atleast", "atleastfoo", "seqatleastfoo", "pav ")


def jobs(tier):
    js = [j for j in H.badcall_jobs() if j.info["what"] == "unknown algorithm"]
    for i in BADIDS:
        js.append(H.Job("badid", "rule %r" % i, "A.compute(%r, p, k)" % i, pre=H.PRE, ident=i))
        js.append(H.Job("badid", "Rule(%r)" % i, "A.Rule(%r)" % i, pre=H.PRE, ident=i))
    js += [j for j in H.compute_jobs() if j.info["m"] == "None"]
    js.append(H.Job("badprop", "check('nope')", "PR.check('no-such-property', p, C)", pre=H.PRE + H.COMM))
    js.append(H.Job("badscore", "get_marginal_scorefct('nope')", "SC.get_marginal_scorefct('no-such-score')"))
    js.append(H.Job("badscore", "get_marginal_scorefct('geomx')", "SC.get_marginal_scorefct('geomx')"))
    return js


LIBS = {"gurobi": {"gurobi"}, "mip-cbc": {"mip"}, "mip-gurobi": {"mip"}, "ortools-cp": {"ortools"}}


def visit(res):
    j = res.job
    if j.kind == "bad":
        return P04.reject(res, "UnknownAlgorithm", "%s: algorithm 'no-such-algorithm'" % j.info["rule"], "abcvoting.abcrules", "unknown-algorithm")
    if j.kind == "badid":
        return P04.reject(res, "UnknownRuleIDError", j.name, "abcvoting.abcrules", j.info["ident"] or "empty")
    if j.kind == "badprop":
        return P04.reject(res, "ValueError", j.name, "abcvoting.properties", "check")
    if j.kind == "badscore":
        return P04.reject(res, "UnknownScoreFunctionError", j.name, "abcvoting.scores", "get_marginal_scorefct")
    hits = []
    rule, alg = j.info["rule"], j.info["alg"]
    who = rule + "/" + alg
    if not res.outs and not res.partial:
        hits.append(U.hit("unusable", "abcvoting.abcrules", 0, who, "%s: no normal return is reachable for a listed algorithm" % j.name))
    for st, exc, (loc, implicit, stack) in res.excs:
        for nm, anc in U.exc_classes(res, st, exc):
            if nm in ("UnknownAlgorithm", "NotImplementedError", "UnknownRuleIDError") and not implicit and not res.I.lossy:
                hits.append(U.hit("rejected", loc[0], loc[1], who, "%s: a listed algorithm raises %s" % (j.name, nm), stack))
    used = {}
    for e in U.events(res, "optimize", "solver"):
        lib = e.data.get("lib") or ("gurobi" if "gurobi" in e.file else "mip" if "mip" in e.file else "ortools" if "ortools" in e.file else "?")
        if e.kind == "optimize" or lib == "mip":
            used.setdefault(lib, e)
    want = LIBS.get(alg, set())
    for lib, e in used.items():
        if lib not in want and rule not in ("maximin-support",):
            hits.append(U.evhit("other-solver", e, "%s: algorithm '%s' runs the %s solver" % (j.name, alg, lib), who))
    for lib in want:
        if lib not in used and not res.I.lossy:
            hits.append(U.hit("no-solver", "abcvoting.abcrules", 0, who, "%s: algorithm '%s' never runs the %s solver" % (j.name, alg, lib)))
    for e in U.events(res, "solver"):
        name = str(e.data.get("name"))
        exp = {"mip-cbc": "CBC", "mip-gurobi": "G"}.get(alg)
        if exp and exp.lower()[0] not in name.lower()[:3]:
            hits.append(U.evhit("solver-name", e, "%s: algorithm '%s' asks python-mip for solver %s" % (j.name, alg, name), who))
    return dict(hits=hits, n=1 + len(used))


finish = U.simple_finish("unknown rule ids/algorithms/properties/score functions: no normal return reachable, documented exception only; "
                         "each listed algorithm: a normal return is reachable, no dispatch error, and exactly its own solver library is invoked",
                         ["solver libraries installed"])
