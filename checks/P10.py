"""P10: exact algorithms decide with exact numbers only."""
import ast
import os

from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: number-kind analysis (int/Fraction/mpq vs float, incl. provenance) of every comparison and sort key"
EXACT_ALGS = {"standard-fractions", "gmpy2-fractions", "standard", "brute-force", "branch-and-bound", "nx-max-flow"}
EXACT_PROPS = {"brute-force", None}
EXACT_API = ("api/thiele_score", "api/marginal", "api/cumulative", "api/profile.total_weight", "api/monroe", "api/minimaxav", "api/num_voters", "api/dominate")


def jobs(tier):
    return ([j for j in H.compute_jobs() if j.info["alg"] in EXACT_ALGS and j.info["m"] in ("None", "m")]
            + [j for j in H.prop_jobs() if j.info["alg"] in EXACT_PROPS] + [j for j in H.reader_jobs() if j.name.startswith(EXACT_API)])


def visit(res):
    hits = []
    name = res.job.name
    evs = U.events(res, "cmp-inexact", "order-inexact")
    for e in evs:
        d = e.data
        if e.kind == "cmp-inexact" and d.get("infd") and not ({"float", "npfloat", "frac~", "mpq~", "int~"} & set(d["l"] + d["r"])):
            continue
        src = d.get("src") or d.get("lsrc") or d.get("rsrc")
        hits.append(U.hit("float-decision", name.split("/")[0], e.line, origin(src), "%s: a decision (%s) is taken on floating-point numbers%s" % (
            name, "comparison " + d["op"] if e.kind == "cmp-inexact" else d["how"], " produced at %s" % src if src else ""), U.evpath(e)))
        hits[-1]["where"] = U.base.where(e.file, e.line, e.func)
    if res.job.kind == "api":
        for st in res.outs:
            for a in res.value(st).a:
                if a.__class__ is U.N and {"float", "npfloat"} & set(a.kinds):
                    hits.append(U.hit("float-score", "abcvoting.scores", 0, name, "%s returns floating-point numbers%s" % (name, " produced at %s" % a.src if a.src else "")))
    return dict(hits=hits, n=len(evs) + len(res.I.called))


def origin(src):
    """kind of expression that produced the float: the key must survive moving the code"""
    if not src:
        return "constant"
    f, l, c = str(src).rsplit(":", 2)
    try:
        tree = ast.parse(open(os.path.join(H.REPO, f.replace(".", "/") + ".py")).read())
        for n in ast.walk(tree):
            if getattr(n, "lineno", None) == int(l) and getattr(n, "col_offset", None) == int(c):
                if isinstance(n, ast.BinOp):
                    return {ast.Div: "division", ast.Pow: "power"}.get(type(n.op), "arithmetic")
                if isinstance(n, ast.Call):
                    return ast.unparse(n.func) + "()"
                if isinstance(n, ast.AugAssign):
                    return {ast.Div: "division"}.get(type(n.op), "arithmetic")
    except (OSError, SyntaxError, ValueError):
        pass
    return "expression"


finish = U.simple_finish("kinds of all numbers compared, sorted or minimised in the exact algorithms, the brute-force property checks and the score functions",
                         ["weights are int or Fraction"])
