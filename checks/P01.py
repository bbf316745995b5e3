"""P01: every committee returned by compute() has exactly committeesize distinct candidates of the profile."""
from lib import base, harness as H, shape as SH
from engine import lin as L
from engine.values import *

TECHNIQUE = "abstract interpretation: symbolic length analysis of every returned committee"


def jobs(tier):
    return H.compute_jobs()


def visit(res):
    shapes, bad = set(), []
    obligations = 0
    for st in res.outs:
        for la, lo, ca, co, at in SH.committees(res.value(st), st):
            obligations += 1
            if lo is None and ca is None and at is not None:
                if at.__class__ in (TOP, XV):
                    shapes.add("unknown")
                elif at.__class__ is C and at.v is None or at.__class__ in (N, C):
                    bad.append(("result", "the result is %r instead of a list of committees" % (at,), None))
                continue
            if co is None:
                if at is not None and at.__class__ in (N, C, S, T, TO):
                    bad.append(("not-a-committee", "a returned committee is %r, not a CandidateSet" % (at,), la))
                elif at is not None:
                    shapes.add("unknown")
                continue
            cls = getattr(co.cls, "name", None)
            if co.kind not in ("set", "ext") or (co.kind == "set" and cls != "CandidateSet"):
                bad.append(("class", "a returned committee is a plain %s, not a CandidateSet" % co.kind, ca))
            for i in co.lens:
                r = SH.interval_class(i, SH.K)
                shapes.add(r)
                if r == "off":
                    bad.append(("size", "a returned committee has size %s although committeesize = k was requested" % L.show(i), ca))
                elif r in ("below", "above"):
                    bad.append(("size?" + r, "a returned committee may have size %s; committeesize = k was requested" % L.show(i), ca))
            for x in SH.elem_of(co).a:
                if x.__class__ is N:
                    if "float" in x.kinds:
                        bad.append(("float-candidate", "a returned committee contains float candidates", ca))
                    lo_, hi_ = x.i
                    if any(L.le(SH.N_, z) for z in lo_) or any(L.lt(z, L.ZERO) for z in hi_):
                        bad.append(("range", "a returned committee contains candidates in %s (num_cand = n)" % L.show(x.i), ca))
    return dict(shapes=sorted(shapes), obligations=obligations,
                bad=[(r, m, SH.site(a) if a else ("abcvoting.abcrules", 0)) for r, m, a in bad],
                outs=len(res.outs))


def finish(results, tier):
    findings = []
    proved, partial = [], []
    for name, r in sorted(results.items()):
        if "error" in r:
            continue
        if set(r["shapes"]) == {"exact"}:
            proved.append(name)
        else:
            partial.append(name)
        for rule, msg, (f, l) in r["bad"]:
            fam = name.split("/")
            findings.append(base.Finding("%s|%s/%s" % (rule, fam[0], fam[1]), base.where(f, l), "%s: %s" % (name, msg), [name]))
        if not r["outs"] and not r.get("partial"):
            findings.append(base.Finding("no-result|%s" % name, "abcvoting/abcrules.py", "%s never returns normally" % name))
    cov = dict(explanation="symbolic size of each committee reachable at the return of compute(), per rule/algorithm/resolute/max_num configuration; "
                           "'exact' = proved equal to committeesize on every abstract path",
               configurations=len(results), obligations=sum(r.get("obligations", 0) for r in results.values()),
               proved_exact=len(proved), not_proved=[p for p in partial])
    return findings, cov, ["committeesize >= 1, committeesize <= num_cand, at least one voter, weights > 0 int or Fraction"]
