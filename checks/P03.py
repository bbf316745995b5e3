"""P03: no committee is returned twice; several committees come in the canonical (sorted) order."""
from lib import harness as H, shape as SH, util as U
from engine import lin as L

TECHNIQUE = "abstract interpretation: typestate of containers (duplicate/order flags) from the search loops to the returned list"
KEYFLAGS = ("?setord", "?perm", "?cat", "?noncanon")
EXEMPT = {"av", "sav"}


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] != "1"]


def visit(res):
    info = res.job.info
    hits, n, proved = [], 0, True
    who = info["rule"] + "/" + info["alg"]
    for st in res.outs:
        for la, lo, ca, co, at in SH.committees(res.value(st), st):
            if lo is None:
                continue
            single = all(any(L.le(z, L.ONE) for z in i[1]) for i in lo.lens)
            n += 1
            f, l = SH.site(la)
            if not single and "strsorted" not in lo.fl:
                proved = False
                if not res.I.lossy:
                    hits.append(U.hit("unsorted", f, l, who, "%s: the list of committees is returned without being sorted by misc.sorted_committees" % res.job.name))
            if co is not None and not single and info["rule"] not in EXEMPT and info["alg"] != "branch-and-bound":
                bad = {"?dup", "?cat"} & set(co.fl)
                if bad and not res.I.lossy:
                    f2, l2 = SH.site(ca)
                    hits.append(U.hit("dup-in-committee", f2, l2, who, "%s: a candidate may be added twice when a committee is assembled (%s)" % (res.job.name, ",".join(sorted(bad)))))
    if not info["resolute"]:
        for e in U.events(res, "key-order"):
            bad = [x for x in e.data["flags"] if x in KEYFLAGS]
            if bad:
                hits.append(U.evhit("key-order", e, "committees are keyed by a tuple whose order is not canonical (%s): equal committees are kept apart" % ",".join(bad), who))
        for e in U.events(res, "optimize"):
            n += 1
            if e.data.get("again") is True and not any("cut" in str(x) for x in e.data.get("must", ())):
                hits.append(U.evhit("no-cut", e, "the model is solved again without a constraint that excludes the previous solution", who))
    return dict(hits=hits, n=n, proved=proved)


finish = U.simple_finish("order and duplicate flags of every container between the search loops and the list returned by compute(); "
                         "solver loops: a cut excluding the last committee on every path to the next optimize()",
                         ["inputs valid for compute()"], lambda rs: dict(proved=sum(1 for r in rs.values() if r.get("proved"))))
