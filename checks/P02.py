"""P02: number of committees returned by compute(): exactly one if resolute, at most max_num_of_committees."""
from lib import harness as H, shape as SH, util as U
from engine import lin as L

TECHNIQUE = "abstract interpretation: symbolic length analysis of the list of winning committees"


def jobs(tier):
    return H.compute_jobs()


def visit(res):
    info = res.job.info
    bound = L.ONE if info["resolute"] or info["m"] == "1" else SH.M_ if info["m"] == "m" else None
    hits, n, proved, nonempty = [], 0, True, False
    for st in res.outs:
        for a in res.value(st).a:
            if a.__class__ is not U.R:
                proved, nonempty = False, True
                continue
            o = st.heap[a.addr]
            f, l = SH.site(a.addr)
            for i in o.lens:
                n += 1
                lo, hi = i
                if not any(L.lt(z, L.ONE) for z in hi):
                    nonempty = True
                if bound is None:
                    continue
                if not any(L.le(z, bound) for z in hi):
                    proved = False
                    if not res.I.lossy:
                        hits.append(U.hit("count", f, l, info["rule"] + "/" + info["alg"],
                                          "%s: compute() may return %s committees, at most %s allowed" % (res.job.name, L.show(i), "m" if bound is SH.M_ else 1)))
    if res.outs and not nonempty:
        hits.append(U.hit("empty", "abcvoting.abcrules", 0, info["rule"] + "/" + info["alg"], "%s: compute() always returns an empty list" % res.job.name))
    return dict(hits=hits, n=n, proved=bool(proved and bound is not None))


finish = U.simple_finish("symbolic length of the list of committees at each return of compute() against 1 (resolute) or max_num_of_committees",
                         ["inputs valid for compute(); max_num_of_committees >= 1"],
                         lambda rs: dict(proved=sum(1 for r in rs.values() if r.get("proved"))))
