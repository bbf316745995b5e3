"""P06: compute functions, property checks, score functions and printing never modify their arguments."""
from lib import harness as H, util as U

TECHNIQUE = "abstract interpretation: ownership analysis of every heap write and of the returned references"
MUT = ("list", "set", "dict", "inst", "iter")


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] in ("None", "m")] + H.prop_jobs() + H.reader_jobs()


def visit(res):
    hits, n = [], 0
    name = res.job.name
    for e in U.events(res, "mutate"):
        n += 1
        if e.data.get("owner") == "input":
            hits.append(U.evhit("mutates-argument", e, "%s modifies an object that belongs to the caller (%s %s)" % (name, e.data.get("okind"), e.data.get("cls"))))
    if res.job.kind in ("compute",) or name in ("api/profile.copy", "api/sorted_committees", "api/CandidateSet"):
        for st in res.outs:
            n += 1
            for addr, path in reach(res.value(st), st):
                o = st.heap.get(addr)
                if o is not None and o.owner == "input" and o.kind in MUT:
                    hits.append(U.hit("alias", U.SH.site(addr)[0], U.SH.site(addr)[1], name.split("/")[0] + "/" + name.split("/")[1],
                                      "%s: the result shares a mutable %s with an argument" % (name, o.kind)))
    return dict(hits=hits, n=n + len(res.I.called))


def reach(v, st):
    seen, work = set(), list(v.a)
    while work:
        a = work.pop()
        if a.__class__ is U.R:
            if a.addr in seen:
                continue
            seen.add(a.addr)
            yield a.addr, None
            o = st.heap.get(a.addr)
            if o is None or o.kind not in MUT + ("frozenset", "tuple"):
                continue
            for x in [o.key, o.elem] + list(o.items or ()) + list(o.attrs.values()) + [y for _, y, _ in o.ents]:
                work += list(x.a)
        elif a.__class__ is U.T:
            for x in a.items:
                work += list(x.a)
        elif a.__class__ is U.TO:
            work += list(a.elem.a)


finish = U.simple_finish("every heap write reachable from compute()/check()/score/printing entry points, classified by the owner of the written object; "
                         "obligations: no write to an object of the caller, no mutable caller object inside the result",
                         ["sources of external libraries are not analysed; their calls are modelled"])
