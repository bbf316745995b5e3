"""P07: no call changes module-level or interpreter-wide state."""
from lib import harness as H, util as U
from engine import lin as L

TECHNIQUE = "abstract interpretation: effect analysis of writes to module-level, class-level and external objects on every exit"
VERB = L.sym("verb")


def jobs(tier):
    return [j for j in H.compute_jobs() if j.info["m"] in ("None", "m")] + H.prop_jobs() + H.reader_jobs()


def visit(res):
    hits, n = [], 0
    name = res.job.name
    for e in U.events(res, "mutate", "global-write", "external-write", "nondet", "cached-call"):
        n += 1
        d = e.data
        if e.kind == "mutate" and d.get("owner") == "global":
            # a temporary change that is undone on every exit (output verbosity) is judged below
            if d.get("cls") == "Output":
                continue
            hits.append(U.evhit("mutates-global", e, "%s modifies module-level state (%s %s)" % (name, d.get("okind"), d.get("cls"))))
        elif e.kind == "global-write":
            hits.append(U.evhit("global-write", e, "%s assigns a module-level variable %s" % (name, d.get("name", ""))))
        elif e.kind == "external-write":
            hits.append(U.evhit("external-write", e, "%s assigns %s.%s of an external module" % (name, d.get("target"), d.get("name"))))
        elif e.kind == "cached-call":
            mut = [x for x in d.get("args", ()) if x.split(":")[0] in ("inst", "list", "dict", "set")]
            if mut:
                hits.append(U.hit("stale-cache", e.file, e.line, d["fn"], "%s caches the results of %s for an object that can change later (%s)" % (name, d["fn"], ", ".join(mut)), U.evpath(e)))
        elif e.kind == "nondet" and ("seed" in str(d.get("what")) or "setstate" in str(d.get("what"))):
            hits.append(U.evhit("seed", e, "%s reseeds the global random number generator" % name))
    for st, exc in U.exits(res):
        n += 1
        cur = verbosity(res, st)
        if cur is None:
            continue
        x = cur.one()
        if x.__class__ is not U.N or L.exact(x.i) != VERB:
            where = exc[1][0] if exc else ("abcvoting.output", 0, "")
            hits.append(U.hit("verbosity-not-restored", "abcvoting.output", 0, name,
                              "%s: output.verbosity is %r instead of its previous value when the call %s" % (name, cur, "raises at %s:%s" % (where[0], where[1]) if exc else "returns")))
    return dict(hits=hits, n=n)


def verbosity(res, st):
    """abstract value of output.output.verbosity"""
    try:
        fr = st.heap[res.addr]
        mod = fr.attrs["O"].one()
        o = st.heap[mod.addr].attrs["output"].one()
        return st.heap[o.addr].attrs["verbosity"]
    except Exception:
        return None


finish = U.simple_finish("writes to module-level, class-level or external objects; value of the output verbosity at each normal and exceptional exit",
                         ["the effects of numpy/gurobipy/mip/ortools/networkx calls are modelled, not analysed"])
