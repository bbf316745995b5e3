"""Harnesses: small driver programs that are *interpreted abstractly* (never executed) together with
the sources of /repo, and the jobs (entry point x configuration) every check quantifies over."""
import os
import sys

from engine import lin as L
from engine.interp import Interp
from engine.values import *

REPO = os.environ.get("ABCV_REPO", "/repo")

PRE = '''
from abcvoting.preferences import Profile, Voter
import abcvoting.abcrules as A
import abcvoting.properties as PR
import abcvoting.output as O
import abcvoting.misc as MI
import abcvoting.scores as SC
O.output.verbosity = VERB
p = Profile(n)
p.add_voters([Voter([c for c in range(n) if FLAG], weight=W) for i in range(v)])
'''
PRE_UNIT = PRE.replace(", weight=W", "")
COMM = "C = [c for c in range(n) if INCOM]\n"


WU = (L.ONE, 0)  # unit of voter weights: weight exponent 1


def symbols():
    k = L.sym("k")
    n = L.sym("n")
    m = L.sym("m")
    vv = L.sym("v")
    return dict(
        k=num(k, k), n=num(n, n), m=num(m, m), v=num(vv, vv),
        FLAG=V(frozenset((C(True), C(False))), frozenset(["appr"])),
        INCOM=V(frozenset((C(True), C(False))), frozenset(["committee"])),
        W=V(num(0, None, kinds=frozenset(["int", "frac"]), unit=WU).a, frozenset(["weight"])),
        W2=V(num(2, None, kinds=frozenset(["int", "frac"]), unit=WU).a, frozenset(["weight"])),
        VERB=V(num(L.sym("verb"), L.sym("verb")).a, frozenset(["verb"])),
        STR=V(STR.a, NOLAB),
        QUOTA=V(num(0, None, kinds=frozenset(["int", "frac"]), unit=WU).a, frozenset(["quota"])),
        KBAD=num(None, 0), KBIG=num(L.add(n, L.ONE), None), MBAD=num(None, 0),
        NBAD=num(n, None), KBIG2=num(L.add(k, L.ONE), None), NEG=num(None, -1), WNEG=num(None, 0), WFRAC=V(num(1, None, kinds=frozenset(["frac"])).a, NOLAB),
        PA=num(L.sym("pa"), L.sym("pa")), PB=num(L.sym("pb"), L.sym("pb")),
        WI=V(num(2, None).a, frozenset(["weight"])),
        NAME=V(STR.a, frozenset(["names"])),
        SYMBOOL=V(frozenset((C(True), C(False))), NOLAB),
    )


class Job:
    """kind: compute | prop | call ; call: expression assigned to r ; pre: harness prelude ; info: details"""

    def __init__(self, kind, name, call, pre=PRE, **info):
        self.kind, self.name, self.call, self.pre, self.info = kind, name, call, pre, info

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


class Result:
    def __init__(self, job, I, outs, excs, addr, pre_events):
        self.job, self.I, self.outs, self.excs, self.addr = job, I, outs, excs, addr
        self.pre_events = pre_events
        self.partial = False  # the analysis was stopped by its time limit

    def value(self, st, name="r"):
        return st.heap[self.addr].attrs[name]


class NoEntry(Exception):
    pass


_CURRENT = None


def partial():
    """result of an analysis that was stopped: the events found so far, no exits"""
    if _CURRENT is None:
        return None
    job, I, addr, pre = _CURRENT
    I.lossy["time limit"] = 1
    r = Result(job, I, [], [], addr, pre)
    r.partial = True
    return r


def analyse(job):
    global _CURRENT
    _CURRENT = None
    I = Interp(repo=REPO, stubs=job.info.get("stubs", ()))
    outs, excs, addr = I.run_harness(job.pre, inject=symbols(), phase="input")
    if not outs:
        raise NoEntry("the harness prelude of %r has no normal outcome" % (job,))
    I.lossy = {}
    pre = dict(I.events)
    I.events.clear()
    I.called = set()
    o, e = [], []
    _CURRENT = (job, I, addr, pre)
    for s in outs:
        o2, e2 = I.run_more("r = " + job.call + "\n" if not job.info.get("stmt") else job.call, s, addr)
        o += o2
        e += e2
    return Result(job, I, o, e, addr, pre)


def const_items(v, st):
    """concrete strings/booleans of an abstract sequence value"""
    a = v.one()
    if a.__class__ is R:
        items = st.heap[a.addr].items
    else:
        items = getattr(a, "items", None)
    if items is None:
        return None
    return [x.one().v if x.one().__class__ is C else None for x in items]


_TABLE = None


def rule_table():
    """rule ids, algorithms and resolute values by abstract interpretation of MAIN_RULE_IDS and Rule(.)"""
    global _TABLE
    if _TABLE is not None:
        return _TABLE
    I = Interp(repo=REPO)
    outs, excs, addr = I.run_harness("import abcvoting.abcrules as A\n", inject={}, phase="input")
    s = outs[0]
    o2, _ = I.run_more("ids = A.MAIN_RULE_IDS\n", s, addr)
    ids = const_items(o2[0].heap[addr].attrs["ids"], o2[0])
    if not ids:
        raise NoEntry("abcrules.MAIN_RULE_IDS is not a constant list of rule identifiers")
    res = {}
    for r in ids:
        o3, e3 = I.run_more("R = A.Rule(%r)\nalg = R.algorithms\nrv = R.resolute_values\n" % r, s.fork(), addr)
        if not o3:
            res[r] = None
            continue
        at = o3[0].heap[addr].attrs
        res[r] = (const_items(at["alg"], o3[0]), const_items(at["rv"], o3[0]))
    _TABLE = res
    return res


def compute_jobs(extra=(), pre=PRE):
    jobs = []
    for r, t in rule_table().items():
        if not t or not t[0] or not t[1]:
            continue
        for a in t[0]:
            for b in t[1]:
                for m in ["None"] if b else ["None", "1", "m"]:
                    jobs.append(Job("compute", "%s/%s/%s/%s" % (r, a, "resolute" if b else "irresolute", m),
                                    "A.compute(%r, p, k, algorithm=%r, resolute=%r, max_num_of_committees=%s)" % (r, a, b, m),
                                    pre=pre, rule=r, alg=a, resolute=b, m=m))
    return jobs


PROPS = {  # public property checks: algorithms come from the docstring-independent NotImplementedError dispatch
    "check_pareto_optimality": ("brute-force", "gurobi", "fastest"),
    "check_EJR": ("brute-force", "gurobi", "fastest"),
    "check_PJR": ("brute-force", "gurobi", "fastest"),
    "check_JR": (None,),
    "check_EJR_plus": (None,),
    "check_FJR": ("brute-force", "gurobi", "fastest"),
    "check_core": ("brute-force", "gurobi", "fastest"),
    "check_priceability": ("gurobi", "fastest"),
    "check_stable_priceability": ("gurobi", "fastest"),
}
QUOTA_PROPS = ("check_EJR", "check_PJR", "check_JR", "check_EJR_plus", "check_FJR", "check_core")


def prop_jobs(quota=True, pre=PRE):
    jobs = []
    for f, algs in PROPS.items():
        for a in algs:
            for q in ([None, "QUOTA"] if quota and f in QUOTA_PROPS else [None]):
                kw = ""
                if a is not None:
                    kw += ", algorithm=%r" % a
                if q is not None:
                    kw += ", quota=QUOTA"
                jobs.append(Job("prop", "%s/%s%s" % (f, a, "/quota" if q else ""), "PR.%s(p, C%s)" % (f, kw),
                                pre=pre + COMM, func=f, alg=a, quota=q))
    return jobs


EXTRA_ENTRY = (  # public functions that compute() reaches only through some rule ids
    ("compute_thiele_method", "'geom3', "), ("compute_seq_thiele_method", "'geom3', "),
    ("compute_revseq_thiele_method", "'geom3', "), ("compute_separable_rule", "'sav', "), ("compute_rule_x", ""),
)
EMPTY_PRE = PRE + "p0 = Profile(n)\n"
BADCALLS = (  # name, keyword overrides, expected exception class
    ("committeesize<1", dict(k="KBAD"), "ValueError"),
    ("committeesize>num_cand", dict(k="KBIG"), "ValueError"),
    ("no voters", dict(p="p0"), "ValueError"),
    ("max_num_of_committees<1", dict(m="MBAD"), "ValueError"),
    ("max_num_of_committees not an int", dict(m="'2'"), "ValueError"),
    ("max_num_of_committees fractional", dict(m="1.5"), "ValueError"),
    ("resolute with max_num_of_committees", dict(resolute="True", m="m"), "ValueError"),
    ("unknown algorithm", dict(alg="'no-such-algorithm'"), "UnknownAlgorithm"),
    ("unsupported resolute value", dict(resolute="BADRES"), "NotImplementedError"),
)


def badcall_jobs(entries=None, calls=BADCALLS):
    """invalid calls of every public compute function"""
    jobs = []
    ents = []
    for r, t in rule_table().items():
        if t and t[0] and t[1]:
            ents.append((r, "A.compute(%r, " % r, t[1]))
    for f, a in EXTRA_ENTRY:
        ents.append((f, "A.%s(%s" % (f, a), ["?"]))
    for name, head, rvals in ents:
        for what, ov, exp in calls:
            ov = dict(ov)
            res = ov.pop("resolute", None)
            if res == "BADRES":
                bad = [x for x in (True, False) if x not in rvals and rvals != ["?"]]
                res = repr(bad[0]) if bad else "'both'"
            if "m" in ov and res is None and rvals != ["?"] and False not in rvals:
                continue  # resolute-only rule: max_num_of_committees is rejected by the resolute rule below
            if "m" in ov and res is None:
                res = "False"
            if what.startswith("resolute with") and rvals != ["?"] and True not in rvals:
                continue
            if name == "compute_separable_rule":
                ov.setdefault("alg", "'standard'")
            kw = "".join(", %s=%s" % (a, b) for a, b in (("algorithm", ov.get("alg")), ("resolute", res), ("max_num_of_committees", ov.get("m"))) if b is not None)
            jobs.append(Job("bad", "%s/%s" % (name, what), "%s%s, %s%s)" % (head, ov.get("p", "p"), ov.get("k", "k"), kw), pre=EMPTY_PRE,
                            rule=name, what=what, expect=exp))
    return jobs


API_PRE = PRE + COMM + "C1 = MI.CandidateSet(C, num_cand=n)\nnames = [str(i) + 'x' for i in range(n)]\n"
READERS = (  # name, expression: operations that only read their arguments
    ("thiele_score/pav", "SC.thiele_score('pav', p, C)"), ("thiele_score/cc", "SC.thiele_score('cc', p, C)"),
    ("thiele_score/slav", "SC.thiele_score('slav', p, C)"), ("thiele_score/av", "SC.thiele_score('av', p, C)"),
    ("thiele_score/geom2", "SC.thiele_score('geom2', p, C)"), ("thiele_score/atleast2", "SC.thiele_score('atleast2', p, C)"),
    ("monroescore", "SC.monroescore(p, C)"), ("monroescore_matching", "SC.monroescore_matching(p, C)"),
    ("monroescore_flowbased", "SC.monroescore_flowbased(p, C)"), ("minimaxav_score", "SC.minimaxav_score(p, C)"),
    ("num_voters_with_upper_bounded_hamming_distance", "SC.num_voters_with_upper_bounded_hamming_distance(k, p, C)"),
    ("marginal_thiele_scores_add", "SC.marginal_thiele_scores_add(SC.pav_score_fct, p, C)"),
    ("marginal_thiele_scores_remove", "SC.marginal_thiele_scores_remove(SC.pav_score_fct, p, C)"),
    ("cumulative_score", "SC.cumulative_score(SC.pav_score_fct, k)"),
    ("dominate", "MI.dominate(p, C, C1)"), ("hamming", "MI.hamming(C1, C1)"), ("sorted_committees", "MI.sorted_committees([C, C1])"),
    ("str_set_of_candidates", "MI.str_set_of_candidates(C1)"), ("str_set_of_candidates/names", "MI.str_set_of_candidates(C1, names)"),
    ("str_sets_of_candidates", "MI.str_sets_of_candidates([C1, C], names)"),
    ("str_committees_with_header", "MI.str_committees_with_header([C1, C], names)"),
    ("compare_list_of_committees", "MI.compare_list_of_committees([C1], [C1])"),
    ("powerset", "list(MI.powerset(C))"),
    ("CandidateSet", "MI.CandidateSet(C, num_cand=n)"),
    ("str(profile)", "str(p)"), ("profile.str_compact", "p.str_compact()"), ("profile.copy", "p.copy()"), ("profile.total_weight", "p.total_weight()"),
    ("profile.has_unit_weights", "p.has_unit_weights()"), ("profile.is_party_list", "p.is_party_list()"),
    ("profile.approved_candidates", "p.approved_candidates()"), ("len(profile)", "len(p)"), ("profile.num_cand", "p.num_cand"),
    ("iterate profile", "[x.weight for x in p]"), ("str(voter)", "str(p[0])"), ("voter.str_with_names", "p[0].str_with_names(names)"),
    ("full_analysis", "PR.full_analysis(p, C)"),
) + tuple(("check/" + x, "PR.check(%r, p, C)" % x) for x in ("pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "priceability", "stable-priceability", "core"))


def reader_jobs():
    return [Job("api", "api/" + a, b, pre=API_PRE, cost=3 if a == "full_analysis" else 1) for a, b in READERS]
