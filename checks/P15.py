"""P15: profiles, voters and candidate sets: invalid contents are refused, stored contents are exact, copies share nothing."""
from engine import lin as L
from engine.values import *
from lib import harness as H, util as U, shape as SH
from lib.facts import *
from . import P04

TECHNIQUE = "abstract interpretation of profile construction: reachability of normal returns for invalid contents, exact lengths/weights/bounds of stored contents, heap reachability (no sharing)"

PRE = '''
import copy as cpy
from abcvoting.preferences import Profile, Voter
from abcvoting.misc import CandidateSet
'''
# an approval set with exactly k candidates 0..k-1, a voter of exact weight m, names
STD = '''
A0 = list(range(k))
S0 = set(A0)
V0 = Voter(A0, weight=m)
NL = [NAME for _ in range(n)]
'''
FULL = STD + '''
q0 = Profile(n, NL)
q0.add_voters([V0, S0])
qn = Profile(n, NL)
qn.add_voters([Voter(A0, weight=m) for _ in range(v)])
'''
# (label, expression of the bad content, exception)
BAD = (
    ("candidate >= num_cand", "[NBAD]", "ValueError"), ("last candidate >= num_cand", "[0, NBAD]", "ValueError"),
    ("first candidate >= num_cand", "[NBAD, 0]", "ValueError"),
    ("negative candidate", "[NEG]", "ValueError"), ("last candidate negative", "[0, NEG]", "ValueError"), ("first candidate negative", "[NEG, 0]", "ValueError"),
    ("candidate is a string", "['a']", "TypeError"), ("last candidate is a string", "[0, 'a']", "TypeError"),
    ("candidate is a fraction", "[0.5]", "TypeError"), ("last candidate is a fraction", "[0, 0.5]", "TypeError"),
    ("duplicate candidate", "[0, 0]", "ValueError"), ("tuple with duplicate candidate", "(0, 0)", "ValueError"),
)
TARGETS = (  # (label, statements with %s = bad content, knows num_cand)
    ("CandidateSet(x, num_cand)", "r = CandidateSet(%s, num_cand=n)", True), ("CandidateSet(x)", "r = CandidateSet(%s)", False),
    ("Voter(x)", "r = Voter(%s)", False), ("Voter(x, num_cand=n)", "r = Voter(%s, num_cand=n)", True),
    ("Profile.add_voter(x)", "r = Profile(n)\nr.add_voter(%s)", True),
    ("Profile.add_voters([good, x])", "r = Profile(n)\nr.add_voters([S0, %s])", True),
    ("profile[0] = x", "q0[0] = %s\nr = q0", True),
)


def bad_jobs():
    js = []

    def add(what, code, exp):
        js.append(H.Job("badprofile", what, code, pre=PRE + FULL, what=what, expect=exp, stmt=1))

    for what, x, exp in BAD:
        for t, code, knows in TARGETS:
            if ">=" in what and not knows:
                continue
            add("%s: %s" % (t, what), code % x, exp)
    for what, x, exp in BAD[:1]:
        add("Profile.add_voter(Voter(x)): %s" % what, "r = Profile(n)\nr.add_voter(Voter(%s))" % x, exp)
        add("Profile.add_voters([good, Voter(x)]): %s" % what, "r = Profile(n)\nr.add_voters([V0, Voter(%s)])" % x, exp)
        add("profile[0] = Voter(x): %s" % what, "q0[0] = Voter(%s)\nr = q0" % x, exp)
    add("Voter: weight <= 0", "r = Voter(S0, weight=WNEG)", "ValueError")
    add("Voter: weight 0", "r = Voter(S0, weight=0)", "ValueError")
    add("Voter with num_cand: weight <= 0", "r = Voter(S0, num_cand=n, weight=WNEG)", "ValueError")
    add("Profile: num_cand <= 0", "r = Profile(WNEG)", "ValueError")
    add("Profile: num_cand <= 0 with names", "r = Profile(WNEG, NL)", "ValueError")
    add("Profile: too few candidate names", "r = Profile(n + 1, NL)", "ValueError")
    add("convert_to_unit_weights: fractional weights", "q = Profile(n)\nq.add_voter(Voter(S0, weight=WFRAC))\nq.convert_to_unit_weights()\nr = q", "TypeError")
    add("convert_to_unit_weights: fractional weight of the second voter",
        "q = Profile(n)\nq.add_voter(Voter(S0, weight=2))\nq.add_voter(Voter(S0, weight=WFRAC))\nq.convert_to_unit_weights()\nr = q", "TypeError")
    return js


# (name, statements, expectation on r)
GOOD = (
    ("Profile(n)", "r = Profile(n)", dict(profile=(0,), names="num")),
    ("Profile(n, names)", "r = Profile(n, NL)", dict(profile=(0,), names="names")),
    ("add_voter(set)", "r = Profile(n, NL)\nr.add_voter(S0)", dict(profile=(1,), names="names", voters=[("k", 1)])),
    ("add_voter(list)", "r = Profile(n)\nr.add_voter(A0)", dict(profile=(1,), names="num", voters=[("k", 1)])),
    ("add_voter(Voter)", "r = Profile(n)\nr.add_voter(V0)", dict(profile=(1,), names="num", voters=[("k", "m")])),
    ("add_voter(same Voter) twice", "r = Profile(n)\nr.add_voter(V0)\nr.add_voter(V0)", dict(profile=(2,), voters=[("k", "m"), ("k", "m")])),
    ("add_voters([Voter, set])", "r = Profile(n)\nr.add_voters([V0, S0])", dict(profile=(2,), voters=[("k", "m"), ("k", 1)])),
    ("add_voters([Voter, Voter])", "r = Profile(n)\nr.add_voters([V0, V0])", dict(profile=(2,), voters=[("k", "m"), ("k", "m")])),
    ("add_voters(v voters)", "r = Profile(n)\nr.add_voters([V0 for _ in range(v)])", dict(profile=("v",), every=("k", "m"))),
    ("add_voters(v sets)", "r = Profile(n)\nr.add_voters([S0 for _ in range(v)])", dict(profile=("v",), every=("k", 1))),
    ("add_voters(voters of another profile)", "r = Profile(n)\nr.add_voters(qn)", dict(profile=("v",), every=("k", "m"))),
    ("profile[0] = Voter", "q0[0] = V0\nr = q0", dict(profile=(2,), names="names", every2=True)),
    ("profile[1] = Voter", "q0[1] = V0\nr = q0", dict(profile=(2,), names="names", voters=[("k", "m"), ("k", "m")])),
    ("profile[1] = set", "q0[1] = S0\nr = q0", dict(profile=(2,), names="names", voters=[("k", "m"), ("k", 1)])),
    ("copy()", "r = q0.copy()", dict(profile=(2,), names="names", apart="q0", voters=[("k", "m"), ("k", 1)])),
    ("copy() of v voters", "r = qn.copy()", dict(profile=("v",), names="names", apart="qn", every=("k", "m"))),
    ("copy.copy", "r = cpy.copy(qn)", dict(profile=("v",), names="names", apart="qn", every=("k", "m"))),
    ("copy.deepcopy", "r = cpy.deepcopy(qn)", dict(profile=("v",), names="names", apart="qn", every=("k", "m"))),
    ("convert_to_unit_weights", "q = Profile(n, NL)\nq.add_voter(Voter(A0, weight=k))\nq.convert_to_unit_weights()\nr = q", dict(profile=("k",), names="names", every=("k", 1))),
    ("convert_to_weighted", "q = Profile(n, NL)\nq.add_voter(V0)\nq.convert_to_weighted()\nr = q", dict(profile=(None,), names="names", every=("k", None))),
    ("convert_to_weighted, empty approval set", "q = Profile(n)\nq.add_voter(Voter([], weight=m))\nq.convert_to_weighted()\nr = q", dict(profile=(1,), every=(None, "m"))),
    ("convert_to_unit_weights, empty approval set", "q = Profile(n)\nq.add_voter(Voter([], weight=k))\nq.convert_to_unit_weights()\nr = q", dict(profile=("k",), every=(None, 1))),
    ("approved_candidates", "r = q0.approved_candidates()", dict(fresh="q0")),
    ("len", "r = len(qn)", dict(num="v")), ("num_cand", "r = qn.num_cand", dict(num="n")),
    ("total_weight of one voter", "q = Profile(n)\nq.add_voter(V0)\nr = q.total_weight()", dict(num="m")),
    ("total_weight of unit voters", "q = Profile(n)\nq.add_voters([S0 for _ in range(v)])\nr = q.total_weight()", dict(num="v")),
    ("has_unit_weights of unit voters", "q = Profile(n)\nq.add_voters([S0 for _ in range(v)])\nr = q.has_unit_weights()", dict(const=True)),
    ("has_unit_weights of weighted voters", "q = Profile(n)\nq.add_voters([Voter(S0, weight=W2) for _ in range(v)])\nr = q.has_unit_weights()", dict(const=False)),
    ("has_unit_weights, second voter weighted", "q = Profile(n)\nq.add_voters([S0, Voter(S0, weight=W2)])\nr = q.has_unit_weights()", dict(const=False)),
    ("has_unit_weights, first voter weighted", "q = Profile(n)\nq.add_voters([Voter(S0, weight=W2), S0])\nr = q.has_unit_weights()", dict(const=False)),
    ("Voter", "r = Voter(A0, weight=m)", dict(voter=("k", "m"), fresh="A0")),
    ("Voter from CandidateSet", "X = CandidateSet(A0)\nr = Voter(X)", dict(voter=("k", 1), fresh="X")),
    ("iterate", "r = list(qn)", dict(lst="v")),
    ("p[1]", "r = q0[1]", dict(voter=("k", 1))),
    ("p[0]", "r = q0[0]", dict(voter=("k", "m"))),
)
FILE = "abcvoting.preferences"


def jobs(tier):
    return bad_jobs() + [H.Job("profile", a, b, pre=PRE + FULL, stmt=1, want=w) for a, b, w in GOOD]


def visit(res):
    j = res.job
    if j.kind == "badprofile":
        return P04.reject(res, j.info["expect"], j.name, FILE, j.name)
    f = Facts(res, FILE)
    need, fail, want = f.need, f.fail, j.info["want"]
    if not res.outs and not res.I.lossy:
        fail("unusable", "no normal return is reachable")
    for st in res.outs:
        r = res.value(st)
        if "num" in want:
            f.number(r, expr(want["num"]), "value", "the result is not %s" % want["num"])
        if "const" in want:
            need(all(a.__class__ is C and a.v == want["const"] for a in r.a) or res.I.lossy, "value", "the result can differ from %s" % want["const"])
        if "voter" in want:
            f.voter(r, st, want["voter"], "the result")
        if "lst" in want:
            f.length(r, st, L.sym(want["lst"]), "length", "iteration does not yield every voter")
        for y in ("fresh", "apart"):
            if y in want:
                sh = reach(r, st) & reach(res.value(st, want[y]), st)
                need(not sh, "shared", "the result shares a mutable object with %s (allocated at %s)" % (want[y], ", ".join(sorted(str(SH.site(x)) for x in sh))))
        if "profile" not in want:
            continue
        ins = set()
        for y in ("V0", "S0", "A0", "NL"):
            reach(res.value(st, y), st, ins)
        sh = reach(r, st) & ins
        need(not sh, "shared", "the profile shares a mutable object with its inputs (allocated at %s)" % ", ".join(sorted(str(SH.site(x)) for x in sh)))
        for o in objs(r, st):
            need(o is not None and getattr(o.cls, "name", "") == "Profile", "not-a-profile", "the result is not a Profile")
    if "profile" in want:
        f.profile(res.outs, "r", want)
    return dict(hits=f.hits, n=f.n)


finish = U.simple_finish("constructors, mutators and observers of Profile, Voter and CandidateSet: each invalid content is refused with its exception (no normal return reachable); "
                         "for valid contents number of voters, candidates, names, sizes, bounds and weights are exact and no mutable object is shared with inputs or copies",
                         ["approval sets of the inputs are 0..k-1; voters of one large profile are represented by one summary"])
