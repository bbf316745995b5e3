"""P17: profile generators call the documented sampler with the documented parameters and return its votes as a profile."""
from engine import lin as L
from engine.values import *
from lib import harness as H, util as U, shape as SH
from lib.facts import *
from . import P04

TECHNIQUE = "abstract interpretation of the profile generators over a contract of prefsampling: dispatch, parameter flow and contents of the resulting profile"
FILE = "abcvoting.generate"
STUBS = ("samplelog", "prefsampling")
PRE = """
from abcvoting.preferences import Profile, Voter
import samplelog
import abcvoting.generate as G
D1 = G.PointProbabilityDistribution("2d_square", center_point=[PA, PB])
D2 = G.PointProbabilityDistribution("2d_disc", center_point=[PB, PA])
D3 = G.PointProbabilityDistribution("1d_interval")
vp = [[0.5, 1.5] for _ in range(v)]
cp = [[0.25, 1.25] for _ in range(n)]
"""
BASE = dict(num_voters="v", num_candidates="n")
SIZE = dict(BASE, size="k")
POS = dict(pos_voters="v", pos_candidates="n", num_dimensions=2, pos_dimensions=2)
OBS = "\nob_calls = samplelog.CALLS\nob_params = samplelog.PARAMS\n"
# distribution id, generator, keyword arguments, sampler calls, parameters of the samplers, size of approval sets
GENS = (
    ("IC fixed-size", "random_ic_fixed_size_profile", "setsize=k", ("impartial_constant_size",), SIZE, "k"),
    ("IC", "random_ic_profile", "p=PA", ("impartial",), dict(BASE, p="pa"), None),
    ("IC", "random_ic_profile", "", ("impartial",), dict(BASE, p=0.5), None),
    ("Truncated Mallows", "random_mallows_profile", "setsize=k, dispersion=PA", ("mallows", "truncated_ordinal"), dict(SIZE, phi="pa", normalised=False, given=None, impartial=False), "k"),
    ("Urn fixed-size", "random_urn_fixed_size_profile", "setsize=k, replace=PA", ("urn_constant_size",), dict(SIZE, alpha="pa"), "k"),
    ("Urn", "random_urn_profile", "p=PA, replace=PB", ("urn",), dict(BASE, p="pa", alpha="pb"), None),
    ("Truncated Urn", "random_truncated_urn_profile", "setsize=k, replace=PA", ("ordinal.urn", "truncated_ordinal"), dict(SIZE, alpha="pa"), "k"),
    ("Resampling", "random_resampling_profile", "p=PA, phi=PB", ("resampling",), dict(BASE, central="pa", phi="pb", given=None, impartial=False), None),
    ("Disjoint Resampling", "random_disjoint_resampling_profile", "p=PA, phi=PB", ("disjoint_resampling",), dict(BASE, central="pa", phi="pb", groups=2, given=None, impartial=False), None),
    ("Disjoint Resampling", "random_disjoint_resampling_profile", "p=PA, phi=0, num_groups=m", ("disjoint_resampling",), dict(BASE, central="pa", phi=0, groups="m"), None),
    ("Disjoint Resampling", "random_disjoint_resampling_profile", "p=PA", ("disjoint_resampling",), dict(BASE, central="pa", groups=2), None),
    ("Noise", "random_noise_model_profile", "p=PA, phi=PB", ("noise",), dict(BASE, central="pa", phi="pb", distance="SetDistance.HAMMING", given=None, impartial=False), None),
) + tuple(
    ("Noise", "random_noise_model_profile", "p=PA, phi=PB, distance=%r" % d, ("noise",), dict(BASE, central="pa", phi="pb", distance="SetDistance." + e), None)
    for d, e in (("hamming", "HAMMING"), ("jaccard", "JACCARD"), ("zelinka", "ZELINKA"), ("bunke-shearer", "BUNKE_SHEARER"))
)
EUC = (
    ("Euclidean fixed-size", "random_euclidean_fixed_size_profile", "setsize=k", "euclidean_constant_size", SIZE, "k"),
    ("Euclidean Threshold", "random_euclidean_threshold_profile", "threshold=PA", "euclidean_threshold", dict(BASE, threshold="pa"), None),
    ("Euclidean VCR", "random_euclidean_vcr_profile", "voter_radius=PA, candidate_radius=PB", "euclidean_vcr", dict(BASE, voters_radius="pa", candidates_radius="pb"), None),
)
DISTS = (
    ("voter and candidate distributions", "voter_prob_distribution=D1, candidate_prob_distribution=D2", ("positions", "cube", "ball_uniform")),
    ("voter points", "voter_prob_distribution=None, candidate_prob_distribution=D2, voter_points=vp", ("positions", "ball_uniform")),
    ("candidate points", "voter_prob_distribution=D1, candidate_prob_distribution=None, candidate_points=cp", ("positions", "cube")),
    ("all points", "voter_prob_distribution=None, candidate_prob_distribution=None, voter_points=vp, candidate_points=cp", ("positions",)),
)
W, SG = dict(width="k"), dict(sigma="m")
# name, sampler calls, dimension, sampler parameters (width=k, sigma=m)
POINTS = (
    ("1d_interval", ("cube",), 1, W),
    ("1d_gaussian", ("gaussian",), 1, dict(SG, width=None)),
    ("1d_gaussian_interval", ("gaussian",), 1, dict(SG, width=["k"])),
    ("2d_disc", ("ball_uniform",), 2, dict(W, envelope=False)),
    ("2d_square", ("cube",), 2, W),
    ("2d_gaussian", ("gaussian",), 2, dict(SG, width=None)),
    ("2d_gaussian_disc", ("gaussian", "ball_resampling"), 2, dict(SG, width="k")),
    ("3d_cube", ("cube",), 3, W),
)
BAD = (
    ("no id", "r = G.random_profile(v, n, {'p': 0.5})", "KeyError"),
    ("unknown id", "r = G.random_profile(v, n, {'id': 'ic', 'p': 0.5})", "ValueError"),
    ("unknown distance", "r = G.random_noise_model_profile(v, n, p=0.5, phi=0.5, distance='Hamming')", "ValueError"),
    ("empty name of a distance", "r = G.random_noise_model_profile(v, n, p=0.5, phi=0.5, distance='')", "ValueError"),
    ("unknown point distribution", "r = G.random_point(G.PointProbabilityDistribution('2d_cube'))", "ValueError"),
    ("unknown point distribution of voters", "r = G.random_euclidean_threshold_profile(v, n, G.PointProbabilityDistribution('1d_disc'), D3, 1.2)", "ValueError"),
    ("no dimension in the name", "r = G.PointProbabilityDistribution('disc')", "ValueError"),
    ("center point of a wrong dimension", "r = G.PointProbabilityDistribution('2d_disc', center_point=[0.5])", "ValueError"),
    ("center point with too many coordinates", "r = G.PointProbabilityDistribution('2d_disc', center_point=[0.5, 1.0, 1.5])", "ValueError"),
    ("missing parameter", "r = G.random_profile(v, n, {'id': 'IC fixed-size'})", "TypeError"),
    ("unknown parameter", "r = G.random_profile(v, n, {'id': 'IC', 'prob': 0.5})", "TypeError"),
)


def jobs(tier):
    js = []

    def job(name, code, **kw):
        js.append(H.Job("gen", name, code + OBS, pre=PRE, stmt=1, stubs=STUBS, **kw))

    def both(did, fn, args, calls, params, size, tail="", code=None):
        kw = dict(calls=calls, params=params, size=size, alternatives=None)
        job("%s(%s)%s" % (fn, args, tail), "r = G.%s(v, n%s)" % (fn, ", " + args if args else ""), **kw)
        d = "{'id': %r, %s}" % (did, ", ".join("'%s': %s" % tuple(x.split("=")) for x in args.split(", ") if x))
        job("random_profile(%s)%s" % (d, tail), "d = %s\nr = G.random_profile(v, n, d)\nob_id = d['id']" % d, id=did, **kw)

    for g in GENS:
        both(*g)
    for did, fn, args, sampler, params, size in EUC:
        for dn, da, calls in DISTS:
            both(did, fn, da + ", " + args, calls + (sampler,), dict(params, **POS), size, " " + dn)
        da, calls = DISTS[0][1:]
        job("%s return_points" % fn, "r, vpos, cpos = G.%s(v, n, %s, %s, return_points=True)" % (fn, da, args), calls=calls + (sampler,), params=dict(params, **POS), size=size, positions=True)
        job("%s return_points given points" % fn, "r, vpos, cpos = G.%s(v, n, None, None, %s, voter_points=vp, candidate_points=cp, return_points=True)" % (fn, args),
            calls=("positions", sampler), params=dict(params, **POS), size=size, positions=True, given=True)
    for name, calls, dim, params in POINTS:
        for c, ce in (("[%s]" % ", ".join(["PA", "PB", "v"][:dim]), ["pa", "pb", "v"][:dim]), ("PA", ["pa"] * dim)):
            mk = "d = G.PointProbabilityDistribution(%r, center_point=%s, sigma=m, width=k)\n" % (name, c)
            pr = dict(params, dim=dim, center=ce)
            job("random_point(%s, center_point=%s)" % (name, c), mk + "r = G.random_point(d)", calls=calls, params=pr, point=dim)
            job("points(%s, center_point=%s)" % (name, c), mk + "r = d.prefsampling_function()(num_points=v)[0]", calls=calls, params=pr if "resampling" in calls[-1] else dict(pr, num_points="v"), point=dim)
    js += [H.Job("badgen", a, b, pre=PRE, stmt=1, what=a, expect=e, stubs=STUBS) for a, b, e in BAD]
    return js


def lookup(o, key):
    for k, x, p in o.ents:
        if any(a.__class__ is C and a.v == key for a in k.a):
            return x
    return None


def matches(v, st, want, f):
    """the value is the wanted number, constant or sequence"""
    if isinstance(want, list):
        for a in v.a:
            its = None
            if a.__class__ is T:
                its = a.items
            elif a.__class__ is R and st.heap.get(a.addr) is not None:
                o = st.heap[a.addr]
                its = getattr(o.attrs["__of__"].one(), "items", None) if "__of__" in o.attrs else o.items
            if its is None or len(its) != len(want) or not all(matches(x, st, w, f) for x, w in zip(its, want)):
                return False
        return True
    if isinstance(want, str) and want not in ("k", "n", "v", "m", "pa", "pb") or want is None or isinstance(want, bool):
        return all(a.__class__ is C and a.v == want and type(a.v) is type(want) for a in v.a)
    if isinstance(want, float):
        return all(a.__class__ is N and a.const() == want for a in v.a)
    return is_num(v, expr(want)) == "yes"


def visit(res):
    j = res.job
    f = Facts(res, FILE)
    if j.kind == "badgen":
        r = P04.reject(res, j.info["expect"], j.name, FILE, j.name)
        return dict(hits=r["hits"], n=1)
    i = j.info
    if not res.outs and not res.I.lossy:
        f.fail("unusable", "no normal return is reachable (%s)" % ", ".join(sorted({x[0] for st, e, l in res.excs for x in U.exc_classes(res, st, e)})))
    for st in res.outs:
        g = lambda x: res.value(st, x)
        for o in objs(g("ob_calls"), st):
            got = None if o is None or o.items is None else [next((a.v for a in x.a if a.__class__ is C), None) for x in o.items]
            f.need(got == list(i["calls"]) or got is None and f.lossy(), "sampler", "samplers called: %s instead of %s" % (got, list(i["calls"])))
        for o in objs(g("ob_params"), st):
            for p, w in i["params"].items():
                x = lookup(o, p) if o is not None else None
                f.need(x is not None and matches(x, st, w, f) or f.lossy(), "parameter", "the parameter %s of the sampler is not %s" % (p, w))
            if i.get("positions"):
                for q, w in (("vpos", "voters_pos"), ("cpos", "candidates_pos")):
                    f.need(lookup(o, w) is not None and lookup(o, w).a == g(q).a or f.lossy(), "points", "the returned points are not the points the profile is based on")
                    if i.get("given"):
                        f.need(g(q).a == g({"vpos": "vp", "cpos": "cp"}[q]).a or f.lossy(), "points", "the returned points are not the given points")
            if "pos_voters" in i["params"]:
                for q in ("voters", "candidates"):
                    y, z = lookup(o, q + "_positions"), lookup(o, q + "_pos")
                    f.need(y is not None and z is not None and y.a == z.a or f.lossy(), "points", "the positions of the %s used by the sampler are not the sampled or given ones" % q)
        if i.get("id"):
            f.need(matches(g("ob_id"), st, i["id"], f) or f.lossy(), "argument", "random_profile changes the dictionary it is given")
        if i.get("point"):
            f.length(g("r"), st, L.const(i["point"]), "dimension", "the point does not have %d coordinates" % i["point"])
    if not i.get("point"):
        f.profile(res.outs, "r", dict(profile=("v",), every=(i["size"], 1)))
    return dict(hits=f.hits, n=f.n)


finish = U.simple_finish("every profile generator, directly and through random_profile, and every point distribution: samplers called, each parameter of the sampler, contents of the returned profile",
                         ["prefsampling keeps the contract in engine/stubs/prefsampling (the given number of ballots, each a subset of the candidates; fixed-size samplers use int(rel_num_approvals * num_candidates) candidates)"])
