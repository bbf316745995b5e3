"""P16: files: what is written can be read back unchanged, malformed files are refused, files are closed."""
from engine import lin as L
from engine.values import *
from lib import harness as H, util as U, shape as SH
from lib.facts import *
from . import P04

TECHNIQUE = "abstract interpretation of writer and reader over contract stubs of YAML/Preflib/files: exact read-back facts, plain-data types, reachability for malformed files, typestate of open files"
FILE = "abcvoting.fileio"
STUBS = ("iostub", "ruamel", "preflibtools")
PRE = '''
from abcvoting.preferences import Profile, Voter
from abcvoting.misc import CandidateSet
import iostub
import preflibtools.instances as PI
import abcvoting.fileio as F
F.open = iostub.open
A0 = list(range(k))
NL = [NAME for _ in range(n)]
qn = Profile(n)
qn.add_voters([Voter(A0, weight=m) for _ in range(v)])
qu = Profile(n)
qu.add_voters([A0 for _ in range(v)])
q1 = Profile(n, NL)
q1.add_voter(Voter(A0, weight=m))
C1 = CandidateSet(A0)
def instance(count):
    ins = PI.CategoricalInstance()
    ins.num_alternatives = n
    for c in range(n):
        ins.alternatives_name[c + 1] = NAME
    pref = (tuple([c + 1 for c in range(k)]), tuple([c + 1 for c in range(k, n)]))
    ins.preferences.append(pref)
    ins.multiplicity[pref] = count
    return ins
'''
W = "F.write_abcvoting_instance_to_yaml_file('f', "
RD = "r, ck, inst, data = F.read_abcvoting_yaml_file('f')\n"
WP = "F.write_profile_to_preflib_cat_file('f', "
INST = "[{'rule_id': 'pav', 'algorithm': 'standard', 'x': m, 'result': [C1, C1]}]"
INST2 = "[{'rule_id': 'pav', 'result': None}, {'rule_id': 'pav', 'result': None}]"

GOOD = (  # name, statements, wanted profile, other wanted facts
    ("YAML weighted profile", W + "qn, k)\n" + RD, dict(profile=("v",), every=("k", "m")), dict(num=(("ck", "k"),), empty="inst")),
    ("YAML unit profile", W + "qu, k)\n" + RD, dict(profile=("v",), every=("k", 1)), dict(num=(("ck", "k"),), empty="inst")),
    ("YAML first voter weighted", "q = Profile(n)\nq.add_voters([Voter(A0, weight=m), A0])\n" + W + "q, k)\n" + RD, dict(profile=(2,), every=("k", None)), {}),
    ("YAML second voter weighted", "q = Profile(n)\nq.add_voters([A0, Voter(A0, weight=WI)])\n" + W + "q, k)\n" + RD + "ws = [x.weight for x in r]\n",
     dict(profile=(2,)), dict(label=(("ws", "weight"),))),
    ("YAML without committee size", W + "qn)\n" + RD, dict(profile=("v",), every=("k", "m")), dict(const=(("ck", None),), empty="inst")),
    ("YAML empty approval set", "q = Profile(n)\nq.add_voter(Voter([], weight=m))\n" + W + "q)\n" + RD, dict(profile=(1,), voters=[(None, "m")]), {}),
    ("YAML description", W + "qn, k, description='text')\n" + RD + "d = data['description']\n", dict(profile=("v",), every=("k", "m")), dict(const=(("d", "text"),))),
    ("YAML compute instances", W + "qn, k, " + INST + ")\n" + RD + "a = inst[0]['rule_id']\nb = inst[0]['algorithm']\nc = inst[0]['x']\nd = inst[0]['result']\ne = inst[0]['profile']\n"
     "g = inst[0]['committeesize']\no = len(inst)\n",
     dict(profile=("v",), every=("k", "m")),
     dict(const=(("a", "pav"), ("b", "standard")), num=(("c", "m"), ("g", "k"), ("o", 1), ("ck", "k")), committees="d", same=(("e", "r"),))),
    ("YAML compute instances without result", W + "qn, k, " + INST2 + ")\n" + RD + "a = inst[0]['rule_id']\nb = inst[1]['rule_id']\nc = inst[0]['result']\nd = inst[1]['result']\no = len(inst)\n",
     dict(profile=("v",), every=("k", "m")), dict(const=(("a", "pav"), ("b", "pav"), ("c", None), ("d", None)), num=(("o", 2),))),
    ("YAML compute instances with the profile", W + "qn, k, [{'rule_id': 'pav', 'profile': qn, 'committeesize': k}])\n" + RD + "a = inst[0]['rule_id']\ng = inst[0]['committeesize']\n",
     dict(profile=("v",), every=("k", "m")), dict(const=(("a", "pav"),), num=(("g", "k"),))),
    ("YAML written again", W + "qn, k, " + INST + ")\n" + RD + W + "r, ck, inst)\n" + RD + "a = inst[0]['rule_id']\nc = inst[0]['x']\nd = inst[0]['result']\no = len(inst)\n",
     dict(profile=("v",), every=("k", "m")), dict(const=(("a", "pav"),), num=(("c", "m"), ("o", 1), ("ck", "k")), committees="d")),
    ("YAML written again without committee size", W + "qn, None, " + INST + ")\n" + RD + W + "r, ck, inst)\n" + RD + "a = inst[0]['rule_id']\nd = inst[0]['result']\no = len(inst)\n",
     dict(profile=("v",), every=("k", "m")), dict(const=(("a", "pav"), ("ck", None)), num=(("o", 1),), committees="d")),
    ("YAML written again does not change the instances", "lst = " + INST + "\n" + W + "qn, k, lst)\nr = qn\na = lst[0]['rule_id']\nd = lst[0]['result']\no = len(lst[0])\nb = lst[0]['algorithm']\n",
     dict(profile=("v",), every=("k", "m")), dict(const=(("a", "pav"), ("b", "standard")), num=(("o", 4),), committees="d")),
    ("YAML fractional weights", "q = Profile(n)\nq.add_voter(Voter(A0, weight=WFRAC))\n" + W + "q, k)\nr = q\n", dict(profile=(1,)), {}),
    ("YAML profile without num_cand", "iostub.FILES['f'] = {'profile': [[0], [1], [2]]}\n" + RD, dict(profile=(3,), num_cand=L.const(3)), dict(const=(("ck", None),), empty="inst")),
    ("YAML largest candidate in the first voter", "iostub.FILES['f'] = {'profile': [[4, 0], [1]]}\n" + RD, dict(profile=(2,), num_cand=L.const(5)), {}),
    ("YAML writing and reading can fail", "iostub.MAYFAIL = True\n" + W + "qn, k, " + INST + ")\n" + RD, dict(profile=("v",), every=("k", "m")), {}),
    ("Preflib weighted voter", WP + "q1)\nr = F.read_preflib_file('f', use_weights=True)\n", dict(profile=(1,), names="names", voters=[(None, "m")]), dict(written=True)),
    ("Preflib weighted voter as copies", WP + "q1)\nr = F.read_preflib_file('f')\n", dict(profile=("m",), names="names", every=(None, 1)), dict(written=True)),
    ("Preflib unit voters", WP + "qu)\nr = qu\n", dict(profile=("v",)), dict(written=True)),
    ("Preflib weighted voters", WP + "qn)\nr = qn\n", dict(profile=("v",)), dict(written=True)),
    ("Preflib fractional weight", "q = Profile(n)\nq.add_voter(Voter(A0, weight=WFRAC))\n" + WP + "q)\nr = q\n", dict(profile=(1,)), dict(written=True, weight=True)),
    ("Preflib float weight", "q = Profile(n)\nq.add_voter(Voter(A0, weight=2.0))\n" + WP + "q)\nr = q\n", dict(profile=(1,)), dict(written=True)),
    ("Preflib read categories", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f')\n", dict(profile=("v",), names="names", every=(None, 1)), {}),
    ("Preflib read top_ranks", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f', top_ranks=m)\n", dict(profile=("v",), names="names", every=(None, 1)), {}),
    ("Preflib read setsize", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f', setsize=k)\n", dict(profile=("v",), names="names", every=(None, 1)), {}),
    ("Preflib read use_weights", "iostub.FILES['f'] = instance(m)\nr = F.read_preflib_file('f', use_weights=True)\n", dict(profile=(1,), names="names", every=(None, "m")), {}),
)
BAD = (  # name, statements, exception
    ("YAML without profile", "iostub.FILES['f'] = {'num_cand': 3}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML with an unknown key", "iostub.FILES['f'] = {'profile': [[0], [1]], 'num_cands': 3}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML with an unknown key in front", "iostub.FILES['f'] = {'foo': None, 'profile': [[0], [1]], 'num_cand': 3}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML with too few weights", "iostub.FILES['f'] = {'profile': [[0], [1]], 'voter_weights': [1]}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML with too many weights", "iostub.FILES['f'] = {'profile': [[0], [1]], 'voter_weights': [1, 2, 3]}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML without any weight", "iostub.FILES['f'] = {'profile': [[0], [1]], 'voter_weights': []}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML instance without rule_id", "iostub.FILES['f'] = {'profile': [[0], [1]], 'compute': [{'result': None}]}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML second instance without rule_id", "iostub.FILES['f'] = {'profile': [[0], [1]], 'compute': [{'rule_id': 'av'}, {'result': None}]}\nr = F.read_abcvoting_yaml_file('f')", "MalformattedFileException"),
    ("YAML candidate out of range", "iostub.FILES['f'] = {'profile': [[NBAD]], 'num_cand': n}\nr = F.read_abcvoting_yaml_file('f')", "ValueError"),
    ("YAML weight <= 0", "iostub.FILES['f'] = {'profile': [[0]], 'voter_weights': [WNEG]}\nr = F.read_abcvoting_yaml_file('f')", "ValueError"),
    ("write instance without rule_id", "r = " + W + "qn, k, [{'result': None}])", "ValueError"),
    ("write second instance without rule_id", "r = " + W + "qn, k, [{'rule_id': 'av'}, {'result': None}])", "ValueError"),
    ("write instance of another committee size", "r = " + W + "qn, k, [{'rule_id': 'av', 'committeesize': KBIG2}])", "ValueError"),
    ("write second instance of another committee size", "r = " + W + "qn, k, [{'rule_id': 'av'}, {'rule_id': 'av', 'committeesize': KBIG2}])", "ValueError"),
    ("write instance with a committee size that the file lacks", "r = " + W + "qn, None, [{'rule_id': 'av', 'committeesize': k}])", "ValueError"),
    ("unparsable Preflib file", "iostub.FILES['f'] = None\nr = F.read_preflib_file('f')", "MalformattedFileException"),
    ("Preflib matching instance", "iostub.FILES['f'] = PI.MatchingInstance()\nr = F.read_preflib_file('f')", "ValueError"),
    ("top_ranks and setsize", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f', top_ranks=m, setsize=k)", "ValueError"),
    ("top_ranks <= 0", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f', top_ranks=WNEG)", "ValueError"),
    ("setsize <= 0", "iostub.FILES['f'] = instance(v)\nr = F.read_preflib_file('f', setsize=WNEG)", "ValueError"),
)
RESULT_TYPES = ("list", "dict", "CommentedSeq", "CommentedMap")


def jobs(tier):
    js = [H.Job("io", a, b, pre=PRE, stmt=1, want=w, facts=f, stubs=STUBS) for a, b, w, f in GOOD]
    js += [H.Job("badio", a, b, pre=PRE, stmt=1, what=a, expect=e, stubs=STUBS) for a, b, e in BAD]
    return js


def plain(v, st, bad, seen):
    """values that a YAML file cannot hold"""
    for a in v.a:
        c = a.__class__
        if c is R:
            o = st.heap.get(a.addr)
            if o is None or a.addr in seen:
                continue
            seen.add(a.addr)
            cn = getattr(o.cls, "name", None)
            if o.kind not in ("list", "dict") or (cn is not None and cn not in RESULT_TYPES):
                bad.add(cn or o.kind)
                continue
            for x in [o.key, o.elem] + list(o.items or ()) + [y for _, y, _ in o.ents]:
                plain(x, st, bad, seen)
        elif c in (T, TO):
            bad.add("tuple")
        elif c is N:
            bad |= set(a.kinds) - {"int", "float"}
        elif c in (F, BM, XV, X):
            bad.add(c.__name__)


def closed(res, f):
    n = 0
    for st, exc in U.exits(res):
        m = st.heap.get(("module", "iostub", "r"))
        if m is None:
            continue
        for o in objs(m.attrs["OPENED"], st):
            for x in objs(SH.elem_of(o), st):
                if x is None:
                    continue
                n += 1
                y = x.attrs.get("closed")
                if y is not None and any(a.__class__ is C and a.v is False for a in y.a):
                    f.fail("not-closed", "a file can still be open when the call %s" % ("returns" if exc is None else "raises an exception"))
    f.n += n


def visit(res):
    j = res.job
    f = Facts(res, FILE)
    if j.kind == "badio":
        r = P04.reject(res, j.info["expect"], j.name, FILE, j.name)
        closed(res, f)
        return dict(hits=r["hits"] + f.hits, n=f.n + 1)
    want, facts = j.info["want"], j.info["facts"]
    if not res.outs and not res.I.lossy:
        f.fail("unusable", "no normal return is reachable (%s)" % ", ".join(sorted({x[0] for st, e, l in res.excs for x in U.exc_classes(res, st, e)})))
    closed(res, f)
    for st in res.outs:
        g = lambda x: res.value(st, x)
        for a, e in facts.get("num", ()):
            f.number(g(a), expr(e), "value", "%s is not %s after reading" % (a, e))
        for a, e in facts.get("const", ()):
            f.need(all(x.__class__ is C and x.v == e for x in g(a).a) or res.I.lossy, "value", "%s can differ from %r after reading" % (a, e))
        for a, e in facts.get("label", ()):
            f.need(e in U.deep_labels(g(a), st) or res.I.lossy, "value", "the %s is lost" % e)
        for a, e in facts.get("same", ()):
            f.need(g(a).a == g(e).a or res.I.lossy, "value", "the profile of a compute instance is not the profile that is returned")
        if "empty" in facts:
            f.length(g(facts["empty"]), st, L.ZERO, "value", "compute instances appear that were not written")
        if "committees" in facts:
            f.length(g(facts["committees"]), st, L.const(2), "value", "the result of a compute instance does not have the written number of committees")
            for o in objs(g(facts["committees"]), st):
                for x in objs(SH.elem_of(o), st) if o is not None else ():
                    f.need(x is not None and getattr(x.cls, "name", "") == "CandidateSet", "value", "a committee of a compute instance is not a CandidateSet")
                    if x is not None:
                        f.need({SH.interval_class(i, L.sym("k")) for i in x.lens} == {"exact"} or res.I.lossy, "value", "a committee of a compute instance changes its size")
        m = st.heap.get(("module", "iostub", "r"))
        for o in objs(m.attrs["FILES"], st):
            for k_, x, p_ in o.ents:
                if facts.get("written"):
                    written(f, x, st, facts)
                elif "YAML" in j.name:
                    dumped(f, x, st, j)
    f.profile(res.outs, "r", want)
    return dict(hits=f.hits, n=f.n)


def dumped(f, x, st, j):
    """only plain data are dumped (reading adds the profile and the committees to the loaded data)"""
    bad = set()
    plain(x, st, bad, set())
    if "read_" in j.call:
        bad -= {"Profile", "CandidateSet"}
    f.need(not bad or f.lossy(), "not-plain", "the YAML data contain objects of type %s" % ", ".join(sorted(bad)))


def written(f, x, st, facts):
    """the Preflib instance given to the writer describes the profile"""
    one, n, k = L.ONE, L.sym("n"), L.sym("k")
    inside = lambda i: any(L.le(one, z) for z in i[0]) and any(L.le(z, n) for z in i[1])
    for o in objs(x, st):
        f.need(o is not None and getattr(o.cls, "name", "") == "CategoricalInstance", "instance", "what is written is not a categorical instance")
        if o is None:
            continue
        f.number(o.attrs["num_alternatives"], n, "instance", "the number of alternatives that is written is not the number of candidates")
        f.need(all(a.__class__ is C and a.v is True for a in o.attrs["recomputed"].a), "instance", "the numbers of voters and unique preferences are not recomputed before writing")
        for q in objs(o.attrs["alternatives_name"], st):
            if q is not None and not q.ents:
                f.need(all(a.__class__ is N and inside(a.i) for a in q.key.a) or f.lossy(), "instance", "alternatives are not numbered from 1 to num_cand")
        for q in objs(o.attrs["multiplicity"], st):
            if q is None:
                continue
            pairs = [(kk, y) for kk, y, _ in q.ents] + ([(q.key, q.elem)] if q.key.a else [])
            f.need(bool(pairs), "instance", "no preferences are written")
            for kk, y in pairs:
                for a in y.a:
                    if a.__class__ is N:
                        f.need(a.kinds <= {"int", "int~"}, "multiplicity", "a multiplicity is written that is not an integer")
                        if facts.get("weight"):
                            f.need(False, "multiplicity|fractional", "a non-integer weight is written as an integer multiplicity")
                    elif a.__class__ is C:
                        f.need(isinstance(a.v, int), "multiplicity", "a multiplicity is written that is not an integer")
                        if facts.get("weight"):
                            f.need(False, "multiplicity|fractional", "a non-integer weight is written as an integer multiplicity")
                for a in kk.a:
                    if a.__class__ is not T or len(a.items) != 2:
                        f.need(a.__class__ is TO and f.lossy(), "instance", "a preference does not consist of the approved and the other candidates")
                        continue
                    for ix, part in enumerate(a.items):
                        for b in part.a:
                            els = [b.elem] if b.__class__ is TO else list(b.items) if b.__class__ is T else []
                            for el in els:
                                f.need(all(z.__class__ is N and inside(z.i) or z.__class__ is C for z in el.a) or f.lossy(), "instance", "a preference contains numbers that are not alternatives")
                            if ix == 0 and b.__class__ is TO:
                                f.need({SH.interval_class(i, k) for i in b.lens} == {"exact"} or f.lossy(), "instance", "the first category does not consist of the approved candidates")


finish = U.simple_finish("writer followed by reader for YAML and Preflib files over contract stubs; malformed files and invalid arguments; obligations: the profile, committee size, weights, names "
                         "and compute instances read are exactly those written, only plain data are dumped, malformed data raise the documented exception, no file stays open on any exit",
                         ["ruamel.yaml and preflibtools return what was written (contract stubs in engine/stubs)"])
