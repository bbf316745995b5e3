"""Facts about the contents of profiles, voters and committees at an abstract exit."""
from engine import lin as L
from engine.values import *
from . import util as U, shape as SH


def reach(v, st, seen=None):
    """addresses of all mutable heap objects reachable from a value"""
    seen = set() if seen is None else seen
    for a in v.a:
        if a.__class__ is R:
            if a.addr in seen:
                continue
            o = st.heap.get(a.addr)
            if o is None:
                continue
            if o.kind not in ("func", "class", "module", "frozenset"):
                seen.add(a.addr)
            if o.kind in ("func", "class", "module"):
                continue
            for x in [o.key, o.elem] + list(o.items or ()) + list(o.attrs.values()) + [y for _, y, _ in o.ents]:
                if x is not None:
                    reach(x, st, seen)
        elif a.__class__ is T:
            for x in a.items:
                reach(x, st, seen)
        elif a.__class__ is TO:
            reach(a.elem, st, seen)
    return seen


def expr(x):
    return None if x is None else L.sym(x) if isinstance(x, str) else L.const(x)


def is_num(v, e):
    """the value is exactly the number e: yes / no (definitely another number) / ?"""
    r = "yes"
    for a in v.a:
        if a.__class__ is C and isinstance(a.v, (int, float)):
            i = (((L.const(a.v)),), ((L.const(a.v)),))
        elif a.__class__ is N:
            i = a.i
        elif a.__class__ is TOP:
            return "?"
        else:
            return "no"
        x = SH.interval_class(i, e)
        if x == "exact":
            continue
        if x == "off" or L.exact(i) is not None:
            return "no"
        r = "?"
    return r


def objs(v, st):
    return [st.heap.get(a.addr) if a.__class__ is R else None for a in v.a]


class Facts:
    """obligations of one job; violations are collected in hits"""

    def __init__(self, res, file):
        self.res, self.file, self.hits, self.n, self.name = res, file, [], 0, res.job.name

    def fail(self, rule, msg):
        self.hits.append(U.hit(rule, self.file, 0, self.name, "%s: %s" % (self.name, msg)))

    def need(self, cond, rule, msg):
        self.n += 1
        if not cond:
            self.fail(rule, msg)

    def lossy(self):
        return bool(self.res.I.lossy)

    def voter(self, v, st, spec, who):
        ln, w = spec
        for o in objs(v, st):
            if o is None:
                if not self.lossy():
                    self.fail("not-a-voter", "%s is not a Voter object" % who)
                continue
            self.need(getattr(o.cls, "name", "") == "Voter", "not-a-voter", "%s is not a Voter object" % who)
            ap = o.attrs.get("approved")
            for s in objs(ap, st) if ap is not None else [None]:
                if s is None or s.kind != "set":
                    self.fail("not-a-set", "approved of %s is not a CandidateSet" % who)
                    continue
                self.need(getattr(s.cls, "name", "") == "CandidateSet", "not-a-set", "approved of %s is not a CandidateSet" % who)
                if ln is not None:
                    c = {SH.interval_class(i, L.sym(ln)) for i in s.lens}
                    self.need(c == {"exact"} or self.lossy(), "approved-size", "the approval set of %s does not have the size of the given approval set (%s)" % (who, ", ".join(L.show(i) for i in s.lens)))
                el = SH.elem_of(s)
                for x in el.a if ln is not None else ():
                    if x.__class__ is N:
                        i = x.i
                        ok = any(L.le(L.ZERO, z) for z in i[0]) and any(L.le(z, L.add(L.sym("k"), L.const(-1))) for z in i[1])
                        self.need(ok or self.lossy(), "approved-content", "the approval set of %s may contain other candidates than the given ones (%s)" % (who, L.show(i)))
            wt = o.attrs.get("weight")
            if w is not None:
                self.need(wt is not None and (is_num(wt, expr(w)) == "yes" or self.lossy()), "weight", "the weight of %s is not the given weight %s" % (who, w))

    def number(self, v, e, rule, msg):
        self.need(is_num(v, e) == "yes" or self.lossy(), rule, msg)

    def length(self, v, st, e, rule, msg):
        for o in objs(v, st):
            self.need(o is not None and ({SH.interval_class(i, e) for i in o.lens} == {"exact"} or self.lossy()), rule, msg)

    def profile(self, states, var, want):
        """the profile in variable var has the wanted contents (observed through its public interface)"""
        res = self.res
        code = "ob_n = %s.num_cand\nob_l = len(%s)\nob_v = [x for x in %s]\nob_names = %s.cand_names\nob_c = %s.candidates\n".replace("%s", var)
        if "voters" in want:
            code += "".join("ob_%d = %s[%d]\n" % (i, var, i) for i in range(len(want["voters"])))
        o2s = []
        for st in states:
            o, e = res.I.run_more(code, st.fork(), res.addr)
            o2s += o
        for st in o2s:
            g = lambda x: res.value(st, x)
            self.number(g("ob_n"), want.get("num_cand", L.sym("n")), "num_cand", "num_cand of the profile is not the given number")
            ln = want["profile"][0]
            if ln is not None:
                self.number(g("ob_l"), expr(ln), "num_voters", "the profile does not have %s voters" % ln)
            if "num_cand" not in want:
                self.length(g("ob_c"), st, L.sym("n"), "candidates", "the list of candidates does not have num_cand elements")
                self.length(g("ob_names"), st, L.sym("n"), "names", "the list of candidate names does not have num_cand elements")
            for x in objs(g("ob_names"), st):
                if x is not None and want.get("names"):
                    named = "names" in U.deep_labels(SH.elem_of(x), st)
                    self.need(named == (want["names"] == "names") or self.lossy(), "names",
                              "the candidate names are %s" % ("not the given ones" if want["names"] == "names" else "not the default ones"))
            if "voters" in want:
                seen = []
                for i, spec in enumerate(want["voters"]):
                    x = g("ob_%d" % i)
                    self.voter(x, st, spec, "voter %d" % i)
                    seen.append(reach(x, st))
                for i in range(len(seen)):
                    for k2 in range(i):
                        sh = {a for a in seen[i] & seen[k2] if a[2] == "r"}
                        self.need(not sh, "shared", "two voters of the profile share an object (allocated at %s)" % ", ".join(sorted(str(SH.site(a)) for a in sh)))
            if "every" in want:
                for x in objs(g("ob_v"), st):
                    if x is not None:
                        self.voter(SH.elem_of(x), st, want["every"], "a voter")
