"""Linear expressions over non-negative symbols, and symbolic intervals.

Symbols used by the harnesses
  k   committeesize          (k >= 1)
  n   number of candidates   (n >= k)
  m   max_num_of_committees  (m >= 2; the value 1 is analysed as a separate context)
  v   number of ballots      (v >= 1)
Every other symbol is a loop counter (registered with its bounds) or a fresh non-negative number.
"""
from fractions import Fraction

BASE = {
    "k": ((("k_", 1),), 1),
    "n": ((("d_", 1), ("k_", 1)), 1),
    "m": ((("m_", 1),), 2),
    "v": ((("v_", 1),), 1),
}
COUNTERS = {}  # loop counter symbol -> (order, upper bound Lin or None): 0 <= i <= ub


class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t=(), c=0):
        self.t = t
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.__class__ is o.__class__ and self.h == o.h and self.t == o.t and self.c == o.c

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = []
        for s, c in self.t:
            out.append(s if c == 1 else ("-" + s if c == -1 else "%s*%s" % (c, s)))
        r = "+".join(out)
        if self.c:
            r += ("+" if self.c > 0 else "") + str(self.c)
        return r.replace("+-", "-")

    def is_const(self):
        return not self.t

    def key(self):
        return (self.t, self.c)

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for a, c in self.t:
            if a == s:
                return c
        return 0


def const(c):
    return Lin((), c)


def sym(s):
    return Lin(((s, 1),), 0)


ZERO = const(0)
ONE = const(1)


def _mk(d, c):
    return Lin(tuple(sorted((s, x) for s, x in d.items() if x != 0)), c)


def add(a, b):
    if not a.t:
        if a.c == 0:
            return b
        return Lin(b.t, b.c + a.c)
    if not b.t:
        return Lin(a.t, a.c + b.c)
    d = dict(a.t)
    for s, c in b.t:
        d[s] = d.get(s, 0) + c
    return _mk(d, a.c + b.c)


def scale(a, f):
    if f == 1:
        return a
    return _mk({s: c * f for s, c in a.t}, a.c * f)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def subst(a, s, e):
    """replace symbol s by Lin e"""
    c = a.coef(s)
    if not c:
        return a
    d = dict(a.t)
    del d[s]
    return add(_mk(d, a.c), scale(e, c))


_ge0 = {}


def clear():
    _ge0.clear()
    COUNTERS.clear()


def _ge0_uncached(e):
    # eliminate loop counters, innermost (latest) first
    while True:
        cs = [(COUNTERS[s][0], s, c) for s, c in e.t if s in COUNTERS]
        if not cs:
            break
        _, s, c = max(cs)
        if c > 0:
            e = subst(e, s, ZERO)
        else:
            ub = COUNTERS[s][1]
            if ub is None:
                return False
            e = subst(e, s, ub)
    d = {}
    c0 = e.c
    for s, c in e.t:
        if s in BASE:
            t, k = BASE[s]
            c0 += c * k
            for s2, c2 in t:
                d[s2] = d.get(s2, 0) + c * c2
        else:
            d[s] = d.get(s, 0) + c
    return c0 >= 0 and all(c >= 0 for c in d.values())


def ge0(e):
    if not e.t:
        return e.c >= 0
    r = _ge0.get(e)
    if r is None:
        r = _ge0[e] = _ge0_uncached(e)
    return r


def le(a, b):
    if a is b:
        return True
    return ge0(sub(b, a))


def lt(a, b):
    """a + 1 <= b (integers)"""
    return ge0(Lin(*(lambda x: (x.t, x.c - 1))(sub(b, a))))


def slt(a, b):
    """strict a < b for reals: only decided via constants"""
    e = sub(b, a)
    if not e.t:
        return e.c > 0
    return ge0(Lin(e.t, e.c - Fraction(1, 10**9)))


# ---------------------------------------------------------------- intervals
# an interval is (lo, hi): lo = tuple of Lin (value >= each), hi = tuple of Lin (value <= each)

TOPI = ((), ())
CAP = 3


def iconst(c):
    l = (const(c),)
    return (l, l)


def ilin(e):
    return ((e,), (e,))


def irange(lo, hi):
    f = lambda x: () if x is None else ((x,) if isinstance(x, Lin) else (const(x),))
    return (f(lo), f(hi))


def _prune_hi(xs):
    out = []
    for x in xs:
        if x in out:
            continue
        if any(le(y, x) for y in out):
            continue
        out = [y for y in out if not le(x, y)]
        out.append(x)
    return _cap(out)


def _cap(out):
    if len(out) > CAP:
        # definition symbols ("#1" = the length of a particular container) carry exact relations
        out.sort(key=lambda x: (sum(1 for s, _ in x.t if s[0] == "#"), x.key()))
        keep = [x for x in out if any(s[0] == "#" for s, _ in x.t)][:2]
        out = ([x for x in out if x not in keep][:CAP] + keep)[:CAP + 2]
    out.sort(key=Lin.key)
    return tuple(out)


def _prune_lo(xs):
    out = []
    for x in xs:
        if x in out:
            continue
        if any(le(x, y) for y in out):
            continue
        out = [y for y in out if not le(y, x)]
        out.append(x)
    return _cap(out)


def norm(lo, hi):
    if len(lo) > 1:
        lo = _prune_lo(lo)
    if len(hi) > 1:
        hi = _prune_hi(hi)
    return (lo, hi)


def exact(i):
    """the Lin this interval is exactly equal to, or None (prefers expressions without definition symbols)"""
    r = None
    for l in i[0]:
        if l in i[1]:
            if len(i[0]) == 1 or not has_def(l):
                return l
            r = l if r is None else r
    return r


def has_def(l):
    return any(s[0] == "#" for s, _ in l.t)


def drop_sym(i, s):
    """forget everything an interval says about symbol s"""
    return (tuple(x for x in i[0] if not x.coef(s)), tuple(x for x in i[1] if not x.coef(s)))


def constval(i):
    e = exact(i)
    if e is not None and not e.t:
        return e.c
    return None


def iadd(a, b):
    if len(a[0]) == 1 and len(b[0]) == 1 and len(a[1]) == 1 and len(b[1]) == 1:
        return ((add(a[0][0], b[0][0]),), (add(a[1][0], b[1][0]),))
    return norm(
        tuple(add(x, y) for x in a[0] for y in b[0]), tuple(add(x, y) for x in a[1] for y in b[1])
    )


def ineg(a):
    return (tuple(neg(x) for x in a[1]), tuple(neg(x) for x in a[0]))


def isub(a, b):
    return iadd(a, ineg(b))


def iscale(a, f):
    if f >= 0:
        return (tuple(scale(x, f) for x in a[0]), tuple(scale(x, f) for x in a[1]))
    return ineg(iscale(a, -f))


def nonneg(i):
    return any(ge0(l) for l in i[0])


def positive(i):
    return any(slt(ZERO, l) for l in i[0])


def negative(i):
    return any(slt(h, ZERO) for h in i[1])


def imul(a, b):
    ca, cb = constval(a), constval(b)
    if ca is not None:
        return iscale(b, ca)
    if cb is not None:
        return iscale(a, cb)
    if nonneg(a) and nonneg(b):
        lo = (ONE,) if (positive_int(a) and positive_int(b)) else (ZERO,)
        return (lo, ())
    return TOPI


def positive_int(i):
    return any(le(ONE, l) for l in i[0])


def ijoin(a, b):
    if a == b:
        return a
    lo = [x for x in a[0] if any(le(x, y) for y in b[0])]
    lo += [y for y in b[0] if any(le(y, x) for x in a[0])]
    hi = [x for x in a[1] if any(le(y, x) for y in b[1])]
    hi += [y for y in b[1] if any(le(x, y) for x in a[1])]
    if not lo and a[0] and b[0]:
        # incomparable bounds: fall back to a weaker common one
        for c in (ONE, ZERO):
            if any(le(c, x) for x in a[0]) and any(le(c, x) for x in b[0]):
                lo = [c]
                break
    if not hi and a[1] and b[1]:
        for c in (sym("k"), Lin((("n", 1),), -1), sym("n")):
            if any(le(x, c) for x in a[1]) and any(le(x, c) for x in b[1]):
                hi = [c]
                break
    return norm(tuple(lo), tuple(hi))


def imeet(a, b):
    return norm(a[0] + tuple(x for x in b[0] if x not in a[0]),
                a[1] + tuple(x for x in b[1] if x not in a[1]))


def empty(i):
    return any(slt(h, l) for l in i[0] for h in i[1])


def ileq(a, b):
    """a subset of b"""
    return all(any(le(y, x) for x in a[0]) for y in b[0]) and all(
        any(le(x, y) for x in a[1]) for y in b[1]
    )


def isubst(i, s, lo, hi):
    """eliminate symbol s whose value lies in [lo, hi] (Lins; hi may be None)"""
    los, his = [], []
    for l in i[0]:
        c = l.coef(s)
        if c == 0:
            los.append(l)
        elif c > 0:
            los.append(subst(l, s, lo))
        elif hi is not None:
            los.append(subst(l, s, hi))
    for h in i[1]:
        c = h.coef(s)
        if c == 0:
            his.append(h)
        elif c < 0:
            his.append(subst(h, s, lo))
        elif hi is not None:
            his.append(subst(h, s, hi))
    return norm(tuple(los), tuple(his))


LADDER = [const(0), const(1), Lin((("m", 1),), -1), sym("m"), Lin((("k", 1),), -1), sym("k"),
          Lin((("n", 1), ("k", -1)), 0), Lin((("n", 1),), -1), sym("n"), Lin((("v", 1),), -1), sym("v")]
LADDER_LO = [sym("n"), sym("k"), Lin((("k", 1),), -1), const(1), const(0), const(-1)]


def iwiden(old, new, tried=None):
    """old stable candidate, new joined value: keep stable bounds, move unstable ones up the ladder.
    Returns the set of all ladder bounds that are still possible (conjunction), so that invariants
    such as len <= m-1 AND len <= k can both be found by elimination."""
    lo = tuple(x for x in old[0] if any(le(x, y) for y in new[0]))
    if not lo and new[0]:
        for c in LADDER_LO:
            if any(le(c, y) for y in new[0]) and not any(c == x for x in old[0]):
                lo = (c,)
                break
    hi = tuple(x for x in old[1] if any(le(y, x) for y in new[1]))
    if not hi and new[1]:
        cand = []
        for c in LADDER:
            if any(le(y, c) for y in new[1]) and not any(le(c, x) for x in old[1]):
                cand.append(c)
        hi = tuple(cand)
        # keep the minimal elements only when comparable; incomparable ones stay as a conjunction
        hi = _min_elems(hi)
    return (lo, hi)


def _min_elems(xs):
    out = []
    for x in xs:
        if any(le(y, x) and y != x for y in xs):
            continue
        out.append(x)
    return tuple(out)


def show(i):
    lo = "-inf" if not i[0] else (repr(i[0][0]) if len(i[0]) == 1 else "max%r" % (i[0],))
    hi = "inf" if not i[1] else (repr(i[1][0]) if len(i[1]) == 1 else "min%r" % (i[1],))
    return lo if lo == hi else "[%s, %s]" % (lo, hi)


def isubst_shift(i, s):
    """rename iteration s to s-1 (value at the end of iteration s seen from the next head)"""
    e = Lin(((s, 1),), -1)
    return (tuple(subst(x, s, e) for x in i[0]), tuple(subst(x, s, e) for x in i[1]))
