"""Models of Python builtins, containers, operators and comparisons."""
import ast
import builtins as _b
import operator
from fractions import Fraction as _Fr

from . import lin as L
from .lin import ilin, iconst, irange
from .state import *
from .values import *

UNROLL = 40
SMALL = 6
NUMK = frozenset(("int", "frac", "mpq", "float", "frac~", "mpq~", "int~", "npint", "npfloat", "num", "inf", "dec"))
INEXACT = frozenset(("float", "frac~", "mpq~", "npfloat"))


class It:
    __slots__ = ("items", "elem", "lens", "labels", "src", "fixed")

    def __init__(self, items, elem, lens, labels=NOLAB, src=None):
        self.items = items
        self.elem = elem
        self.lens = lens
        self.labels = labels
        self.src = src
        self.fixed = True


def constelem(x):
    return lambda st, isym: [(st, x)]


def _consty_item(x):
    if len(x.a) != 1:
        return False
    a = next(iter(x.a))
    if a.__class__ is T:
        return all(_consty_item(y) for y in a.items)
    return a.__class__ in (C, X, F) or (a.__class__ is N and a.const() is not None)


def unrollable(items):
    return len(items) <= SMALL or (len(items) <= UNROLL and all(_consty_item(x) for x in items))


def iterate(I, itv, st, n):
    """list of (state, It)"""
    out = []
    atoms = list(itv.a)
    if not atoms:
        return []
    its = []
    for a in atoms:
        r = iter_atom(I, a, itv.l, st, n)
        if r is None:
            continue
        for s, it in r:
            its.append((s, it))
    if len(its) <= 1:
        if its and its[0][1].items is None and len(its[0][1].lens) == 1 and L.constval(its[0][1].lens[0]) == 1:
            # exactly one iteration: no loop
            s, it = its[0]
            r = it.elem(s, None)
            if len(r) == 1 and r[0][0] is s:
                return [(s, It([r[0][1]], None, it.lens, it.labels, it.src))]
        return its
    # several possible iterables: combine
    s = its[0][0]
    lens = norm_lens(sum((it.lens for _, it in its), ()))
    labs = NOLAB
    for _, it in its:
        labs |= it.labels
    if all(it.items is not None for _, it in its):
        return [(s.fork() if i else s, it) for i, (s, it) in enumerate(its)]

    def elem(st2, isym, its=[it for _, it in its]):
        x = BOT
        cur = st2
        for it in its:
            if it.items is not None:
                for y in it.items:
                    x = join(x, y)
            else:
                r = it.elem(cur, isym)
                if not r:
                    continue
                cur = join_states([q for q, _ in r])
                x = join(x, joins([y for _, y in r]))
        return [(cur, x)]

    return [(s, It(None, elem, lens, labs))]


def distinct(x):
    """the members of a set (or the keys of a dictionary) are pairwise distinct: canonical tuples no longer collide"""
    if any(a.__class__ is TO and "?dup" in a.fl for a in x.a):
        return V(frozenset(TO(a.elem, a.lens, a.fl - {"?dup"}) if a.__class__ is TO else a for a in x.a), x.l)
    return x


def iter_atom(I, a, labels, st, n):
    c = a.__class__
    if c is R:
        o = st.heap.get(a.addr)
        if o is None:
            return [(st, It(None, constelem(I.lose("dangling")), (irange(0, None),), labels))]
        if isinstance(o.cls, object) and o.kind == "inst":
            out = []
            got = False
            if I.class_lookup(R(o.cls.addr), "__iter__", st) is not None:
                for s, m in I.getattr(v(a), "__iter__", st, n):
                    for s2, r in I.call(m, [], {}, s, n):
                        out += iterate(I, r.lab(labels), s2, n)
                return out
            if I.class_lookup(R(o.cls.addr), "__getitem__", st) is not None:
                for s, m in I.getattr(v(a), "__getitem__", st, n):
                    r = I.call(m, [num(0, None)], {}, s, n)
                    for s2, x in r:
                        out.append((s2, It(None, constelem(x), (irange(0, None),), labels)))
                return out
            return [(st, It(None, constelem(I.lose("iterate inst")), (irange(0, None),), labels))]
        if o.kind == "ext":
            return I_ext().iterate_ext(I, a, o, labels, st, n)
        if o.kind in ("cls", "module", "frame", "func"):
            return [(st, It(None, constelem(I.lose("iterate " + o.kind)), (irange(0, None),), labels))]
        labs = labels | o.labels
        if o.kind == "dict":
            if o.ents and not o.key.a and all(p for _, _, p in o.ents) and unrollable([k for k, _, _ in o.ents]):
                return [(st, It([k for k, _, _ in o.ents], None, o.lens, labs, a.addr))]

            def el(s, isym, addr=a.addr):
                oo = s.heap.get(addr)
                return [(s, distinct(oo.all_keys()))] if oo is not None and oo.all_keys().a else []

            return [(st, It(None, el, o.lens, labs, a.addr))]
        if o.items is not None and unrollable(o.items):
            return [(st, It(list(o.items), None, o.lens, labs, a.addr))]

        if o.kind in ("set", "frozenset"):
            if any(z.__class__ in (S,) for z in o.all_elem().a):
                I.emit("iter-strset", n)

        def el(s, isym, addr=a.addr):
            oo = s.heap.get(addr)
            if oo is None:
                return [(s, I.lose("dangling"))]
            x = oo.all_elem()
            if oo.kind in ("set", "frozenset"):
                x = distinct(x)
            return [(s, x)] if x.a else []

        return [(st, It(None, el, o.lens, labs, a.addr))]
    if c is T:
        if unrollable(a.items):
            return [(st, It(list(a.items), None, (iconst(len(a.items)),), labels))]
        return [(st, It(None, constelem(joins(a.items)), (iconst(len(a.items)),), labels))]
    if c is TO:
        if not a.elem.a:
            return [(st, It([], None, (iconst(0),), labels))]
        return [(st, It(None, constelem(a.elem), a.lens, labels))]
    if c is C:
        if isinstance(a.v, str):
            if len(a.v) <= 12:
                return [(st, It([const(x) for x in a.v], None, (iconst(len(a.v)),), labels))]
            return [(st, It(None, constelem(STR), (iconst(len(a.v)),), labels))]
        I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        return None
    if c is S:
        return [(st, It(None, constelem(STR), (irange(0, None),), labels))]
    if c is N:
        I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        return None
    if c is XV:
        p = a.path
        if p == "range":
            lo, hi, step = a.data
            return [(st, range_it(I, lo, hi, step, labels | lo.l | hi.l | step.l))]
        if p == "iter":
            return iterate(I, a.data[0].lab(labels), st, n)
        if p == "enum":
            out = []
            for s, it in iterate(I, a.data[0].lab(labels), st, n):
                sv = a.data[1]
                sa = sv.one()
                if it.items is not None:
                    items = []
                    for k, x in enumerate(it.items):
                        items.append(v(T((v(N(INT, L.iadd(sa.i, iconst(k)))) if sa.__class__ is N else num(), x))))
                    out.append((s, It(items, None, it.lens, it.labels)))
                    continue

                def el(s1, isym, it=it, sa=sa):
                    res = []
                    hi = hull(it.lens)[1]
                    for s2, x in it.elem(s1, isym):
                        if isym is not None and sa.__class__ is N:
                            idx = L.iadd(sa.i, ilin(isym))
                            idx = L.imeet(idx, ((), tuple(L.add(h, L.add(L.const(-1), b)) for h in hi for b in sa.i[1])))
                        else:
                            base = sa.i if sa.__class__ is N else iconst(0)
                            idx = L.iadd(base, ((L.ZERO,), tuple(L.add(h, L.const(-1)) for h in hi)))
                        res.append((s2, v(T((numi(idx), x)))))
                    return res

                out.append((s, It(None, el, it.lens, it.labels)))
            return out
        if p == "zip":
            parts = []
            cur = st
            for x in a.data:
                r = iterate(I, x.lab(labels), cur, n)
                if not r:
                    return None
                cur = r[0][0]
                parts.append(r[0][1])
            labs = labels
            for q in parts:
                labs |= q.labels
            if parts and all(q.items is not None for q in parts):
                return [(cur, It([v(T(t)) for t in zip(*[q.items for q in parts])], None, (iconst(min(len(q.items) for q in parts)),), labs))]
            h = None
            for q in parts:
                hq = hull(q.lens)
                h = hq if h is None else _imin(h, hq)

            def el(s1, isym, parts=parts):
                xs = []
                for q in parts:
                    if q.items is not None:
                        xs.append(joins(q.items))
                    else:
                        r = q.elem(s1, isym)
                        if not r:
                            return []
                        s1 = r[0][0]
                        xs.append(joins([y for _, y in r]))
                return [(s1, v(T(xs)))]

            return [(cur, It(None, el, (h if h is not None else irange(0, None),), labs))]
        if p == "rev":
            out = []
            for s, it in iterate(I, a.data[0].lab(labels), st, n):
                if it.items is not None:
                    it = It(list(reversed(it.items)), None, it.lens, it.labels)
                else:
                    e0 = it.elem

                    def el(s1, isym, e0=e0):
                        return e0(s1, None)

                    it = It(None, el, it.lens, it.labels)
                out.append((s, it))
            return out
        if p in ("items", "keys", "values"):
            return iter_dict(I, p, a.data[0], labels, st, n)
        if p in ("map", "filter"):
            out = []
            fn = a.data[0]
            for s, it in iterate(I, a.data[1].lab(labels), st, n):
                def el(s1, isym, it=it):
                    r = it.elem(s1, isym) if it.items is None else [(s1, joins(it.items))]
                    res = []
                    for s2, x in r:
                        if p == "filter":
                            if fn == NONE:
                                res.append((s2, x))
                                continue
                            for s3, y in I.call(fn, [x], {}, s2.fork(), n):
                                tt, ff = truth_split(I, y, s3)
                                if tt.a:
                                    res.append((s3, x.lab(y.l)))
                        else:
                            more = [x]
                            res += I.call(fn, more, {}, s2, n)
                    if len(res) > 1:
                        res = [(join_states([q for q, _ in res]), joins([y for _, y in res]))]
                    return res

                lens = it.lens if p == "map" else (_atmost(it.lens),)
                if p == "map" and it.items is not None and len(it.items) <= SMALL:
                    cur = [(s, [])]
                    for x in it.items:
                        nx = []
                        for s1, acc in cur:
                            for s2, y in I.call(fn, [x], {}, s1, n):
                                nx.append((s2, acc + [y]))
                        cur = nx[:4]
                    for s1, acc in cur:
                        out.append((s1, It(acc, None, it.lens, it.labels)))
                else:
                    out.append((s, It(None, el, lens, it.labels)))
            return out
        if p == "slice":
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
            return None
        return I_ext().iterate_xv(I, a, labels, st, n)
    if c is TOP:
        return [(st, It(None, constelem(v(a)), (irange(0, None),), labels))]
    if c is X:
        return [(st, It(None, constelem(I.lose("iterate " + a.path)), (irange(0, None),), labels))]
    I.raise_exc(st.fork(), "TypeError", n, implicit=True)
    return None


def iter_dict(I, p, dv, labels, st, n):
    out = []
    for a in dv.a:
        o = st.heap.get(a.addr) if a.__class__ is R else None
        if o is None or o.kind != "dict":
            out.append((st, It(None, constelem(I.lose("dict view")), (irange(0, None),), labels)))
            continue
        labs = labels | o.labels | dv.l
        if o.ents and not o.key.a and all(q for _, _, q in o.ents) and len(o.ents) <= UNROLL:
            if p == "keys":
                items = [k for k, _, _ in o.ents]
            elif p == "values":
                items = [x for _, x, _ in o.ents]
            else:
                items = [v(T((k, x))) for k, x, _ in o.ents]
            if len(items) <= SMALL or all(_consty_item(k) for k, _, _ in o.ents):
                out.append((st, It(items, None, o.lens, labs, a.addr)))
                continue

        def el(s, isym, addr=a.addr, p=p):
            oo = s.heap.get(addr)
            if oo is None:
                return []
            k, x = oo.all_keys(), oo.all_elem()
            if not k.a:
                return []
            if p == "keys":
                return [(s, k)]
            if p == "values":
                return [(s, x)]
            return [(s, v(T((k, x))))]

        out.append((st, It(None, el, o.lens, labs, a.addr)))
    return out


def _imin(a, b):
    hi = a[1] + b[1]
    lo = [x for x in a[0] if any(L.le(x, y) for y in b[0])] + [y for y in b[0] if any(L.le(y, x) for x in a[0])]
    return L.norm(tuple(lo), tuple(hi))


def _imax(a, b):
    lo = a[0] + b[0]
    hi = [x for x in a[1] if any(L.le(y, x) for y in b[1])] + [y for y in b[1] if any(L.le(x, y) for x in a[1])]
    return L.norm(tuple(lo), tuple(hi))


def _atmost(lens):
    h = hull(lens)
    return L.norm((L.ZERO,), h[1])


def as_n(x):
    """the numeric atoms of a value (booleans as 0/1)"""
    out = []
    for a in x.a:
        if a.__class__ is N:
            out.append(a)
        elif a.__class__ is C and isinstance(a.v, bool):
            out.append(N(INT, iconst(int(a.v))))
    return out


def num_hull(x):
    r = None
    for a in as_n(x):
        r = a.i if r is None else L.ijoin(r, a.i)
    return r if r is not None else L.TOPI


def range_len(lo, hi, step):
    ls = L.constval(step)
    if ls == 1:
        d = L.isub(hi, lo)
    elif ls == -1:
        d = L.isub(lo, hi)
    else:
        return irange(0, None)
    e = L.exact(d)
    if e is not None:
        if L.ge0(e):
            return ilin(e)
    if any(L.ge0(x) for x in d[0]):
        return d
    los = tuple(x for x in d[0]) + (L.ZERO,)
    his = tuple(x if L.ge0(x) else (L.ZERO if L.le(x, L.ZERO) else None) for x in d[1])
    his = tuple(x for x in his if x is not None)
    return L.norm(los, his)


def range_it(I, lo, hi, step, labels):
    li, hi_, si = num_hull(lo), num_hull(hi), num_hull(step)
    ln = range_len(li, hi_, si)
    if any(z.__class__ is TOP for z in lo.a | hi.a):
        ln = irange(0, None)
    ls = L.constval(si)
    n = L.constval(ln)
    if n is not None and n <= SMALL and L.exact(li) is not None and ls in (1, -1):
        e = L.exact(li)
        items = [numi(ilin(L.add(e, L.const(k * ls)))) for k in range(int(n))]
        return It(items, None, (ln,), labels)

    def el(s, isym):
        if ls == 1:
            r = (li[0], tuple(L.add(x, L.const(-1)) for x in hi_[1]))
            e = L.exact(li)
            if isym is not None and e is not None:
                x = L.add(e, isym)
                r = L.norm((x,) + r[0], (x,) + r[1])
        elif ls == -1:
            r = (tuple(L.add(x, L.const(1)) for x in hi_[0]), li[1])
            e = L.exact(li)
            if isym is not None and e is not None:
                x = L.sub(e, isym)
                r = L.norm((x,) + r[0], (x,) + r[1])
        else:
            r = (li[0] if ls is not None and ls > 0 else (), hi_[1] if ls is not None and ls > 0 else li[1])
        return [(s, numi(r, labels=NOLAB))]

    return It(None, el, (ln,), labels)


def I_ext():
    from . import ext

    return ext


# ------------------------------------------------------------------ lengths
def lens_of(I, a, st):
    """length alternatives of an atom, or None"""
    c = a.__class__
    if c is R:
        o = st.heap.get(a.addr)
        if o is None:
            return None
        if o.kind in ("list", "set", "frozenset", "dict", "iter"):
            return o.lens
        return None
    if c is T:
        return (iconst(len(a.items)),)
    if c is TO:
        return a.lens
    if c is C and isinstance(a.v, (str, bytes)):
        return (iconst(len(a.v)),)
    if c is S:
        return (irange(0, None),)
    if c is XV:
        if a.path == "range":
            return (range_len(num_hull(a.data[0]), num_hull(a.data[1]), num_hull(a.data[2])),)
        if a.path in ("items", "keys", "values"):
            return lens_of(I, a.data[0].one(), st) if a.data[0].one() is not None else None
        if a.path in ("iter", "rev"):
            y = a.data[0].one()
            return lens_of(I, y, st) if y is not None else None
    return None


def count_unit(i):
    """unit of a length: counting ballots is the unit N"""
    for b in i[1] + i[0]:
        if b.coef("v"):
            return (L.ZERO, 1)
    return D0


def define_len(I, a, h, st, n):
    """name the unknown length of a container by a definition symbol, so that it can be related to other quantities"""
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1):
        return h
    if a.__class__ is R:
        o = st.heap.get(a.addr)
        if o is None or a.addr[2] != "r" or o.kind not in ("list", "set", "dict", "frozenset"):
            return h
    elif not (a.__class__ is TO and isinstance(n.args[0], ast.Name)):
        return h
    if any(c.comp or (c.info is not None and c.info.is_gen) for c in I.stack):
        return h
    key = tuple((c.module, getattr(c.callnode, "lineno", 0), getattr(c.callnode, "col_offset", 0)) for c in I.stack) + (n.lineno, n.col_offset)
    s = I.defsyms.get(key)
    if s is None:
        s = I.defsyms[key] = "#%d" % (len(I.defsyms) + 1)
    else:
        s2 = subst_state(st, lambda i: L.drop_sym(i, s), s)
        st.heap = s2.heap
    e = L.sym(s)
    f = lambda i: L.norm(i[0] + (e,), i[1] + (e,))
    if a.__class__ is R:
        o = st.heap[a.addr]
        st.heap[a.addr] = o.rep(lens=tuple(f(i) for i in o.lens))
        ls = st.heap[a.addr].lens
    else:
        ls = tuple(f(L.drop_sym(i, s)) for i in a.lens)
        refine_path(I, n.args[0], v(a), v(TO(a.elem, ls, a.fl)), st)
    return hull(ls)


def assume(I, st, op, a, b):
    """use a decided comparison between exactly known integer expressions to relate definition symbols"""
    if len(a.a) != 1 or len(b.a) != 1:
        return
    x, y = a.one(), b.one()
    if x.__class__ is not N or y.__class__ is not N or not (x.kinds | y.kinds) <= {"int", "npint"}:
        return
    ex, ey = L.exact(x.i), L.exact(y.i)
    if ex is None or ey is None:
        return
    d = L.sub(ex, ey)
    if op in ("<", "<="):
        d = L.neg(d)
    elif op not in (">", ">=", "=="):
        return
    if op in ("<", ">"):
        d = L.add(d, L.const(-1))
    for s, c in d.t:
        if s[0] != "#" or c not in (1, -1):
            continue
        if op == "==":
            e = L.scale(L.sub(d, L.scale(L.sym(s), c)), -c)  # s == e
            f = lambda i: L.isubst(i, s, e, e)
            st.heap = subst_state(st, f, s).heap
            return
        # d >= 0 with d = c*s + rest:  c = 1: s >= -rest ; c = -1: s <= rest
        rest = L.sub(d, L.scale(L.sym(s), c))
        q = L.sym(s)
        if c == 1:
            f = lambda i: L.norm(i[0] + (L.neg(rest),), i[1]) if q in i[0] else i
        else:
            f = lambda i: L.norm(i[0], i[1] + (rest,)) if q in i[1] else i
        st.heap = subst_state(st, f, s).heap


def do_len(I, x, st, n):
    out = []
    acc = BOT
    for a in x.a:
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is not None and isinstance(o.cls, object) and hasattr(o.cls, "addr") and I.class_lookup(R(o.cls.addr), "__len__", st) is not None:
                for s2, m in I.getattr(v(a), "__len__", st, n):
                    out += I.call(m, [], {}, s2, n)
                continue
            if o is not None and o.kind == "ext":
                of = o.attrs.get("__of__")
                lens = {len(y.items) if y.__class__ is T else None for y in of.a} if of is not None else {None}
                acc = join(acc, num(0, None) if None in lens else num(min(lens), max(lens)))
                continue
        ls = lens_of(I, a, st)
        if ls is None:
            if a.__class__ in (TOP, X):
                acc = join(acc, v(N(INT, irange(0, None), None), labels=frozenset(("lossy",))))
            else:
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
            continue
        h = hull(ls)
        labs = x.l
        if len(x.a) == 1 and L.exact(h) is None:
            h = define_len(I, a, h, st, n)
        if a.__class__ is R:
            labs = labs | st.heap[a.addr].labels
            if "?lossy" in st.heap[a.addr].fl:
                labs = labs | {"lossy"}
        acc = join(acc, v(N(INT, L.imeet(h, irange(0, None)) if not L.nonneg(h) else h, count_unit(h)), labels=labs))
    if acc.a:
        out.append((st, acc))
    return out


# ------------------------------------------------------------------ truth
def truth_split(I, x, st):
    """(value if true, value if false)"""
    t, f = [], []
    for a in x.a:
        c = a.__class__
        if c is C:
            (t if a.v else f).append(a)
        elif c is N:
            if a.iszero():
                f.append(a)
            elif L.positive(a.i) or L.negative(a.i) or L.positive_int(a.i):
                t.append(a)
            else:
                lo = a.i[0]
                if "int" in a.kinds and len(a.kinds) == 1 and any(L.ge0(z) for z in lo):
                    t.append(N(a.kinds, L.norm(lo + (L.ONE,), a.i[1]), a.unit, a.src))
                else:
                    t.append(a)
                f.append(N(a.kinds, iconst(0), a.unit, a.src) if "float" not in a.kinds else a)
        elif c is R:
            o = st.heap.get(a.addr)
            if o is None:
                t.append(a), f.append(a)
                continue
            if o.kind == "inst":
                ln = I.class_lookup(R(o.cls.addr), "__len__", st)
                bl = I.class_lookup(R(o.cls.addr), "__bool__", st)
                t.append(a)
                if ln is not None or bl is not None:
                    f.append(a)
            elif o.kind in ("list", "set", "frozenset", "dict"):
                may_e = [i for i in o.lens if not L.positive_int(i)]
                may_n = [i for i in o.lens if L.constval(i) != 0]
                if may_n:
                    t.append(a)
                if may_e:
                    f.append(a)
            else:
                t.append(a)
        elif c is T:
            (t if a.items else f).append(a)
        elif c is TO:
            if any(not L.positive_int(i) for i in a.lens):
                f.append(a)
            if any(L.constval(i) != 0 for i in a.lens):
                t.append(a)
        elif c is S:
            t.append(a), f.append(a)
        elif c is XV and a.path == "range":
            ls = lens_of(I, a, st)
            if any(not L.positive_int(i) for i in ls):
                f.append(a)
            if any(L.constval(i) != 0 for i in ls):
                t.append(a)
        elif c is TOP or c is XV:
            t.append(a), f.append(a)
        else:
            t.append(a)
    return V(frozenset(t), x.l), V(frozenset(f), x.l)


def refine_path(I, n, old, new, st):
    """record that expression n (value old) actually has value new"""
    if n is None or old == new:
        return
    refine_status(I, old, new, st)
    if isinstance(n, ast.Name):
        set_var(I, n.id, new, st)
        # truthiness of a container refines its length
        refine_len_truth(I, old, new, st)
        return
    if isinstance(n, ast.Attribute):
        a = None
        if isinstance(n.value, ast.Name):
            a = I.lookup(n.value.id, st, n).one()
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is not None and (a.addr[2] != "s" or I.allow_summary) and n.attr in o.attrs:
                at = dict(o.attrs)
                at[n.attr] = new
                st.heap[a.addr] = o.rep(attrs=at)
        refine_len_truth(I, old, new, st)
    if isinstance(n, ast.NamedExpr):
        refine_path(I, n.target, old, new, st)


def refine_status(I, old, new, st):
    """a solver status held in a variable (or read as model.Status): refine the model that was
    optimised last"""
    if not old.a or not all(z.__class__ is X and I_ext().is_status(z.path) for z in old.a):
        return
    lo = st.heap.get(("lastopt", 0, "r"))
    if lo is None:
        return
    a = lo.elem.one()
    o = st.heap.get(a.addr) if a.__class__ is R else None
    if o is None:
        return
    for h in [a.addr] + [z.addr for z in o.attrs.get("solvers", BOT).a]:
        o = st.heap.get(h)
        if o is None:
            continue
        cur = o.attrs.get("status")
        if cur is not None and cur.a == old.a:
            d = dict(o.attrs)
            d["status"] = V(new.a, cur.l)
            st.heap[h] = o.rep(attrs=d)


def refine_len_truth(I, old, new, st):
    pass


def set_var(I, name, x, st):
    c = I.stack[-1]
    for sc in reversed(c.comp):
        if name in sc:
            o = st.heap[c.frame]
            at = dict(o.attrs)
            at[sc[name]] = x
            st.heap[c.frame] = o.rep(attrs=at)
            return
    o = st.heap.get(c.frame)
    if o is not None and name in o.attrs and (o.kind == "frame" or c.info is None):
        at = dict(o.attrs)
        at[name] = x
        st.heap[c.frame] = o.rep(attrs=at)
        return
    # closure variable: refine in the defining frame
    f = o.cls[1] if o is not None and o.kind == "frame" else None
    while f is not None:
        oo = st.heap.get(f)
        if oo is None or oo.kind != "frame":
            return
        if name in oo.cls[0].locals:
            if name in oo.attrs:
                at = dict(oo.attrs)
                at[name] = x
                st.heap[f] = oo.rep(attrs=at)
            return
        f = oo.cls[1]


# ------------------------------------------------------------------ comparisons
OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<", "in": "not in", "not in": "in",
       "is": "is not", "is not": "is"}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def compare_value(I, n, st):
    """comparisons that do not produce booleans (solver expressions, numpy)"""
    if len(n.ops) == 1 and OPS[type(n.ops[0])] in ("==", "<=", ">=", "<", ">", "!="):
        out = []
        hit = False
        res = []
        for s, a in I.ev(n.left, st.fork()):
            for s2, b in I.ev(n.comparators[0], s):
                if any(x.__class__ is XV and x.path in I_ext().EXPR for x in a.a | b.a):
                    hit = True
                    res += I_ext().compare_expr(I, OPS[type(n.ops[0])], a, b, s2, n)
                else:
                    res.append((s2, None, a, b))
        if hit:
            return [r if len(r) == 2 else (r[0], BOOL) for r in res]
    return None


def compare(I, n, st):
    """chain of comparisons: list of (state, truth, labels)"""
    res = []
    # chained comparisons: a op b op c
    cur = [(s, x, n.left, NOLAB) for s, x in I.ev(n.left, st)]
    for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
        nx = []
        last = k == len(n.ops) - 1
        for s, a, ln, l0 in cur:
            for s2, b in I.ev(rn, s):
                for s3, t, l in compare2(I, OPS[type(op)], a, b, ln, rn, s2, n):
                    if last or not t:
                        res.append((s3, t, l | l0))
                    else:
                        nx.append((s3, b, rn, l | l0))
        cur = nx
    return I.merge_cond(res)


def compare2(I, op, a, b, ln, rn, st, n):
    labs = a.l | b.l
    if not a.a or not b.a:
        return []
    if op in ("in", "not in"):
        out = []
        for s, t, l in contains(I, a, b, ln, rn, st, n):
            out.append((s, t if op == "in" else not t, l | labs))
        return out
    if op in ("is", "is not"):
        r = is_cmp(I, a, b, st)
    else:
        # user defined comparison methods
        r = rel(I, op, a, b, st, n)
    (ta, tb), (fa, fb) = r
    if op == "is not":
        (ta, tb), (fa, fb) = (fa, fb), (ta, tb)
    out = []
    tpos = bool(ta.a) and bool(tb.a)
    fpos = bool(fa.a) and bool(fb.a)
    if op not in ("is", "is not"):
        labs = labs | content_labels(a, st) | content_labels(b, st)
    if tpos:
        s1 = st.fork() if fpos else st
        refine2(I, ln, a, ta, s1, op, b)
        refine2(I, rn, b, tb, s1, FLIP.get(op, op), a)
        assume(I, s1, op, a, b)
        out.append((s1, True, labs))
    if fpos:
        refine2(I, ln, a, fa, st, NEG.get(op, op), b)
        refine2(I, rn, b, fb, st, FLIP.get(NEG.get(op, op), op), a)
        assume(I, st, NEG.get(op, op), a, b)
        out.append((st, False, labs))
    return out


def content_labels(x, st):
    out = NOLAB
    for a in x.a:
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is not None and o.kind in ("list", "set", "frozenset", "dict"):
                out = out | o.labels | o.all_elem().l | o.all_keys().l
        elif a.__class__ is T:
            for y in a.items:
                out = out | y.l
        elif a.__class__ is TO:
            out = out | a.elem.l
    return out


def refine2(I, n, old, new, st, op, other):
    if n is None:
        return
    if isinstance(n, (ast.Name, ast.Attribute, ast.NamedExpr)):
        if old != new:
            refine_path(I, n, old, new, st)
        return
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and not n.keywords:
        ni = None
        for a in as_n(new):
            ni = a.i if ni is None else L.ijoin(ni, a.i)
        if ni is None:
            return
        arg = n.args[0]
        xs = I.ev(arg, st) if isinstance(arg, (ast.Name, ast.Attribute)) else None
        if not xs or len(xs) != 1:
            return
        refine_len(I, arg, xs[0][1], ni, st)


def refine_len(I, argnode, x, ni, st):
    # follow __len__ of instances (Profile) is not attempted
    if len(x.a) == 1:
        a = x.one()
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is None or o.kind not in ("list", "set", "frozenset", "dict", "iter"):
                return
            if a.addr[2] == "s" and not I.allow_summary:
                if isinstance(argnode, ast.Name):
                    focus(I, argnode, x, ni, st)
                return
            ls = [L.imeet(i, ni) for i in o.lens]
            ls = [i for i in ls if not L.empty(i)]
            if not ls:
                return
            ch = {"lens": norm_lens(ls)}
            if all(L.constval(i) == 0 for i in ls) and o.items is None and not o.ents:
                ch["elem"] = BOT
                ch["key"] = BOT
                if o.kind == "list":
                    ch["items"] = ()
            st.heap[a.addr] = o.rep(**ch)
            return
    if isinstance(argnode, ast.Name) and focus(I, argnode, x, ni, st):
        return
    # tuple values held in variables
    out = []
    for a in x.a:
        if a.__class__ is T:
            mi = L.imeet(iconst(len(a.items)), ni)
            if L.empty(mi):
                continue
            if any(not z.is_const() for z in ni[0] if a.items) or any(not z.is_const() for z in mi[1]):
                # remember that the (constant) length equals the symbolic quantity it was compared with
                y = t_to_to(a)
                a = TO(y.elem, norm_lens([mi]), y.fl)
            out.append(a)
        elif a.__class__ is TO:
            ls = [L.imeet(i, ni) for i in a.lens]
            ls = [i for i in ls if not L.empty(i)]
            if not ls:
                continue
            out.append(TO(a.elem, norm_lens(ls), a.fl))
        elif a.__class__ is R:
            ls = lens_of(I, a, st)
            if ls is not None and all(L.empty(L.imeet(i, ni)) for i in ls):
                continue
            out.append(a)
        else:
            out.append(a)
    if out and isinstance(argnode, ast.Name):
        nv = V(frozenset(out), x.l)
        if nv != x:
            set_var(I, argnode.id, nv, st)


def focus(I, argnode, x, ni, st):
    """variable argnode holds one of several objects, and its length has just been compared: represent it
    by an object of its own with the refined length (and aliases the originals, see Interp.put)"""
    if not any(L.le(h, l) for l in ni[0] for h in ni[1]) or not x.a or not all(a.__class__ is R for a in x.a):
        return False
    cur, al = None, set()
    for a in x.a:
        o = st.heap.get(a.addr)
        if o is None or o.kind not in ("list", "set", "frozenset"):
            return False
        if cur is not None and (o.kind != cur.kind or o.cls is not cur.cls or o.owner != cur.owner):
            return False
        ls = [L.imeet(i, ni) for i in o.lens]
        ls = [i for i in ls if not L.empty(i)]
        al.add(a.addr)
        al |= o.alias
        if not ls:
            continue
        o = o.rep(lens=norm_lens(ls))
        if o.kind == "list" and o.items is not None:
            o = despecialise(o)
        cur = o if cur is None else join_obj(cur, o)
    if cur is None:
        return False
    cur = cur.rep(alias=frozenset(al))
    for z in al:
        I.focused.add(z[:2])
    owner = cur.owner
    y = I.alloc(st, argnode, cur, "focus")
    if cur.owner != owner:
        cur.owner = owner
    set_var(I, argnode.id, V(y.a, x.l), st)
    return True


def is_cmp(I, a, b, st):
    ta, tb, fa, fb = set(), set(), set(), set()
    for x in a.a:
        for y in b.a:
            t, f = True, True
            if x.__class__ is C and y.__class__ is C:
                t = x == y
                f = not t
            elif x.__class__ is TOP or y.__class__ is TOP:
                pass
            elif (x.__class__ is C and y.__class__ is not C) or (y.__class__ is C and x.__class__ is not C):
                xx, yy = (x, y) if x.__class__ is C else (y, x)
                if yy.__class__ is S and isinstance(xx.v, str):
                    pass
                elif yy.__class__ is XV and xx.v is None and yy.path.startswith("?"):
                    pass
                else:
                    t = False
            elif x.__class__ is R and y.__class__ is R:
                if x.addr != y.addr:
                    t = any(x.addr[:2] in I.focused or y.addr[:2] in I.focused or getattr(st.heap.get(z.addr), "alias", None) for z in (x, y))
                elif x.addr[2] != "s":
                    f = False
            elif x.__class__ is X and y.__class__ is X:
                t = x == y
                f = not t
            elif x.__class__ is not y.__class__:
                t = False
            if t:
                ta.add(x), tb.add(y)
            if f:
                fa.add(x), fb.add(y)
    return (V(frozenset(ta), a.l), V(frozenset(tb), b.l)), (V(frozenset(fa), a.l), V(frozenset(fb), b.l))


def rel(I, op, a, b, st, n):
    ta, tb, fa, fb = [], [], [], []
    for x in a.a:
        for y in b.a:
            r = rel_atom(I, op, x, y, st, n, a.l, b.l)
            if r[0] is not None:
                ta.append(r[0][0]), tb.append(r[0][1])
            if r[1] is not None:
                fa.append(r[1][0]), fb.append(r[1][1])
    f = lambda xs, l: V(norm_atoms(frozenset(xs)), l)
    return (f(ta, a.l), f(tb, b.l)), (f(fa, a.l), f(fb, b.l))


def numlike(x):
    if x.__class__ is N:
        return x
    if x.__class__ is C and isinstance(x.v, bool):
        return N(INT, iconst(int(x.v)))
    return None


def rel_atom(I, op, x, y, st, n, la, lb):
    """returns (true refinement (x', y') or None, false refinement or None)"""
    nx, ny = numlike(x), numlike(y)
    both = ((x, y), (x, y))
    if nx is not None and ny is not None:
        check_cmp(I, op, nx, ny, n, la, lb)
        t = rel_num(op, nx, ny)
        f = rel_num(NEG[op], nx, ny)
        back = lambda r: None if r is None else (r[0] if x is nx else x, r[1] if y is ny else y)
        return back(t), back(f)
    cx, cy = x.__class__, y.__class__
    if cx is TOP or cy is TOP:
        return both
    if cx is C and cy is C:
        try:
            r = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](x.v, y.v)
        except TypeError:
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
            return None, None
        return ((x, y), None) if r else (None, (x, y))
    if op in ("==", "!="):
        eq = None  # None unknown
        tref = (x, y)
        if (cx is C and isinstance(x.v, str) and cy is S) or (cy is C and isinstance(y.v, str) and cx is S):
            cst = x if cx is C else y
            s = y if cx is C else x
            if s.tag is not None and s.tag[0] == "not" and cst.v in s.tag[1]:
                eq = False
            else:
                tref = (cst, cst)
        elif cx is S and cy is S:
            pass
        elif cx is T and cy is T:
            if len(x.items) != len(y.items):
                eq = False
            else:
                allt, anyf = True, False
                for p, q in zip(x.items, y.items):
                    (pt, _), (pf, _) = rel(I, "==", p, q, st, n)
                    if not pt.a:
                        anyf = True
                    if pf.a:
                        allt = False
                if anyf:
                    eq = False
                elif allt:
                    eq = True
        elif cx in (T, TO) and cy in (T, TO):
            lx, ly = lens_of(I, x, st), lens_of(I, y, st)
            if all(L.empty(L.imeet(i, j)) for i in lx for j in ly):
                eq = False
        elif cx is R and cy is R:
            ox, oy = st.heap.get(x.addr), st.heap.get(y.addr)
            if ox is not None and oy is not None:
                if ox.kind in ("list", "set", "dict", "frozenset") and oy.kind in ("list", "set", "dict", "frozenset"):
                    kk = {"frozenset": "set"}
                    if kk.get(ox.kind, ox.kind) != kk.get(oy.kind, oy.kind):
                        eq = False
                    elif all(L.empty(L.imeet(i, j)) for i in ox.lens for j in oy.lens):
                        eq = False
                elif ox.kind == "inst" and oy.kind == "inst" and I.class_lookup(R(ox.cls.addr), "__eq__", st) is None:
                    if x.addr != y.addr:
                        eq = False
                    elif x.addr[2] != "s":
                        eq = True
                elif ox.kind == "ext" or oy.kind == "ext":
                    pass
                elif ox.kind != oy.kind:
                    eq = False
        elif cx is X and cy is X:
            r = I_ext().ext_eq(x.path, y.path)
            eq = (x == y) if r is None else r
        elif cx is XV or cy is XV:
            r = I_ext().xv_rel(I, op, x, y, st, n)
            if r is not None:
                return r
        elif {cx, cy} <= {C, N, S, T, TO, R, X, F, BM, P} and cx is not cy:
            if (cx in (T, TO)) and (cy in (T, TO)):
                pass
            elif cx is X or cy is X:
                eq = I_ext().status_eq(x, y) if cx is X else I_ext().status_eq(y, x)
            else:
                ox = st.heap.get(x.addr) if cx is R else (st.heap.get(y.addr) if cy is R else None)
                if ox is not None and ox.kind in ("ext",):
                    pass
                else:
                    eq = False
        tr = None if eq is False else tref
        fa = None if eq is True else (x, y)
        return (tr, fa) if op == "==" else (fa, tr)
    # ordering
    if cx is XV or cy is XV:
        r = I_ext().xv_rel(I, op, x, y, st, n)
        if r is not None:
            return r
    if {cx, cy} <= {S, C}:
        bad = [z for z in (x, y) if z.__class__ is C and not isinstance(z.v, str)]
        if bad:
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
            return None, None
        return both
    if (nx is not None or ny is not None) and {cx, cy} & {C, S, T, TO}:
        I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        return None, None
    if nx is not None or ny is not None:
        o = x if nx is None else y
        if o.__class__ is R:
            ob = st.heap.get(o.addr)
            if ob is not None and ob.kind in ("list", "dict", "set"):
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
                return None, None
    # sets: subset comparisons, tuples lexicographic: numbers inside are compared too
    if cx in (T, TO) and cy in (T, TO):
        ex = joins(x.items) if cx is T else x.elem
        ey = joins(y.items) if cy is T else y.elem
        if ex.a and ey.a:
            rel(I, op, ex, ey, st, n)
    return both


def rel_num(op, x, y):
    """refinement of numeric atoms under x op y, or None if impossible"""
    if x.kinds == INF or y.kinds == INF:
        return (x, y)
    ints = not ((x.kinds | y.kinds) - {"int", "npint", "int~"})
    xi, yi = x.i, y.i
    if op == "==":
        m = L.imeet(xi, yi)
        if L.empty(m):
            return None
        # equal constants are certain; keep kinds
        return (N(x.kinds, m, x.unit, x.src), N(y.kinds, m, y.unit, y.src))
    if op == "!=":
        ex, ey = L.exact(xi), L.exact(yi)
        if ex is not None and ex == ey:
            return None
        if ints:
            # shave endpoints
            if ey is not None:
                xi = _shave(xi, ey)
            if ex is not None:
                yi = _shave(yi, ex)
        if L.empty(xi) or L.empty(yi):
            return None
        return (N(x.kinds, xi, x.unit, x.src), N(y.kinds, yi, y.unit, y.src))
    if op in (">", ">="):
        r = rel_num({">": "<", ">=": "<="}[op], y, x)
        return None if r is None else (r[1], r[0])
    # x < y or x <= y
    d = L.const(-1) if (op == "<" and ints) else L.ZERO
    hi = tuple(L.add(h, d) for h in yi[1])
    lo = tuple(L.add(l, L.neg(d)) for l in xi[0])
    nxi = L.imeet(xi, ((), hi))
    nyi = L.imeet(yi, (lo, ()))
    if L.empty(nxi) or L.empty(nyi):
        return None
    if op == "<" and not ints:
        ex, ey = L.exact(xi), L.exact(yi)
        if ex is not None and ey is not None and L.le(ey, ex):
            return None
        if any(L.le(h, l) for h in yi[1] for l in xi[0]):
            return None
    return (N(x.kinds, nxi, x.unit, x.src), N(y.kinds, nyi, y.unit, y.src))


def _shave(i, e):
    """i without the value e (integers)"""
    lo, hi = i
    if any(L.le(e, l) for l in lo):
        lo = lo + (L.add(e, L.ONE),)
    if any(L.le(h, e) for h in hi):
        hi = hi + (L.add(e, L.const(-1)),)
    return L.norm(lo, hi)


def check_cmp(I, op, x, y, n, la, lb):
    if x.kinds & INEXACT or y.kinds & INEXACT:
        I.emit("cmp-inexact", n, op=op, l=tuple(sorted(x.kinds)), r=tuple(sorted(y.kinds)), lsrc=x.src, rsrc=y.src,
               lagg=agg_of(la), ragg=agg_of(lb), lconst=str(x.const()), rconst=str(y.const()),
               slack=("slack",) in la or ("slack",) in lb,
               infd=bool(x.kinds == INF or y.kinds == INF))
    unit_check(I, x, y, n, "compare " + op)


def agg_of(labels):
    return tuple(sorted(str(z[1]) for z in labels if z.__class__ is tuple and z[0] == "agg"))


def resolve_unit(I, u):
    if u is None or u is MIX:
        return None
    w = u[0]
    if w.t and I.unit_subst:
        ch = True
        while ch:
            ch = False
            for s, _ in w.t:
                if s in I.unit_subst:
                    w = L.subst(w, s, I.unit_subst[s])
                    ch = True
                    break
    return (w, u[1])


def polyunit(x):
    return x.iszero() or x.kinds == INF


def nonpos_plain(I, p):
    """a dimensionless number that is never positive"""
    u = resolve_unit(I, p.unit)
    return u is not None and not u[0].t and u[0].c == 0 and any(L.le(h, L.ZERO) for h in p.i[1])


def unit_check(I, x, y, n, what, sentinel=None):
    """returns the common unit; emits an event on a definite mismatch"""
    if sentinel is not None and polyunit(sentinel):
        return None
    if polyunit(x):
        return y.unit
    if polyunit(y):
        return x.unit
    ux, uy = resolve_unit(I, x.unit), resolve_unit(I, y.unit)
    if ux is None or uy is None:
        return ux or uy if (ux is None) != (uy is None) and False else None
    d = L.sub(ux[0], uy[0])
    if d.is_const() and d.c == 0 and ux[1] == uy[1]:
        return ux
    if d.t:
        # solve for a unit variable
        s, c = d.t[-1]
        if c in (1, -1):
            rest = L.sub(d, L.scale(L.sym(s), c))
            I.unit_subst[s] = L.scale(rest, -1 if c == 1 else 1)
            return resolve_unit(I, ux)
        return None
    if d.c == 0:
        # ballots vs dimensionless numbers: not a weight issue
        return ux if ux[1] else uy
    # definite mismatch of weight exponents
    if what.startswith("compare") or what == "sum":
        # negative constants are sentinels ("nothing found yet"): weight-dependent quantities are never negative
        for p, q in ((x, y), (y, x)):
            if nonpos_plain(I, p):
                return q.unit
    if sentinel is not None:
        return None if polyunit(sentinel) else sentinel.unit
    if what == "add":
        for p, q in ((x, y), (y, x)):
            if p.const() is None and nonpos_plain(I, p):
                return q.unit  # a sum of sentinels
    # tiny numerical tolerances
    for p in (x, y):
        c = p.const()
        if c is not None and abs(c) < _Fr(1, 1000):
            return (y if p is x else x).unit
    I.emit("unit-mismatch", n, what=what, left=repr(ux[0]), right=repr(uy[0]), nl=ux[1], nr=uy[1],
           lv=repr(x), rv=repr(y))
    return None


def contains(I, a, b, ln, rn, st, n):
    """a in b : list of (state, truth, labels)"""
    out = []
    batoms = list(b.a)
    for k, y in enumerate(batoms):
        s = st if k == len(batoms) - 1 else st.fork()
        c = y.__class__
        items = None
        labs = NOLAB
        if c is T:
            items = y.items
        elif c is R:
            o = s.heap.get(y.addr)
            if o is not None:
                labs = o.labels
                if o.kind == "inst":
                    r = I.class_lookup(R(o.cls.addr), "__contains__", s)
                    if r is not None:
                        for s2, m in I.getattr(v(y), "__contains__", s, n):
                            for s3, x in I.call(m, [a], {}, s2, n):
                                t, f = truth_split(I, x, s3)
                                if t.a:
                                    out.append((s3.fork() if f.a else s3, True, x.l))
                                if f.a:
                                    out.append((s3, False, x.l))
                        continue
                    res = iterate(I, v(y), s, n)
                    for s2, it in res:
                        out.append((s2.fork(), True, it.labels))
                        out.append((s2, False, it.labels))
                    continue
                if o.kind == "dict":
                    if not o.key.a and all(p for _, _, p in o.ents):
                        items = [kk for kk, _, _ in o.ents]
                    else:
                        # constant key lookup
                        r = dict_has(I, o, a, s, n)
                        if r is not None:
                            out.append((s, r, labs | a.l))
                            continue
                elif o.items is not None:
                    items = o.items
                if items is None:
                    if all(L.constval(i) == 0 for i in o.lens):
                        items = []
                    else:
                        e = o.all_keys() if o.kind == "dict" else o.all_elem()
                        labs = labs | e.l
                        (t, _), (f, _) = rel(I, "==", a, e, s, n) if e.a else ((BOT, BOT), (a, e))
                        if t.a:
                            s1 = s.fork()
                            if len(batoms) == 1:
                                refine_in(I, ln, a, t, s1)
                            out.append((s1, True, labs))
                        out.append((s, False, labs))
                        continue
        elif c is C and isinstance(y.v, str):
            xa = a.one()
            if xa.__class__ is C and isinstance(xa.v, str):
                out.append((s, xa.v in y.v, NOLAB))
                continue
            if xa.__class__ is C or xa.__class__ is N:
                I.raise_exc(s, "TypeError", n, implicit=True)
                continue
            out.append((s.fork(), True, NOLAB))
            out.append((s, False, NOLAB))
            continue
        elif c is XV and y.path in ("keys", "values"):
            dv = y.data[0]
            if y.path == "keys":
                out += contains(I, a, dv, ln, None, s, n)
                continue
            out.append((s.fork(), True, NOLAB))
            out.append((s, False, NOLAB))
            continue
        elif c is XV and y.path == "range":
            lo, hi = num_hull(y.data[0]), num_hull(y.data[1])
            step = L.constval(num_hull(y.data[2]))
            lv, hv = v(N(INT, lo)), v(N(INT, hi))
            if not as_n(a):
                out.append((s, False, NOLAB))
                continue
            (t1, _), (f1, _) = rel(I, ">=", a, lv, s, n)
            if t1.a:
                (t2, _), (f2, _) = rel(I, "<", t1, hv, s, n)
            else:
                t2, f2 = BOT, BOT
            mayt = bool(t2.a)
            nonint = any(z.__class__ is not N or not z.kinds <= {"int", "npint"} for z in a.a)
            mayf = bool(f1.a) or bool(f2.a) or step != 1 or nonint
            if mayt:
                s1 = s.fork() if mayf else s
                if isinstance(ln, ast.Name) and len(batoms) == 1:
                    set_var(I, ln.id, t2, s1)
                out.append((s1, True, y.data[0].l | y.data[1].l))
            if mayf:
                if isinstance(ln, ast.Name) and len(batoms) == 1 and not nonint:
                    set_var(I, ln.id, join(f1, f2), s)
                out.append((s, False, y.data[0].l | y.data[1].l))
            continue
        if items is not None:
            t_, f_ = BOT, a
            must = False
            for it in items:
                (t, _), (f, _) = rel(I, "==", f_, it, s, n) if f_.a else ((BOT, BOT), (BOT, BOT))
                labs = labs | it.l
                t_ = join(t_, t)
                f_ = f
            t_ = V(t_.a, a.l)
            f_ = V(f_.a, a.l)
            # strings: remember what they are not
            if any(z.__class__ is S for z in f_.a):
                cs = frozenset(z.v for it in items for z in it.a if z.__class__ is C and isinstance(z.v, str))
                if cs:
                    f_ = V(frozenset(S(("not", cs | (z.tag[1] if z.tag is not None and z.tag[0] == "not" else frozenset()))) if z.__class__ is S and (z.tag is None or z.tag[0] == "not") else z for z in f_.a), f_.l)
            if t_.a:
                s1 = s.fork() if f_.a else s
                if len(batoms) == 1:
                    refine_in(I, ln, a, t_, s1)
                out.append((s1, True, labs))
            if f_.a:
                if len(batoms) == 1:
                    refine_in(I, ln, a, f_, s)
                out.append((s, False, labs))
            continue
        if c in (N,) or (c is C and not isinstance(y.v, str)):
            I.raise_exc(s, "TypeError", n, implicit=True)
            continue
        if c is TO:
            labs = y.elem.l
            if all(L.constval(i) == 0 for i in y.lens):
                out.append((s, False, labs))
                continue
        out.append((s.fork(), True, labs))
        out.append((s, False, labs))
    return out


def refine_in(I, ln, old, new, st):
    if isinstance(ln, (ast.Name, ast.Attribute)) and old != new:
        refine_path(I, ln, old, new, st)


def dict_has(I, o, a, st, n):
    """definite membership of a constant key"""
    if len(a.a) != 1:
        return None
    for k, _, p in o.ents:
        if k.a == a.a and is_constkey(a):
            return True if p else None
    if o.key.a:
        (t, _), _f = rel(I, "==", a, o.key, st, n)
        if t.a:
            return None
    for k, _, p in o.ents:
        (t, _), _f = rel(I, "==", a, k, st, n)
        if t.a:
            return None
    return False


def is_constkey(x):
    return len(x.a) == 1 and _consty_item(x)


def anyall(I, which, g, st, n):
    """any/all over a generator expression with refinement"""
    c = I.stack[-1]
    if len(g.generators) != 1:
        out = []
        for s, lv in I.e_ListComp(g, st):
            o = s.heap[lv.one().addr]
            e = o.all_elem()
            labs = lv.l | o.labels | e.l
            t, f = truth_split(I, e, s)
            may_empty = any(not L.positive_int(i) for i in o.lens) and all(L.constval(i) != 0 or True for i in o.lens)
            nonempty = any(L.constval(i) != 0 for i in o.lens)
            if which == "any":
                if t.a and nonempty:
                    out.append((s.fork(), True, labs))
                if f.a or may_empty:
                    out.append((s, False, labs))
            else:
                if f.a and nonempty:
                    out.append((s.fork(), False, labs))
                if t.a or may_empty:
                    out.append((s, True, labs))
        return out
    gen = g.generators[0]
    names = {}

    def tn(t):
        if isinstance(t, ast.Name):
            names[t.id] = "%s#%d:%d" % (t.id, g.lineno, g.col_offset)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tn(e)

    tn(gen.target)
    out = []
    want = which == "any"

    def clean(s):
        o = s.heap[c.frame]
        if any(m in o.attrs for m in names.values()):
            s.heap[c.frame] = o.rep(attrs={k: x for k, x in o.attrs.items() if k not in names.values()})
        return s

    for s, itv in I.ev(gen.iter, st):
        for s0, it in iterate(I, itv, s, n):
            labs = it.labels
            if it.items is not None:
                cur = [(s0, NOLAB)]
                for x in it.items:
                    nx = []
                    for s1, l1 in cur:
                        c.comp.append(names)
                        try:
                            for s2 in I.assign(gen.target, x, s1):
                                rs = cond_ifs(I, gen.ifs, s2)
                                for s3, ok, l in rs:
                                    if not ok:
                                        nx.append((s3, l1 | l))
                                        continue
                                    for s4, t, l2 in I.cond(g.elt, s3):
                                        if t is want:
                                            out.append((s4, want, labs | l1 | l | l2))
                                        else:
                                            nx.append((s4, l1 | l | l2))
                        finally:
                            c.comp.pop()
                    if len(nx) > 2:
                        ll = NOLAB
                        for _, l in nx:
                            ll |= l
                        nx = [(join_states([q for q, _ in nx]), ll)]
                    cur = nx
                for s1, l1 in cur:
                    out.append((s1, not want, labs | l1))
                continue
            if all(L.constval(i) == 0 for i in it.lens):
                out.append((s0, not want, labs))
                continue
            may_empty = not all(L.positive_int(i) for i in it.lens)
            pre = s0.fork()
            hits, misses = [], []
            ll = NOLAB
            I.allow_summary += 1
            c.comp.append(names)
            try:
                for s1, x in it.elem(s0, None):
                    for s2 in I.assign(gen.target, x, s1):
                        for s3, ok, l in cond_ifs(I, gen.ifs, s2):
                            ll |= l
                            if not ok:
                                misses.append((s3, False))
                                continue
                            for s4, t, l2 in I.cond(g.elt, s3):
                                ll |= l2
                                if t is want:
                                    hits.append(s4)
                                else:
                                    misses.append((s4, True))
            finally:
                c.comp.pop()
                I.allow_summary -= 1
            labs = labs | ll
            if hits:
                # some element satisfies the predicate; others are unconstrained
                h = pre.fork()
                out.append((h, want, labs))
            if misses:
                ms = []
                for s4, strong in misses:
                    if strong and not gen.ifs and it.src is not None and isinstance(gen.target, ast.Name):
                        y = s4.heap[c.frame].attrs.get(names[gen.target.id])
                        o = s4.heap.get(it.src)
                        if y is not None and o is not None and o.kind in ("list", "set", "frozenset") and o.items is None and y.a:
                            if any(z.__class__ is not R for z in y.a):
                                s4.heap[it.src] = o.rep(elem=V(y.a, o.elem.l))
                    ms.append(s4)
                m = join_states(ms)
                if may_empty:
                    m = m  # the empty container is covered: refinement concerns no element
                out.append((m, not want, labs))
            elif may_empty:
                out.append((pre, not want, labs))
    return [(clean(s), t, l) for s, t, l in out]


def cond_ifs(I, ifs, st):
    cur = [(st, True, NOLAB)]
    for t in ifs:
        nx = []
        for s, ok, l in cur:
            if not ok:
                nx.append((s, ok, l))
                continue
            for s2, tr, l2 in I.cond(t, s):
                nx.append((s2, tr, l | l2))
        cur = nx
    return cur


# ------------------------------------------------------------------ isinstance
def type_names(I, a, st):
    """the set of Python type names (with bases) of an atom; None if unknown"""
    c = a.__class__
    if c is C:
        if a.v is None:
            return {"NoneType", "object"}
        t = type(a.v)
        return {x.__name__ for x in t.__mro__}
    if c is N:
        out = None
        for k in a.kinds:
            s = {
                "int": {"int", "object", "Number", "Integral", "Rational", "Real"}, "int~": {"int", "object", "Number", "Integral", "Real"},
                "frac": {"Fraction", "Rational", "Number", "object", "Real"}, "frac~": {"Fraction", "Rational", "Number", "object", "Real"},
                "mpq": {"mpq", "object", "Number", "Rational", "Real"}, "mpq~": {"mpq", "object", "Number", "Rational", "Real"},
                "float": {"float", "object", "Number", "Real"}, "inf": {"float", "object", "Number", "Real"},
                "npint": {"np.integer", "integer", "object", "Integral", "Number", "int64", "generic", "number"},
                "npfloat": {"floating", "float", "float64", "object", "Number", "generic", "number"},
                "dec": {"Decimal", "object", "Number"},
            }.get(k)
            if s is None:
                return None
            out = [s] if out is None else out + [s]
        return out
    if c is S:
        return {"str", "object"}
    if c in (T, TO):
        return {"tuple", "object"}
    if c in (F, BM, P):
        return {"function", "object", "method"}
    if c is R:
        o = st.heap.get(a.addr)
        if o is None:
            return None
        if o.kind in ("inst",) or hasattr(o.cls, "addr"):
            names = set()

            def walk(ci):
                names.add(("cls", ci.addr))
                names.add(ci.name)
                for b in ci.bases:
                    if b.__class__ is R:
                        oo = st.heap.get(b.addr)
                        if oo is not None and oo.kind == "cls":
                            walk(oo.cls)
                    elif b.__class__ is X:
                        nm = b.path.split(".")[-1]
                        names.add(nm)
                        names.update({"set": ["Set", "MutableSet", "Collection", "Iterable", "Container", "Sized"]}.get(nm, []))

            walk(o.cls)
            if I.class_lookup(R(o.cls.addr), "__iter__", st) is not None:
                names.add("Iterable")
            names.add("object")
            return names
        m = {"list": {"list", "Sequence", "MutableSequence"}, "set": {"set", "Set", "MutableSet"}, "frozenset": {"frozenset", "Set"},
             "dict": {"dict", "Mapping", "MutableMapping", "OrderedDict"}, "iter": {"generator", "Iterator"}}.get(o.kind)
        if m is None:
            return None
        return m | {"object", "Iterable", "Collection", "Container", "Sized"}
    if c is XV and a.path in ("range",):
        return {"range", "object", "Iterable", "Sequence"}
    return None


def isinstance_split(I, x, tv, s):
    """(atoms of x that are instances, atoms that are not)"""
    want = set()
    unknown = False
    stack = list(tv.a)
    while stack:
        a = stack.pop()
        if a.__class__ is T:
            for y in a.items:
                stack += list(y.a)
        elif a.__class__ is X:
            nm = a.path.split(".")[-1]
            want.add("np.integer" if a.path in ("numpy.integer", "np.integer") else nm)
            if a.path == "gmpy2.mpq":
                want.add("mpq")
        elif a.__class__ is XV and a.path == "typeof":
            want.add(a.data[0])
        elif a.__class__ is R:
            o = s.heap.get(a.addr)
            if o is not None and o.kind == "cls":
                want.add(("cls", o.cls.addr))
            else:
                unknown = True
        elif a.__class__ is C and a.v is None:
            want.add("NoneType")
        else:
            unknown = True
    if "float" in want:
        want.add("np-float")
    t, f = [], []
    for a in x.a:
        tn = type_names(I, a, s)
        if tn is None or unknown:
            t.append(a), f.append(a)
        elif isinstance(tn, list):
            # numeric atom with several kinds: split by kind
            kt, kf = [], []
            for k, names in zip(sorted(a.kinds), [type_names(I, N(frozenset((k,)), a.i, a.unit), s)[0] for k in sorted(a.kinds)]):
                (kt if names & want else kf).append(k)
            if kt:
                t.append(N(frozenset(kt), a.i, a.unit, a.src))
            if kf:
                f.append(N(frozenset(kf), a.i, a.unit, a.src))
        elif tn & want:
            t.append(a)
        else:
            f.append(a)
    return t, f


def isinstance_cond(I, n, st):
    out = []
    for s, vs in I.ev_list(n.args, st):
        x, tv = vs
        t, f = isinstance_split(I, x, tv, s)
        tv_, fv_ = V(frozenset(t), x.l), V(frozenset(f), x.l)
        if t:
            s1 = s.fork() if f else s
            if f:
                refine_path(I, n.args[0], x, tv_, s1)
            out.append((s1, True, x.l))
        if f:
            if t:
                refine_path(I, n.args[0], x, fv_, s)
            out.append((s, False, x.l))
    return out


from .ops import *  # noqa: E402,F401,F403
from .containers import *  # noqa: E402,F401,F403
from .ext import (call_external, call_xv, call_ext_method, call_extobj, external_attr, ext_setattr, setattr_xv,  # noqa: E402,F401
                  with_exit)
