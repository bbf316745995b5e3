"""Lists, sets, dicts, strings: items, attributes and methods."""
import ast

from . import lin as L
from .lin import iconst, irange
from .state import *
from .values import *
from . import models as M

MAXITEMS = 24
MAXENTS = 60


def _ext():
    from . import ext

    return ext


def usercls(o):
    return isinstance(getattr(o.cls, "addr", None), tuple)


# ------------------------------------------------------------------ flags
def flags_of(I, x, st):
    """flags of an iterable's iteration order"""
    r = None
    for a in x.a:
        f = NOLAB
        c = a.__class__
        if c is XV and a.path == "range":
            step = L.constval(M.num_hull(a.data[2]))
            f = frozenset(("asc", "ndup")) if step == 1 else frozenset(("ndup",))
            if step == 1 and L.constval(M.num_hull(a.data[0])) == 0:
                hi = L.exact(M.num_hull(a.data[1]))
                if hi is not None and hi == L.sym("n"):
                    f = f | {"univ", "sub"}
        elif c is TO:
            f = a.fl
        elif c is T:
            f = frozenset(("asc", "ndup")) if len(a.items) < 2 else NOLAB
        elif c is R:
            o = st.heap.get(a.addr)
            if o is not None:
                f = o.fl
                if o.kind in ("set", "frozenset"):
                    f = f - {"asc"}
                    f = f | {"ndup"}
                    if any(L.le(i[1][0], L.ONE) for i in o.lens if i[1]) and len(o.lens) == 1:
                        f = f | {"asc"}
                    elif not usercls(o) or True:
                        f = f | {"?setord"}
                elif o.kind == "dict":
                    f = (f - {"asc"}) | {"ndup"}
                elif o.kind == "list" and o.items is not None and len(o.items) < 2:
                    f = f | {"asc", "ndup"}
        elif c is XV and a.path == "iter":
            f = flags_of(I, a.data[0], st)
        elif c is XV and a.path in ("keys",):
            f = frozenset(("ndup",))
        r = f if r is None else join_flags(r, f)
    return r if r is not None else NOLAB


SRTKEEP = ("univ", "sub", "ndup")


def tokens(I, x, st):
    """the identity of the current content of a container (made up when it has none)"""
    a = x.one()
    if a.__class__ is not R or a.addr[2] != "r":
        return ()
    o = st.heap.get(a.addr)
    if o is None or o.kind not in ("set", "frozenset", "list", "dict") or usercls(o) and o.kind not in ("set", "frozenset"):
        return ()
    for z in o.fl:
        if z.__class__ is tuple and z[0] == "id":
            return (z[1],)
    I.tokens += 1
    st.heap[a.addr] = o.rep(fl=o.fl | {("id", I.tokens)})
    return (I.tokens,)


def filter_rels(I, g, st):
    """[x for x in ... if x in A and x not in B]: relations of the result to A and B"""
    out = []
    todo = list(g.ifs)
    while todo:
        t = todo.pop()
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            todo += t.values
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and len(t.operand.ops) == 1:
            neg = {ast.In: ast.NotIn, ast.NotIn: ast.In}.get(t.operand.ops[0].__class__)
            if neg is not None:
                todo.append(ast.Compare(t.operand.left, [neg()], t.operand.comparators))
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            if isinstance(t.left, ast.Name) and t.left.id == g.target.id and isinstance(t.comparators[0], (ast.Name, ast.Attribute)):
                r = I.ev(t.comparators[0], st)
                if len(r) == 1:
                    out += [("sub" if isinstance(t.ops[0], ast.In) else "disj", k) for k in tokens(I, r[0][1], st)]
    return out


def comp_flags(I, me, n, st):
    """flags of a comprehension's result from its (single) source"""
    a = me.one()
    o = st.heap.get(a.addr)
    if o is None or len(n.generators) != 1:
        return
    g = n.generators[0]
    elt = getattr(n, "elt", None)
    if not (isinstance(g.target, ast.Name) and isinstance(elt, ast.Name) and elt.id == g.target.id):
        return
    it = g.iter
    if not isinstance(it, (ast.Name, ast.Attribute)) and not (
            isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"):
        return
    ph, I.phase = I.phase, I.phase
    r = I.ev(it, st.fork())
    if len(r) != 1:
        return
    f = flags_of(I, r[0][1], st)
    if g.ifs:
        f = (no_rels(f) - {"univ"}) | part_rels(f) | frozenset(("sub", t) for t in tokens(I, r[0][1], st))
        for tag, t in filter_rels(I, g, st):
            f = f | {(tag, t)}
    st.heap[a.addr] = o.rep(fl=o.fl | f)
    if not g.ifs and o.kind in ("set",):
        ls = M.norm_lens(sum((tuple(M.lens_of(I, x, st) or (irange(0, None),)) for x in r[0][1].a), ()))
        if "ndup" in f:
            st.heap[a.addr] = st.heap[a.addr].rep(lens=ls)


# ------------------------------------------------------------------ construction
def make_list(I, kind, vs, st, n):
    if kind == "list":
        return I.alloc(st, n, Obj("list", items=tuple(vs), lens=(iconst(len(vs)),)))
    e = joins(vs)
    k = len(vs)
    if k <= 1 or (all(M._consty_item(x) for x in vs) and len(set(x.a for x in vs)) == k):
        ln = (iconst(k),)
    else:
        ln = (irange(1, k),)
    return I.alloc(st, n, Obj("set", elem=e, lens=ln))


def from_iter(I, x, st, n):
    """materialise an iterable: list of (state, items|None, elem, lens, labels, flags)"""
    out = []
    fl = flags_of(I, x, st)
    for s, it in M.iterate(I, x, st, n):
        if it.items is not None:
            out.append((s, tuple(it.items), BOT, it.lens, it.labels | x.l, fl))
        else:
            r = it.elem(s, None) if not all(L.constval(i) == 0 for i in it.lens) else []
            if not r:
                out.append((s, (), BOT, (iconst(0),), it.labels | x.l, fl))
            else:
                s2 = join_states([q for q, _ in r])
                out.append((s2, None, joins([y for _, y in r]), it.lens, it.labels | x.l, fl))
    return out


def build(I, kind, x, st, n, tag="mk", extra=NOLAB):
    """list(x), set(x), tuple(x), frozenset(x) -> list of (state, V)"""
    out = []
    for s, items, elem, lens, labs, fl in from_iter(I, x, st, n):
        if kind == "tuple":
            if items is not None and len(items) <= MAXITEMS:
                out.append((s, v(T(items), labels=labs)))
            else:
                e = elem if items is None else joins(items)
                out.append((s, v(TO(e, lens, fl | extra), labels=labs)))
        elif kind == "list":
            if items is not None and len(items) > MAXITEMS:
                items, elem = None, joins(items)
            out.append((s, I.alloc(s, n, Obj("list", items=items, elem=elem, lens=lens, fl=fl | extra, labels=labs), tag).lab(NOLAB)))
        else:
            e = elem if items is None else joins(items)
            f = frozenset(z for z in fl if z in ("univ", "sub") or z[0] == "?") - {"?setord"} | rels(fl)
            if items is not None and (len(items) <= 1 or (all(M._consty_item(y) for y in items))):
                ln = (iconst(len(set(y.a for y in items))),)
            elif "ndup" in fl:
                ln = lens
            else:
                h = hull(lens)
                ln = (L.norm((L.ONE,) if all(L.positive_int(i) for i in lens) else (L.ZERO,), h[1]),)
                f = f | {"?coll"}
            if not e.a:
                ln = (iconst(0),)
            out.append((s, I.alloc(s, n, Obj(kind, elem=e, lens=ln, fl=f, labels=labs), tag)))
    if len(out) > 1:
        out = [(join_states([s for s, _ in out]), joins([y for _, y in out]))]
    return out


def container_init(I, me, kind, args, kw, st, n):
    """initialise an instance of a subclass of a builtin container"""
    a = me.one()
    if not args:
        return [st]
    out = []
    meth = {"list": "list.extend", "set": "set.update", "frozenset": "set.update", "dict": "dict.update"}[kind]
    for s, _ in call_method(I, meth, me, [args[0]], kw, st, n):
        out.append(s)
    return out


# ------------------------------------------------------------------ subscripting
def idx_const(ix):
    a = ix.one()
    m = M.numlike(a) if a is not None else None
    if m is not None:
        c = m.const()
        if c is not None and c == int(c):
            return int(c)
    return None


def slice_lens(lens, lo, hi, step):
    """lengths after slicing; lo, hi, step are V"""
    sa = step.one()
    sc = None if sa.__class__ is C and sa.v is None else idx_const(step)
    if not (sa.__class__ is C and sa.v is None) and sc not in (1, -1):
        return (L.norm((L.ZERO,), hull(lens)[1]),)
    isn = lambda x: x.one().__class__ is C and x.one().v is None
    res = []
    for l in lens:
        cur = l
        if sc == -1:
            if isn(lo) and isn(hi):
                res.append(l)
            else:
                res.append(L.norm((L.ZERO,), l[1]))
            continue
        if not isn(hi):
            h = M.num_hull(hi)
            c = L.constval(h)
            if c is not None and c < 0:
                d = L.iadd(cur, iconst(c))
                cur = d if L.nonneg(d) else L.norm((L.ZERO,), tuple(x if L.ge0(x) else L.ZERO for x in d[1] if L.ge0(x) or x.is_const()))
            elif L.nonneg(h):
                cur = M._imin(cur, h)
                if not cur[0]:
                    cur = L.norm((L.ZERO,), cur[1])
            else:
                cur = L.norm((L.ZERO,), cur[1])
        if not isn(lo):
            h = M.num_hull(lo)
            c = L.constval(h)
            if c is not None and c < 0:
                cur = M._imin(cur, iconst(-c))
            elif L.nonneg(h):
                d = L.isub(cur, h)
                if not L.nonneg(d):
                    d = L.norm((L.ZERO,), tuple(x for x in d[1] if L.ge0(x)))
                cur = d
            else:
                cur = L.norm((L.ZERO,), cur[1])
        res.append(cur)
    return norm_lens(res)


def getitem(I, ov, ix, st, n):
    out = []
    res = BOT
    labs = ov.l | ix.l
    ia = ix.one()
    for a in ov.a:
        c = a.__class__
        if c is R:
            o = st.heap.get(a.addr)
            if o is None:
                res = join(res, I.lose("dangling"))
                continue
            if usercls(o):
                r = I.class_lookup(R(o.cls.addr), "__getitem__", st)
                if r is not None:
                    for s2, m in I.getattr(v(a), "__getitem__", st, n):
                        out += I.call(m, [ix], {}, s2, n)
                    continue
            if o.kind == "ext":
                out += _ext().getitem_ext(I, a, o, ix, st, n)
                continue
            if o.kind == "list":
                if ia.__class__ is XV and ia.path == "slice":
                    lo, hi, step = ia.data
                    its = slice_items(o.items, ia) if o.items is not None else None
                    fl = no_rels(o.fl) - {"univ"} if slice_asc(ia) else frozenset(z for z in o.fl if z[0] == "?" or z in ("ndup", "sub"))
                    fl = fl | part_rels(o.fl)
                    nl = slice_lens(o.lens, lo, hi, step) if its is None else (iconst(len(its)),)
                    e = BOT if its is not None else o.all_elem()
                    if its is None and all(L.constval(i) == 0 for i in nl):
                        its, e = (), BOT
                    out.append((st, I.alloc(st, n, Obj("list", items=its, elem=e, lens=nl, fl=fl, labels=o.labels | lo.l | hi.l), "slice")))
                    continue
                res = join(res, seq_get(I, o.items, o.elem, o.lens, ix, st, n).lab(o.labels))
                continue
            if o.kind == "dict":
                res = join(res, dict_get(I, a, o, ix, st, n).lab(o.labels))
                continue
            if o.kind in ("set", "frozenset", "inst", "cls", "module"):
                if o.kind == "cls":
                    res = join(res, v(a))
                else:
                    I.raise_exc(st.fork(), "TypeError", n, implicit=True)
                continue
            res = join(res, I.lose("getitem " + o.kind))
        elif c in (T, TO):
            items = a.items if c is T else None
            elem = BOT if c is T else a.elem
            lens = (iconst(len(a.items)),) if c is T else a.lens
            if ia.__class__ is XV and ia.path == "slice":
                its = slice_items(items, ia) if items is not None else None
                if its is not None:
                    res = join(res, v(T(its)))
                else:
                    e = elem if items is None else joins(items)
                    fl = (a.fl if c is TO else NOLAB)
                    rl = part_rels(fl)
                    if not slice_asc(ia):
                        fl = frozenset(z for z in fl if z[0] == "?" or z == "ndup")
                    fl = no_rels(fl) | rl
                    nl = slice_lens(lens, *ia.data)
                    if all(L.constval(i) == 0 for i in nl):
                        res = join(res, v(T(())))
                    else:
                        res = join(res, v(TO(e, nl, fl), labels=ia.data[0].l | ia.data[1].l))
                continue
            res = join(res, seq_get(I, items, elem, lens, ix, st, n))
        elif c is C and isinstance(a.v, str):
            k = idx_const(ix)
            if k is not None and -len(a.v) <= k < len(a.v):
                res = join(res, const(a.v[k]))
            else:
                sl = slice_items(a.v, ia) if ia.__class__ is XV and ia.path == "slice" else None
                res = join(res, const(sl) if sl is not None else STR)
        elif c is S:
            t = a.tag
            if ia.__class__ is XV and ia.path == "slice":
                lo, hi, step = ia.data
                kl = idx_const(lo)
                if t is not None and t[0] == "sfx" and kl == len(t[1]) and hi == NONE and step == NONE:
                    res = join(res, v(S(("rest", t[1]))))
                    continue
            res = join(res, STR)
        elif c is XV:
            if a.path == "range":
                lo, hi = M.num_hull(a.data[0]), M.num_hull(a.data[1])
                k = idx_const(ix)
                if k is not None and k >= 0:
                    res = join(res, numi(L.iadd(lo, iconst(k))))
                else:
                    res = join(res, numi((lo[0], tuple(L.add(x, L.const(-1)) for x in hi[1]))))
            else:
                out += _ext().getitem_xv(I, a, ix, st, n)
        elif c is TOP:
            res = join(res, v(a))
        elif c is X:
            res = join(res, _ext().getitem_x(I, a, ix, st, n))
        else:
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
    if res.a:
        out.append((st, res.lab(labs)))
    if len(out) > 1:
        out = [(join_states([s for s, _ in out]), joins([y for _, y in out]))]
    return [(s, y.lab(labs)) for s, y in out]


def slice_asc(ia):
    step = ia.data[2].one()
    return (step.__class__ is C and step.v is None) or idx_const(ia.data[2]) == 1


def slice_items(items, ia):
    if ia.__class__ is not XV:
        return None
    ks = []
    for x in ia.data:
        if x.one().__class__ is C and x.one().v is None:
            ks.append(None)
        else:
            k = idx_const(x)
            if k is None:
                return None
            ks.append(k)
    return items[slice(*ks)]


def seq_get(I, items, elem, lens, ix, st, n):
    k = idx_const(ix)
    if not any(M.numlike(z) is not None or z.__class__ in (TOP, X) for z in ix.a):
        I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        return BOT
    if k is not None:
        if items is not None:
            if -len(items) <= k < len(items):
                return items[k]
            I.raise_exc(st.fork(), "IndexError", n, implicit=True)
            return BOT
        need = k + 1 if k >= 0 else -k
        if all(any(L.lt(h, L.const(need)) for h in i[1]) for i in lens):
            I.raise_exc(st.fork(), "IndexError", n, implicit=True)
            return BOT
        if not all(any(L.le(L.const(need), lo) for lo in i[0]) for i in lens):
            I.emit("maybe-index", n, index=k, lens=repr(tuple(map(L.show, lens))))
        return elem
    if items is not None:
        if not items:
            I.raise_exc(st.fork(), "IndexError", n, implicit=True)
        return joins(items)
    return elem


def dict_get(I, a, o, ix, st, n):
    """o[ix] with KeyError when definitely absent"""
    if M.is_constkey(ix):
        for k, x, p in o.ents:
            if k.a == ix.a:
                if not p and not factory(o):
                    I.emit("maybe-key", n, key=repr(ix))
                r = x
                if not p and factory(o):
                    r = join(r, default_value(I, a, o, st, n, ix))
                return r
    acc = BOT
    for k, x, p in o.ents:
        (t, _), _f = M.rel(I, "==", ix, k, st, n)
        if t.a:
            acc = join(acc, x)
    if o.key.a:
        (t, _), _f = M.rel(I, "==", ix, o.key, st, n)
        if t.a:
            acc = join(acc, o.elem)
    f = factory(o)
    if f:
        d = default_value(I, a, o, st, n, ix)
        return join(acc, d)
    if not acc.a:
        I.raise_exc(st.fork(), "KeyError", n, implicit=True)
    return acc


def factory(o):
    return o.attrs.get("__factory__")


def default_value(I, a, o, st, n, ix):
    fv = factory(o)
    if fv is None or fv == NONE:
        return BOT
    r = I.call(fv, [], {}, st, n)
    x = joins([y for _, y in r])
    for s, _ in r:
        if s is not st:
            st.heap.update(s.heap)
    # defaultdict stores the value
    setitem(I, v(a), ix, x, st, n)
    return x


def setitem(I, ov, ix, x, st, n, aug=None):
    """list of states"""
    out = []
    x = x.lab(st.pc)
    strong = len(ov.a) == 1
    user = 0
    for a in ov.a:
        c = a.__class__
        if c is R:
            o = st.heap.get(a.addr)
            if o is None:
                continue
            if usercls(o):
                r = I.class_lookup(R(o.cls.addr), "__setitem__", st)
                if r is not None:
                    user += 1
                    for s2, m in I.getattr(v(a), "__setitem__", st if strong else st.fork(), n):
                        for s3, _ in I.call(m, [ix, x], {}, s2, n):
                            out.append(s3)
                    continue
            if o.kind == "ext":
                _ext().setitem_ext(I, a, o, ix, x, st, n)
                continue
            if o.kind == "list":
                k = idx_const(ix)
                labs = o.labels
                if o.items is not None and k is not None and strong and a.addr[2] != "s" and -len(o.items) <= k < len(o.items):
                    its = list(o.items)
                    its[k] = x
                    I.put(st, a.addr, o.rep(items=tuple(its), fl=o.fl - {"asc"}), n, "item assignment")
                elif ix.one().__class__ is XV and ix.one().path == "slice":
                    for s2, items, elem, lens, l2, fl in from_iter(I, x, st, n):
                        e = join(o.all_elem(), elem if items is None else joins(items))
                        I.put(st, a.addr, despecialise(o).rep(items=None, elem=e, lens=(irange(0, None),), fl=NOLAB, labels=o.labels | l2), n, "slice assignment")
                        break
                else:
                    if o.items is not None:
                        its = tuple(join(y, x) for y in o.items)
                        I.put(st, a.addr, o.rep(items=its, fl=o.fl - {"asc", "ndup"}), n, "item assignment")
                    else:
                        I.put(st, a.addr, o.rep(elem=join(o.elem, x), fl=o.fl - {"asc", "ndup"}), n, "item assignment")
                continue
            if o.kind == "dict":
                I.put(st, a.addr, dict_set(I, o, ix, x, strong and a.addr[2] != "s", st, n, aug), n, "item assignment")
                continue
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        elif c in (T, TO, C, S, N):
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        elif c is X and I.phase == "call":
            I.emit("external-write", n, target=a.path, name="[]")
    if not user:
        return [st]
    return [st] + out if len(ov.a) > user else out


def key_flags(ix):
    """canonicality of a tuple used as key"""
    f = NOLAB
    for a in ix.a:
        if a.__class__ is TO:
            f = f | frozenset(z for z in a.fl if z[0] == "?")
            if "asc" not in a.fl:
                f = f | {"?noncanon"}
        elif a.__class__ is T:
            for y in a.items:
                f = f | key_flags(y)
    return f


def note_key(I, ix, n, what):
    f = key_flags(ix)
    if f:
        I.emit("key-order", n, flags=tuple(sorted(f)), what=what)


def dict_set(I, o, ix, x, strong, st, n, aug=None):
    labs = o.labels | ix.l
    note_key(I, ix, n, "dict")
    if M.is_constkey(ix) and (not o.key.a or any(k.a == ix.a for k, _, _ in o.ents)) :
        ents = list(o.ents)
        for j, (k, y, p) in enumerate(ents):
            if k.a == ix.a:
                ents[j] = (k, x if strong else join(y, x), p or strong)
                ln = o.lens if p else tuple(o.lens)
                if not p:
                    ln = (ijoin(hull(o.lens), L.iadd(hull(o.lens), iconst(1))),)
                return o.rep(ents=tuple(ents), lens=ln)
        if len(ents) < MAXENTS:
            ents.append((V(ix.a, NOLAB), x, strong))
            ln = norm_lens([L.iadd(i, iconst(1)) for i in o.lens])
            if not strong:
                ln = norm_lens(o.lens + ln)
            return o.rep(ents=tuple(ents), lens=ln)
        o = despecialise(o)
    ents = []
    for k, y, p in o.ents:
        (t, _), _f = M.rel(I, "==", ix, k, st, n)
        ents.append((k, join(y, x) if t.a else y, p))
    lens = o.lens
    up = norm_lens([L.iadd(i, iconst(1)) for i in lens])
    if aug is not None and not factory(o) and not usercls(o) and o.cls is None:
        # d[k] += x has just read d[k]: the key is there; a sole value is replaced
        nl = norm_lens([L.imeet(i, irange(1, None)) if not L.positive_int(i) else i for i in lens])
        sole = strong and not ents and all(L.constval(i) == 1 for i in nl)
        return o.rep(ents=tuple(ents), key=join(o.key, ix), elem=x if sole else join(o.elem, x), lens=nl, labels=labs, fl=o.fl | key_flags(ix))
    if all(L.constval(i) == 0 for i in lens):
        nl = up if strong else norm_lens(lens + up)
    else:
        h = ijoin(hull(lens), hull(up))
        if not L.positive_int(h) and strong:
            h = L.imeet(h, irange(1, None))
        nl = (h,)
    return o.rep(ents=tuple(ents), key=join(o.key, ix), elem=join(o.elem, x), lens=nl, labels=labs,
                 fl=o.fl | key_flags(ix))


def delitem(I, ov, ix, st, n):
    for a in ov.a:
        if a.__class__ is not R:
            continue
        o = st.heap.get(a.addr)
        if o is None:
            continue
        if usercls(o) and I.class_lookup(R(o.cls.addr), "__delitem__", st) is not None:
            out = []
            for s2, m in I.getattr(v(a), "__delitem__", st, n):
                for s3, _ in I.call(m, [ix], {}, s2, n):
                    out.append(s3)
            return out
        if o.kind == "dict":
            I.put(st, a.addr, dict_del(I, o, ix, len(ov.a) == 1 and a.addr[2] != "s", st, n), n, "del item")
        elif o.kind == "list":
            k = idx_const(ix)
            if o.items is not None and k is not None and -len(o.items) <= k < len(o.items) and a.addr[2] != "s":
                its = list(o.items)
                del its[k]
                I.put(st, a.addr, o.rep(items=tuple(its), lens=(iconst(len(its)),)), n, "del item")
            elif k is None and ix.one().__class__ is XV and ix.one().path == "slice":
                rest = slice_rest(ix.one())
                for s2, kept in getitem(I, v(a), rest, st.fork(), n) if rest is not None else ():
                    q = s2.heap[kept.one().addr] if kept.one().__class__ is R else None
                    if q is not None and q.kind == "list":
                        I.put(st, a.addr, o.rep(items=q.items, elem=q.elem, lens=q.lens, fl=q.fl, labels=q.labels), n, "del item")
                        break
                else:
                    I.put(st, a.addr, shrink(o, None), n, "del item")
            else:
                I.put(st, a.addr, shrink(o, 1 if k is not None else None), n, "del item")
    return [st]


def slice_rest(a):
    """the slice of what `del x[a]` leaves in x (None: not a slice)"""
    lo, hi, step = a.data
    if step != NONE:
        return None
    if hi == NONE:
        return v(XV("slice", (NONE, lo, NONE)))
    if lo == NONE:
        return v(XV("slice", (hi, NONE, NONE)))
    return None


def dict_del(I, o, ix, strong, st, n):
    if M.is_constkey(ix) and strong:
        for j, (k, y, p) in enumerate(o.ents):
            if k.a == ix.a:
                ents = o.ents[:j] + o.ents[j + 1:]
                ln = norm_lens([L.iadd(i, iconst(-1)) for i in o.lens]) if p else (L.ijoin(hull(o.lens), L.iadd(hull(o.lens), iconst(-1))),)
                return o.rep(ents=ents, lens=ln)
    h = hull(o.lens)
    lens = norm_lens([down(i) for i in o.lens])
    return o.rep(lens=lens, labels=o.labels | ix.l, ents=tuple((k, y, False) for k, y, p in o.ents))


def down(i):
    d = L.iadd(i, iconst(-1))
    if not L.nonneg(d):
        d = L.norm((L.ZERO,), d[1])
    return d


def shrink(o, k):
    o = despecialise(o)
    if k == 1:
        return o.rep(lens=norm_lens([down(i) for i in o.lens]), fl=o.fl - {"univ"})
    return o.rep(lens=(L.norm((L.ZERO,), hull(o.lens)[1]),), fl=o.fl - {"univ"})


# ------------------------------------------------------------------ attributes
LIST_M = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "index", "count", "copy", "clear",
          "__len__", "__contains__", "__getitem__", "__setitem__", "__iter__", "__init__"}
SET_M = {"add", "update", "remove", "discard", "pop", "clear", "copy", "union", "intersection", "difference",
         "symmetric_difference", "issubset", "issuperset", "isdisjoint", "intersection_update", "difference_update",
         "symmetric_difference_update", "__len__", "__contains__", "__iter__", "__init__", "__or__", "__and__", "__sub__"}
DICT_M = {"get", "setdefault", "update", "pop", "popitem", "items", "keys", "values", "copy", "clear", "most_common",
          "elements", "subtract", "move_to_end", "__len__", "__contains__", "__getitem__", "__setitem__", "__iter__", "__init__"}
STR_M = {m for m in dir(str)}
TUP_M = {"index", "count", "__len__", "__contains__", "__iter__", "__getitem__"}


def obj_attr(I, a, o, name, st, n, labels):
    k = o.kind
    if k == "ext":
        return _ext().extobj_attr(I, a, o, name, st, n)
    if k in ("list", "iter") and name in LIST_M or k == "iter" and name in ("__next__", "close", "send"):
        return v(BM(("list." if k == "list" else "iter.") + name, v(a, labels=labels)))
    if k in ("set", "frozenset") and name in SET_M:
        if k == "frozenset" and (name.endswith("update") or name in ("add", "remove", "discard", "pop", "clear")):
            I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
            return BOT
        return v(BM("set." + name, v(a, labels=labels)))
    if k == "dict" and name in DICT_M:
        return v(BM("dict." + name, v(a, labels=labels)))
    if name == "__class__":
        if usercls(o):
            return v(R(o.cls.addr))
        return v(X("builtins." + ("set" if k == "set" else k)))
    if k in ("list", "set", "frozenset", "dict", "inst"):
        I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
        return BOT
    return I.lose("attr %s.%s" % (k, name))


def value_attr(I, a, name, st, n, labels):
    c = a.__class__
    if (c is C and isinstance(a.v, str)) or c is S:
        if name in STR_M:
            return v(BM("str." + name, v(a, labels=labels)))
        I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
        return BOT
    if c in (T, TO):
        if name in TUP_M:
            return v(BM("tuple." + name, v(a, labels=labels)))
        I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
        return BOT
    if c is N:
        if name in ("numerator", "denominator"):
            return v(N(INT, irange(1 if name == "denominator" else None, None), a.unit if name == "numerator" else D0))
        if name in ("real",):
            return v(a)
        return v(BM("num." + name, v(a, labels=labels)))
    if c is XV:
        if a.path == "property" and name in ("setter", "getter", "deleter"):
            return v(BM("property." + name, v(a)))
        if a.path == "super":
            return super_attr(I, a, name, st, n)
        if a.path in ("keys", "values", "items") and name in ("isdisjoint",):
            return v(BM("view." + name, v(a)))
        if a.path == "range" and name in ("start", "stop", "step"):
            return a.data[("start", "stop", "step").index(name)]
        if a.path == "cached":
            if name in ("cache_clear", "cache_info"):
                return v(X("functools." + name))
            if name == "__wrapped__":
                return a.data[0]
        if a.path == "exc":
            if name == "args":
                return v(T(tuple(a.data[1:])))
            return STR
        return _ext().xv_attr(I, a, name, st, n)
    if c is C and a.v is None:
        I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
        return BOT
    if c in (BM, P):
        if name == "func" and c is P:
            return a.fn
        if name == "__self__" and c is BM:
            return a.self_
        return STR if name in ("__name__", "__doc__", "__qualname__") else I.lose("attr of method")
    if c is C and isinstance(a.v, bool):
        return v(BM("num." + name, v(a, labels=labels)))
    return I.lose("attr %s of %s" % (name, c.__name__))


def super_attr(I, a, name, st, n):
    selfv, addr = a.data
    if addr is None:
        return I.lose("super")
    o = st.heap.get(addr)
    if o is None:
        return I.lose("super")
    for b in o.cls.bases:
        if b.__class__ is R:
            r = I.class_lookup(b, name, st)
            if r is not None:
                bs = I.bind(r[0], selfv, v(R(addr)), st, n)
                return joins([x for _, x in bs])
            bb = I.builtin_base(st.heap[b.addr].cls, st) if st.heap.get(b.addr) is not None else None
            if bb:
                return v(BM(bb.split(".")[-1] + "." + name, selfv))
        elif b.__class__ is X:
            return v(BM(b.path.split(".")[-1] + "." + name, selfv))
    return v(BM("object." + name, selfv))


def class_attr(I, a, o, name, st, n):
    if name == "__name__":
        return const(o.cls.name)
    bb = I.builtin_base(o.cls, st)
    if bb:
        return v(X(bb + "." + name))
    if name == "__new__":
        return v(X("builtins.object.__new__"))
    I.raise_exc(st.fork(), "AttributeError", n, implicit=True)
    return BOT


def class_decorator(I, d, addr, st, n):
    nm = ast.unparse(d)
    o = st.heap[addr]
    if "dataclass" in nm:
        fields = []
        for s in n.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append(s.target.id)
        at = dict(o.attrs)
        at["__dataclass__"] = v(T([const(f) for f in fields]))
        at["__frozen__"] = const("frozen=True" in nm.replace(" ", ""))
        st.heap[addr] = o.rep(attrs=at)
    elif nm.split("(")[0].split(".")[-1] in ("unique", "total_ordering", "final"):
        return
    else:
        I.lose("class decorator " + nm)


def dataclass_init(I, a, o, me, args, kw, st, n):
    fields = [x.one().v for x in o.attrs["__dataclass__"].one().items]
    at = {}
    for f, x in zip(fields, args):
        at[f] = x
    for k, x in kw.items():
        at[k] = x
    for f in fields:
        if f not in at:
            if f in o.attrs:
                d = o.attrs[f]
                z = d.one()
                if z.__class__ is XV and z.path == "dcfield":
                    if z.data[0] != NONE:
                        r = I.call(z.data[0], [], {}, st, n)
                        d = joins([y for _, y in r])
                    else:
                        d = z.data[1]
                at[f] = d
            else:
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
                return []
    ob = st.heap[me.one().addr]
    st.heap[me.one().addr] = ob.rep(attrs=at)
    return [(st, me)]


# ------------------------------------------------------------------ methods
def call_method(I, meth, selfv, args, kw, st, n):
    kind, name = meth.split(".", 1)
    if kind in ("list", "set", "frozenset", "dict", "iter") and args and any(a.__class__ is tuple for a in args):
        # star arguments of unknown length
        args = [a if a.__class__ is V else a[1] for a in args]
    out = []
    atoms = list(selfv.a)
    for k, a in enumerate(atoms):
        s = st
        if kind in ("list", "set", "frozenset", "dict", "iter") and a.__class__ is R:
            o = s.heap.get(a.addr)
            if o is None:
                out.append((s, I.lose("dangling")))
                continue
            f = {"list": list_method, "set": set_method, "frozenset": set_method, "dict": dict_method, "iter": list_method}[kind]
            r = f(I, name, a, o, selfv, args, kw, s, n, len(atoms) == 1)
            out += r if r is not None else [(s, I.lose("method " + meth))]
        elif kind == "str":
            out += str_method(I, name, a, selfv, args, kw, s, n)
        elif kind == "tuple":
            if name == "index":
                out.append((s, num(0, None)))
            elif name == "count":
                out.append((s, num(0, None)))
            else:
                r = generic_dunder(I, name, v(a), args, s, n)
                out += r
        elif kind == "num":
            out += _ext().num_method(I, name, a, args, kw, s, n)
        elif kind == "view":
            out.append((s, BOOL))
        elif kind == "object":
            if name == "__setattr__" and len(args) == 2 and args[0].one().__class__ is C:
                for s2 in I.setattr(v(a), args[0].one().v, args[1], s, n):
                    out.append((s2, NONE))
            elif name in ("__init__", "__init_subclass__", "__enter__", "__exit__"):
                out.append((s, NONE))
            elif name in ("__repr__", "__str__"):
                out.append((s, STR))
            else:
                out.append((s, I.lose("object." + name)))
        elif a.__class__ is TOP:
            out.append((s, v(a)))
        else:
            out += _ext().other_method(I, kind, name, a, selfv, args, kw, s, n)
    if len(out) > 1:
        out = [(join_states([s for s, _ in out]), joins([y for _, y in out]))]
    return out


def generic_dunder(I, name, x, args, st, n):
    if name == "__len__":
        return M.do_len(I, x, st, n)
    if name == "__contains__":
        r = M.contains(I, args[0], x, None, None, st, n)
        return [(join_states([s for s, _, _ in r]), V(frozenset(C(t) for _, t, _ in r), joins_l([l for _, _, l in r])))]
    if name == "__iter__":
        return [(st, v(XV("iter", (x,))))]
    if name == "__getitem__":
        return getitem(I, x, args[0], st, n)
    if name == "__setitem__":
        return [(s, NONE) for s in setitem(I, x, args[0], args[1], st, n)]
    return [(st, I.lose("dunder " + name))]


def joins_l(ls):
    r = NOLAB
    for l in ls:
        r = r | l
    return r


def upd(I, st, a, o, n, why):
    I.put(st, a.addr, o, n, why)


def list_method(I, name, a, o, selfv, args, kw, st, n, single):
    labs = o.labels | selfv.l
    if name == "append":
        x = args[0].lab(st.pc)
        if o.items is not None and len(o.items) < MAXITEMS and a.addr[2] != "s" and single:
            its = o.items + (x,)
            upd(I, st, a, o.rep(items=its, lens=(iconst(len(its)),), fl=NOLAB if len(its) > 1 else o.fl), n, "append")
        else:
            if not single or (o.items is not None and a.addr[2] == "s"):
                pass
            o2 = despecialise(o)
            lens = norm_lens([L.iadd(i, iconst(1)) for i in o2.lens])
            if not single:
                lens = norm_lens(lens + o2.lens)
            keep = frozenset(z for z in o.fl if z[0] == "?")
            upd(I, st, a, o2.rep(elem=join(o2.elem, x), lens=lens, fl=keep), n, "append")
        return [(st, NONE)]
    if name in ("extend",):
        out = []
        for s, items, elem, lens, l2, fl in from_iter(I, args[0], st, n):
            oo = s.heap[a.addr]
            if items is not None and oo.items is not None and len(items) + len(oo.items) <= MAXITEMS and single and a.addr[2] != "s":
                its = oo.items + tuple(y.lab(s.pc) for y in items)
                upd(I, s, a, oo.rep(items=its, lens=(iconst(len(its)),), labels=oo.labels | l2, fl=oo.fl if not items else fl if not oo.items else NOLAB), n, "extend")
            else:
                e = elem if items is None else joins(items)
                o2 = despecialise(oo)
                nl = norm_lens([L.iadd(i, j) for i in o2.lens for j in lens])
                if all(L.constval(i) == 0 for i in o2.lens):
                    f = fl
                elif all(L.constval(i) == 0 for i in lens):
                    f = o2.fl
                else:
                    f = frozenset(z for z in o2.fl | fl if z[0] == "?")
                if not single:
                    nl = norm_lens(nl + o2.lens)
                upd(I, s, a, o2.rep(elem=join(o2.elem, e.lab(s.pc)), lens=nl, labels=o2.labels | l2, fl=f), n, "extend")
            out.append((s, NONE))
        return out
    if name == "insert":
        o2 = despecialise(o)
        upd(I, st, a, o2.rep(elem=join(o2.elem, args[1].lab(st.pc)), lens=norm_lens([L.iadd(i, iconst(1)) for i in o2.lens]),
                             fl=frozenset(z for z in o.fl if z[0] == "?")), n, "insert")
        return [(st, NONE)]
    if name == "pop":
        k = -1 if not args else idx_const(args[0])
        if o.items is not None and k is not None and single and a.addr[2] != "s":
            if not (-len(o.items) <= k < len(o.items)):
                I.raise_exc(st, "IndexError", n, implicit=True)
                return []
            its = list(o.items)
            x = its.pop(k)
            upd(I, st, a, o.rep(items=tuple(its), lens=(iconst(len(its)),)), n, "pop")
            return [(st, x.lab(labs))]
        x = o.all_elem()
        if not x.a:
            I.raise_exc(st, "IndexError", n, implicit=True)
            return []
        upd(I, st, a, shrink(o, 1), n, "pop")
        return [(st, x.lab(labs))]
    if name == "remove":
        upd(I, st, a, shrink(o.rep(labels=o.labels | args[0].l), 1), n, "remove")
        return [(st, NONE)]
    if name in ("sort", "reverse"):
        e = despecialise(o)
        if name == "sort":
            if kw.get("key", NONE) == NONE:
                compare_elems(I, e.all_elem(), st, n)
                f = frozenset(z for z in o.fl if z[0] == "?" or z in SRTKEEP) - {"?setord", "?cat"} | rels(o.fl)
                f = f | {"asc"} if kw.get("reverse", FALSE) == FALSE else f
            else:
                e1 = e.all_elem()
                kx = call_key(I, kw["key"], e1, st, n)
                _ext().note_order(I, kx, n, "sort-key", st)
                f = o.fl - {"asc"}
                kp = kw["key"].one()
                if kp.__class__ is X and kp.path == "builtins.str":
                    f = f | {"strsorted"}
                    for z in e1.a:
                        if z.__class__ is R and st.heap.get(z.addr) is not None and st.heap[z.addr].kind in ("set", "frozenset"):
                            sc = I.class_lookup(R(st.heap[z.addr].cls.addr), "__str__", st) if usercls(st.heap[z.addr]) else None
                            if sc is None:
                                I.emit("sort-setrepr", n)
        else:
            f = o.fl - {"asc"}
        if o.items is not None and len(o.items) <= 1:
            return [(st, NONE)]
        upd(I, st, a, e.rep(fl=f), n, name)
        return [(st, NONE)]
    if name == "index":
        return [(st, numi(L.norm((L.ZERO,), tuple(L.add(h, L.const(-1)) for h in hull(o.lens)[1])), labels=labs | o.all_elem().l | args[0].l))]
    if name == "count":
        M.rel(I, "==", args[0], o.all_elem(), st, n) if o.all_elem().a else None
        return [(st, numi(L.norm((L.ZERO,), hull(o.lens)[1]), labels=labs | o.all_elem().l | args[0].l))]
    if name == "copy":
        return [(st, I.alloc(st, n, o.rep(owner="fresh", cls=None, attrs={}), "copy"))]
    if name == "clear":
        upd(I, st, a, o.rep(items=() if o.kind == "list" else None, elem=BOT, lens=(iconst(0),), fl=NOLAB), n, "clear")
        return [(st, NONE)]
    if name == "__init__":
        return [(s, NONE) for s in container_init(I, v(a), "list", args, kw, st, n)]
    if name in ("__next__", "send"):
        x = o.all_elem()
        return [(st, x.lab(labs))] if x.a else []
    if name == "close":
        return [(st, NONE)]
    return generic_dunder(I, name, v(a, labels=selfv.l), args, st, n)


def compare_elems(I, e, st, n):
    """elements are compared with each other (min/max/sort): report inexact orderings"""
    for x in e.a:
        if x.__class__ is T:
            for y in x.items:
                compare_elems(I, y, st, n)


def call_key(I, fn, x, st, n):
    """apply a key function abstractly; returns the key value"""
    if not x.a or fn == NONE:
        return x
    s = st.fork()
    r = I.call(fn, [x], {}, s, n)
    return joins([y for _, y in r])


def set_method(I, name, a, o, selfv, args, kw, st, n, single):
    labs = o.labels | selfv.l
    strong = single and a.addr[2] != "s"
    if name == "add":
        x = args[0].lab(st.pc)
        e = o.all_elem()
        may = not e.a
        if e.a:
            (t, _), _f = M.rel(I, "==", x, e, st, n)
            may = bool(t.a)
            new = not t.a
        else:
            new = True
        up = norm_lens([L.iadd(i, iconst(1)) for i in o.lens])
        if new and strong:
            nl = up
        else:
            h = ijoin(hull(o.lens), hull(up))
            if strong and not L.positive_int(h):
                h = L.imeet(h, irange(1, None))
            nl = (h,)
            if strong and grows(I, n, o):
                nl = up
        fl = frozenset(z for z in o.fl if z[0] == "?" or z == "sub") - {"univ"}
        note_key(I, x, n, "set")
        upd(I, st, a, o.rep(elem=join(e, x), items=None, lens=nl, fl=fl | key_flags(x)), n, "add")
        marks = frozenset(z for z in o.fl if z[0] == "grow" and loopvar(I, n, z[1]))
        if marks and strong:
            st.heap[a.addr] = st.heap[a.addr].rep(fl=st.heap[a.addr].fl | marks)
        return [(st, NONE)]
    if name in ("update", "union", "intersection", "difference", "symmetric_difference", "intersection_update",
                "difference_update", "symmetric_difference_update", "__or__", "__and__", "__sub__"):
        op = {"update": "|", "union": "|", "__or__": "|", "intersection": "&", "__and__": "&", "intersection_update": "&",
              "difference": "-", "difference_update": "-", "__sub__": "-"}.get(name, "^")
        inpl = name.endswith("update")
        cur = [(st, o)]
        if len(args) == 0 and not inpl:
            return [(st, I.alloc(st, n, o.rep(owner="fresh", cls=None, attrs={}), "copy"))]
        toks = {}
        if op in "-&" and not inpl:
            toks["me"] = tokens(I, v(a), st)
            o = st.heap[a.addr]
        for x in args:
            nx = []
            tx = tokens(I, x, st) if op in "-&" and len(x.a) == 1 else ()
            for s, oo in cur:
                for s2, y in build(I, "set", x, s, n, "tmpset"):
                    q = None
                    for z in y.a:
                        q = s2.heap[z.addr] if q is None else join_obj(q, s2.heap[z.addr])
                    from .ops import set_binop
                    e, lens = set_binop(I, op, oo, q)
                    fl = frozenset(z for z in (oo.fl | q.fl if op in "|^" else oo.fl) if z[0] == "?")
                    if op in "-&":
                        fl = fl | part_rels(oo.fl) | frozenset(("disj" if op == "-" else "sub", t) for t in tx)
                        fl = fl | frozenset(("sub", t) for t in toks.get("me", ()))
                        if "sub" in oo.fl:
                            fl = fl | {"sub"}
                    nx.append((s2, oo.rep(items=None, elem=e.lab(s2.pc), lens=lens, labels=oo.labels | q.labels | x.l, fl=fl)))
            cur = nx
        out = []
        for s, oo in cur:
            if inpl:
                if not single:
                    oo = join_obj(oo, o)
                upd(I, s, a, oo, n, name)
                out.append((s, NONE))
            else:
                out.append((s, I.alloc(s, n, oo.rep(owner="fresh", cls=None, attrs={}), "setop")))
        return out
    if name in ("remove", "discard"):
        o2 = o.rep(items=None, elem=o.all_elem(), labels=o.labels | args[0].l)
        lens = norm_lens([down(i) for i in o.lens])
        if name == "discard":
            lens = (ijoin(hull(o.lens), hull(lens)),)
        upd(I, st, a, o2.rep(lens=lens, fl=o.fl - {"univ"}), n, name)
        return [(st, NONE)]
    if name == "pop":
        x = o.all_elem()
        if not x.a:
            I.raise_exc(st, "KeyError", n, implicit=True)
            return []
        if not all(any(L.le(h, L.ONE) for h in i[1]) for i in o.lens):
            x = x.lab(frozenset((("setpop", I.site(n)),)))
        upd(I, st, a, shrink(o, 1), n, "pop")
        return [(st, x.lab(labs))]
    if name == "clear":
        upd(I, st, a, o.rep(elem=BOT, lens=(iconst(0),), fl=NOLAB), n, "clear")
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, n, o.rep(owner="fresh", cls=None, attrs={}), "copy"))]
    if name in ("issubset", "issuperset", "isdisjoint"):
        l2 = labs | args[0].l | o.all_elem().l
        t, f = True, True
        if name == "issubset":
            if all(L.constval(i) == 0 for i in o.lens):
                f = False
        l2 = l2 | M.content_labels(args[0], st)
        return [(st, V(frozenset(C(b) for b, ok in ((True, t), (False, f)) if ok), l2))]
    if name == "__init__":
        return [(s, NONE) for s in container_init(I, v(a), "set", args, kw, st, n)]
    return generic_dunder(I, name, v(a, labels=selfv.l), args, st, n)


def loopvar(I, n, mark):
    """the argument of this call is the variable of the loop with this mark"""
    if not (isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.Name)):
        return False
    return (mark, n.args[0].id) in I.stack[-1].grow


def grows(I, n, o):
    return any(z.__class__ is tuple and z[0] == "new" and loopvar(I, n, z[1]) for z in o.fl)


def dict_method(I, name, a, o, selfv, args, kw, st, n, single):
    labs = o.labels | selfv.l
    strong = single and a.addr[2] != "s"
    if name in ("items", "keys", "values"):
        return [(st, v(XV(name, (v(a),)), labels=labs))]
    if name in ("get", "setdefault", "pop"):
        key = args[0]
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE if name != "pop" else BOT)
        has = M.dict_has(I, o, key, st, n)
        found = BOT
        if has is not False:
            for k, x, p in o.ents:
                (t, _), _f = M.rel(I, "==", key, k, st, n)
                if t.a:
                    found = join(found, x)
            if o.key.a:
                (t, _), _f = M.rel(I, "==", key, o.key, st, n)
                if t.a:
                    found = join(found, o.elem)
        r = found if has is True else join(found, dflt)
        if name == "setdefault" and has is not True:
            for s in setitem(I, v(a), key, r, st, n):
                st = s
        if name == "pop":
            if not r.a:
                I.raise_exc(st, "KeyError", n, implicit=True)
                return []
            if has is not False:
                upd(I, st, a, dict_del(I, o, key, strong, st, n), n, "pop")
        return [(st, r.lab(labs | key.l))]
    if name == "update":
        out = [st]
        for x in args:
            nx = []
            for s in out:
                nx += dict_update(I, a, x, s, n)
            out = nx
        for k, x in kw.items():
            nx = []
            for s in out:
                nx += setitem(I, v(a), STR if k == "**" else const(k), x, s, n)
            out = nx
        return [(s, NONE) for s in out]
    if name == "popitem":
        k, x = o.all_keys(), o.all_elem()
        if not k.a:
            I.raise_exc(st, "KeyError", n, implicit=True)
            return []
        upd(I, st, a, shrink(o, 1), n, "popitem")
        return [(st, v(T((k, x)), labels=labs))]
    if name == "copy":
        return [(st, I.alloc(st, n, o.rep(owner="fresh", cls=None), "copy"))]
    if name == "clear":
        upd(I, st, a, o.rep(ents=(), key=BOT, elem=BOT, lens=(iconst(0),), fl=NOLAB), n, "clear")
        return [(st, NONE)]
    if name == "most_common":
        e = v(T((o.all_keys(), o.all_elem())))
        return [(st, I.alloc(st, n, Obj("list", elem=e, lens=(L.norm((L.ZERO,), hull(o.lens)[1]),), labels=labs), "mc"))]
    if name == "elements":
        return [(st, v(XV("keys", (v(a),)), labels=labs))]
    if name == "__init__":
        return [(s, NONE) for s in container_init(I, v(a), "dict", args, kw, st, n)]
    if name == "move_to_end":
        return [(st, NONE)]
    return generic_dunder(I, name, v(a, labels=selfv.l), args, st, n)


def dict_update(I, a, x, st, n):
    out = []
    for y in x.a:
        if y.__class__ is R and st.heap.get(y.addr) is not None and st.heap[y.addr].kind == "dict":
            q = st.heap[y.addr]
            ss = [st]
            for k, val, p in q.ents:
                nx = []
                for s in ss:
                    if p:
                        nx += setitem(I, v(a), k, val, s, n)
                    else:
                        s2 = s.fork()
                        nx.append(join_state(s, setitem(I, v(a), k, val, s2, n)[0]))
                ss = nx
            if q.key.a:
                for s in ss:
                    oo = s.heap[a.addr]
                    if not oo.key.a and not oo.ents:
                        I.put(s, a.addr, oo.rep(key=q.key, elem=q.elem, lens=q.lens, labels=oo.labels | q.labels, fl=oo.fl | q.fl), n, "update")
                    else:
                        h = L.iadd(hull(oo.lens), hull(q.lens))
                        h = L.norm(hull(oo.lens)[0] + hull(q.lens)[0], h[1])
                        I.put(s, a.addr, oo.rep(key=join(oo.key, q.key), elem=join(oo.elem, q.elem),
                                                ents=tuple((k, join(z, q.elem), p) for k, z, p in oo.ents), lens=(h,),
                                                labels=oo.labels | q.labels, fl=oo.fl | q.fl), n, "update")
            out += ss
            continue
        for s, it in M.iterate(I, v(y, labels=x.l), st, n):
            if it.items is not None:
                ss = [s]
                for z in it.items:
                    nx = []
                    for s1 in ss:
                        k, val = pair(I, z, s1)
                        nx += setitem(I, v(a), k, val, s1, n)
                    ss = nx
                out += ss
            else:
                for s1, z in it.elem(s, None) or []:
                    k, val = pair(I, z, s1)
                    if not k.a:
                        k = val = I.lose("dict pairs")
                    oo = s1.heap[a.addr]
                    h = hull(it.lens)
                    lens = (L.norm((L.ZERO,), L.iadd(hull(oo.lens), h)[1]),)
                    I.put(s1, a.addr, oo.rep(key=join(oo.key, k), elem=join(oo.elem, val), lens=lens, labels=oo.labels | it.labels,
                                             fl=oo.fl | key_flags(k)), n, "update")
                    out.append(s1)
                if not it.elem(s.fork(), None):
                    out.append(s)
    if len(out) > 1:
        out = [join_states(out)]
    return out or [st]


def pair(I, z, st):
    k, x = BOT, BOT
    for t in z.a:
        if t.__class__ is T and len(t.items) == 2:
            k, x = join(k, t.items[0]), join(x, t.items[1])
        elif t.__class__ is TO:
            k, x = join(k, t.elem), join(x, t.elem)
        elif t.__class__ is R:
            o = st.heap.get(t.addr)
            if o is not None:
                if o.items is not None and len(o.items) == 2:
                    k, x = join(k, o.items[0]), join(x, o.items[1])
                else:
                    k, x = join(k, o.all_elem()), join(x, o.all_elem())
        else:
            k, x = join(k, v(t)), join(x, v(t))
    return k, x


def str_method(I, name, a, selfv, args, kw, st, n):
    labs = selfv.l
    for x in args:
        if x.__class__ is V:
            labs = labs | x.l
    for x in kw.values():
        labs = labs | x.l
    cargs = []
    for x in args:
        y = x.one() if x.__class__ is V else None
        if y.__class__ is C and (isinstance(y.v, str) or y.v is None):
            cargs.append(y.v)
        elif y.__class__ is N and y.kinds == INT and y.const() is not None:
            cargs.append(int(y.const()))
        elif y.__class__ is T and all(z.one().__class__ is C for z in y.items):
            cargs.append(tuple(z.one().v for z in y.items))
        else:
            cargs = None
            break
    if a.__class__ is C and isinstance(a.v, str) and cargs is not None and not kw and name != "join":
        try:
            r = getattr(a.v, name)(*cargs)
        except Exception as e:
            I.raise_exc(st, type(e).__name__, n, implicit=True)
            return []
        if isinstance(r, list):
            return [(st, I.alloc(st, n, Obj("list", items=tuple(const(x) for x in r), lens=(iconst(len(r)),)), "split").lab(labs))]
        if isinstance(r, tuple):
            return [(st, v(T([const(x) for x in r]), labels=labs))]
        return [(st, const(r).lab(labs))]
    if name == "join":
        for s, items, elem, lens, l2, fl in from_iter(I, args[0], st, n):
            labs = labs | l2
            its = items if items is not None else (elem,)
            for x in its:
                labs = labs | x.l
            if items is not None and a.__class__ is C and all(x.one().__class__ is C and isinstance(x.one().v, str) for x in items):
                return [(s, V(const(a.v.join(x.one().v for x in items)).a, labs))]
            return [(s, V(STR.a, labs))]
        return [(st, V(STR.a, labs))]
    if name in ("startswith", "endswith"):
        if a.__class__ is S and a.tag is not None and a.tag[0] == "pre" and name == "startswith" and cargs and isinstance(cargs[0], str):
            if a.tag[1].startswith(cargs[0]):
                return [(st, TRUE.lab(labs))]
            if not cargs[0].startswith(a.tag[1][: len(cargs[0])]):
                return [(st, FALSE.lab(labs))]
        return [(st, BOOL.lab(labs))]
    if name in ("isdigit", "isnumeric", "isalpha", "isspace", "islower", "isupper", "isidentifier", "isdecimal", "isalnum"):
        return [(st, BOOL.lab(labs))]
    if name in ("split", "rsplit", "splitlines"):
        return [(st, I.alloc(st, n, Obj("list", elem=STR.lab(labs), lens=(irange(1, None),)), "split").lab(labs))]
    if name in ("partition", "rpartition"):
        return [(st, v(T([STR, STR, STR]), labels=labs))]
    if name in ("find", "rfind", "index", "rindex", "count", "__len__"):
        return [(st, num(-1 if "find" in name else 0, None, labels=labs))]
    if name == "encode":
        return [(st, STR.lab(labs))]
    if name == "format":
        return [(st, V(STR.a, labs))]
    if name in ("__contains__",):
        return [(st, BOOL.lab(labs))]
    if name in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "title", "capitalize", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "casefold", "expandtabs"):
        return [(st, V(STR.a, labs))]
    return [(st, V(STR.a, labs | {"lossy"}))]
