"""Abstract values of the interpreter.

A value V is a finite set of atoms plus a set of labels (data/control provenance).
"""
from . import lin as L
from .lin import Lin, iconst, ijoin

NOLAB = frozenset()
D0 = (L.ZERO, 0)  # dimensionless: (weight exponent, ballot exponent)


class Atom:
    __slots__ = ("k", "h")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (self.h == o.h and self.__class__ is o.__class__ and self.k == o.k)


class C(Atom):
    """constant: None, True, False, str, bytes, Ellipsis"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, v)
        self.h = hash(("C",) + self.k)

    def __repr__(self):
        return repr(self.v)


MIX = "mix"  # more than one dimension


class N(Atom):
    """number. kinds: subset of int, frac, mpq, float, npint, npfloat, inf, num (unknown)
    i: interval, unit: (Lin, int) or None (unknown)"""

    __slots__ = ("kinds", "i", "unit", "src", "q")

    def __init__(self, kinds, i, unit=D0, src=None, q=None):
        self.q = q  # (numerator, denominator) of a quotient of two exactly known integer expressions
        self.kinds = kinds
        self.i = i
        self.unit = unit
        self.src = src
        self.k = (kinds, i, unit, src, q)
        self.h = hash(("N",) + self.k)

    def __repr__(self):
        u = "" if self.unit == D0 else ("~?" if self.unit is None or self.unit is MIX else "~W^%r,N^%r" % self.unit)
        return "%s%s%s" % ("/".join(sorted(self.kinds)), L.show(self.i), u)

    def iszero(self):
        return L.constval(self.i) == 0

    def const(self):
        return L.constval(self.i)


class S(Atom):
    """unknown string; tag describes its provenance (e.g. 'digits')"""

    __slots__ = ("tag",)

    def __init__(self, tag=None):
        self.tag = tag
        self.k = (tag,)
        self.h = hash(("S", tag))

    def __repr__(self):
        return "str" if self.tag is None else "str:%s" % (self.tag,)


class T(Atom):
    """tuple with exactly known items"""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)
        self.k = (self.items,)
        self.h = hash(("T", self.items))

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class TO(Atom):
    """tuple of unknown length. lens: tuple of interval alternatives; fl: frozenset of flags"""

    __slots__ = ("elem", "lens", "fl")

    def __init__(self, elem, lens, fl=NOLAB):
        self.elem = elem
        self.lens = lens
        self.fl = fl
        self.k = (elem, lens, fl)
        self.h = hash(("TO",) + self.k)

    def __repr__(self):
        return "tuple<%r>#%s%s" % (
            self.elem,
            "|".join(map(L.show, self.lens)),
            "{%s}" % ",".join(sorted(self.fl)) if self.fl else "",
        )


class R(Atom):
    """reference to heap object; addr is (site, ctx, 'r'|'s')"""

    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr
        self.k = (addr,)
        self.h = hash(("R", addr))

    def __repr__(self):
        return "@%s" % (show_addr(self.addr),)


class F(Atom):
    """function closure"""

    __slots__ = ("info", "frame")

    def __init__(self, info, frame):
        self.info = info
        self.frame = frame
        self.k = (info.uid, frame)
        self.h = hash(("F",) + self.k)

    def __repr__(self):
        return "<fn %s>" % self.info.qualname


class BM(Atom):
    """bound method: fn is an atom (F or builtin name), self a V"""

    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_
        self.k = (fn, self_)
        self.h = hash(("BM",) + self.k)

    def __repr__(self):
        return "<method %r of %r>" % (self.fn, self.self_)


class P(Atom):
    """functools.partial"""

    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn = fn
        self.args = tuple(args)
        self.kw = tuple(sorted(kw.items(), key=lambda x: x[0]))
        self.k = (fn, self.args, self.kw)
        self.h = hash(("P",) + self.k)

    def __repr__(self):
        return "<partial %r>" % (self.fn,)


class X(Atom):
    """external (library) entity, by dotted path"""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path
        self.k = (path,)
        self.h = hash(("X", path))

    def __repr__(self):
        return "<%s>" % self.path


class XV(Atom):
    """immutable external value (solver expression, file position, ...): path + payload"""

    __slots__ = ("path", "data")

    def __init__(self, path, data=()):
        self.path = path
        self.data = data
        self.k = (path, data)
        self.h = hash(("XV",) + self.k)

    def __repr__(self):
        return "<%s %r>" % (self.path, self.data)


class TOP(Atom):
    __slots__ = ("why",)

    def __init__(self, why="?"):
        self.why = why
        self.k = ()
        self.h = 77

    def __eq__(self, o):
        return o.__class__ is TOP

    __hash__ = Atom.__hash__

    def __repr__(self):
        return "T?(%s)" % (self.why,)


class V:
    __slots__ = ("a", "l", "h")

    def __init__(self, atoms, labels=NOLAB):
        self.a = atoms
        self.l = labels
        self.h = hash((atoms, labels))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (
            self.__class__ is o.__class__ and self.h == o.h and self.a == o.a and self.l == o.l
        )

    def __repr__(self):
        s = "|".join(sorted(map(repr, self.a))) or "BOT"
        return s + ("^{%s}" % ",".join(sorted(map(str, self.l))) if self.l else "")

    def lab(self, labels):
        if not labels or labels <= self.l:
            return self
        return V(self.a, self.l | labels)

    def one(self):
        if len(self.a) == 1:
            for x in self.a:
                return x
        return None


BOT = V(frozenset())


def v(*atoms, labels=NOLAB):
    return V(frozenset(atoms), labels)


NONE = v(C(None))
TRUE = v(C(True))
FALSE = v(C(False))
BOOL = v(C(True), C(False))
STR = v(S())


def top(why="?", labels=NOLAB):
    return V(frozenset((TOP(why),)), labels)


def const(x):
    if x is None or isinstance(x, (bool, str, bytes)) or x is Ellipsis:
        return v(C(x))
    if isinstance(x, int):
        return v(N(INT, iconst(x)))
    if isinstance(x, float):
        return v(fl(x))
    if isinstance(x, tuple):
        return v(T(tuple(const(y) for y in x)))
    return top("const")


INT = frozenset(("int",))
FLOAT = frozenset(("float",))
INF = frozenset(("inf",))


def fl(x, src=None):
    from fractions import Fraction

    if x != x:
        return N(FLOAT, L.TOPI)
    if x in (float("inf"), float("-inf")):
        return N(INF, L.TOPI)
    return N(FLOAT, iconst(Fraction(x)), D0, src)


def num(lo=None, hi=None, kinds=INT, unit=D0, labels=NOLAB, src=None):
    return V(frozenset((N(kinds, L.irange(lo, hi), unit, src),)), labels)


def numi(i, kinds=INT, unit=D0, labels=NOLAB):
    return V(frozenset((N(kinds, i, unit),)), labels)


MAXLENS = 4


def norm_lens(ls):
    out = []
    for i in ls:
        if i not in out:
            out.append(i)
    # drop alternatives contained in another non-exact one
    keep = []
    for i in out:
        if any(j is not i and L.ileq(i, j) and not L.ileq(j, i) for j in out) and L.exact(i) is None:
            continue
        keep.append(i)
    if len(keep) > MAXLENS:
        h = keep[0]
        for j in keep[1:]:
            h = ijoin(h, j)
        keep = [h]
    keep.sort(key=lambda i: (tuple(x.key() for x in i[0]), tuple(x.key() for x in i[1])))
    return tuple(keep)


def hull(ls):
    h = ls[0]
    for j in ls[1:]:
        h = ijoin(h, j)
    return h


RELTAGS = ("id", "sub", "disj")  # ("id", t): the content is exactly collection t; ("sub"/"disj", t): part of / disjoint from t


def rels(fl):
    """membership relations of a copy"""
    return frozenset(z for z in fl if z.__class__ is tuple and z[0] in RELTAGS)


def part_rels(fl):
    """membership relations of a selection of the elements"""
    return frozenset(("sub", z[1]) if z[0] == "id" else z for z in fl if z.__class__ is tuple and z[0] in RELTAGS)


def no_rels(fl):
    return frozenset(z for z in fl if z.__class__ is not tuple)


def join_flags(a, b):
    """must-flags intersect; may-flags (starting with '?') unite"""
    if a == b:
        return a
    return frozenset(x for x in a | b if x[0] == "?" or (x in a and x in b))


MAXSTR = 48
MAXDEPTH = 7


def depth(x):
    m = 0
    for a in x.a:
        if a.__class__ is T:
            for y in a.items:
                d = depth(y) + 1
                if d > m:
                    m = d
        elif a.__class__ is TO:
            d = depth(a.elem) + 1
            if d > m:
                m = d
    return m


_join_cache = {}


def join(a, b):
    if a is b or a == b:
        return a
    if not a.a:
        return b if a.l <= b.l else V(b.a, a.l | b.l)
    if not b.a:
        return a if b.l <= a.l else V(a.a, a.l | b.l)
    key = (a, b)
    r = _join_cache.get(key)
    if r is None:
        r = _join_cache[key] = V(norm_atoms(a.a | b.a), a.l | b.l)
        if len(_join_cache) > 200000:
            _join_cache.clear()
    return r


def norm_atoms(atoms):
    if len(atoms) <= 1:
        return frozenset(atoms)
    ns, ts, tos, strs, rest = [], [], [], [], []
    for x in atoms:
        c = x.__class__
        if c is N:
            ns.append(x)
        elif c is T:
            ts.append(x)
        elif c is TO:
            tos.append(x)
        elif c is C and isinstance(x.v, str):
            strs.append(x)
        else:
            rest.append(x)
    out = rest
    if len(ns) > 1:
        groups = {}
        for x in ns:
            k = (x.unit, x.kinds == INF)
            g = groups.get(k)
            if g is None:
                groups[k] = x
            else:
                groups[k] = N(g.kinds | x.kinds, ijoin(g.i, x.i), x.unit, g.src or x.src)
        if len(groups) > 2 and ((MIX, False) in groups or sum(not k[1] for k in groups) > 4) or len(groups) == 2 and (MIX, False) in groups:
            # too many dimensions: unknown (absorbing, so that iterations converge)
            acc = None
            for k, x in list(groups.items()):
                if not k[1]:
                    acc = N(x.kinds, x.i, MIX, x.src) if acc is None else N(acc.kinds | x.kinds, ijoin(acc.i, x.i), MIX, acc.src or x.src)
                    del groups[k]
            groups[(MIX, False)] = acc
        out += groups.values()
    else:
        out += ns
    if ts or tos:
        bylen = {}
        for x in ts:
            bylen.setdefault(len(x.items), []).append(x)
        if tos:
            # absorb everything non-empty... keep the empty tuple separate as a length alternative
            acc = tos[0]
            for y in tos[1:]:
                acc = join_to(acc, y)
            hom = True
            for n_, xs in bylen.items():
                for x in xs:
                    acc = join_to(acc, t_to_to(x))
            out.append(acc)
        else:
            if len(bylen) > 6:
                acc = None
                for xs in bylen.values():
                    for x in xs:
                        y = t_to_to(x)
                        acc = y if acc is None else join_to(acc, y)
                out.append(acc)
            else:
                for n_, xs in bylen.items():
                    if len(xs) > 12 or (len(xs) > 1 and not all(_consty(x) for x in xs)):
                        items = list(xs[0].items)
                        for x in xs[1:]:
                            items = [join(p, q) for p, q in zip(items, x.items)]
                        out.append(T(items))
                    else:
                        out += xs
    if len(strs) > MAXSTR or (strs and any(x.__class__ is S for x in out)):
        if not any(x.__class__ is S for x in out):
            out.append(S())
    else:
        out += strs
    return frozenset(out)


def _consty(t):
    return all(len(x.a) == 1 and next(iter(x.a)).__class__ is C for x in t.items)


def t_to_to(x):
    e = BOT
    for y in x.items:
        e = join(e, y)
    fl_ = frozenset(("asc", "ndup")) if len(x.items) <= 1 else NOLAB
    return TO(e, (iconst(len(x.items)),), fl_)


def join_to(a, b):
    e = join(a.elem, b.elem)
    if depth(e) > MAXDEPTH:
        e = top("deep")
    return TO(e, norm_lens(a.lens + b.lens), join_flags(a.fl, b.fl))


def joins(vs):
    r = BOT
    for x in vs:
        r = join(r, x)
    return r


def refs(x, out=None):
    """addresses referenced by a value"""
    if out is None:
        out = set()
    for a in x.a:
        c = a.__class__
        if c is R:
            out.add(a.addr)
        elif c is T:
            for y in a.items:
                refs(y, out)
        elif c is TO:
            refs(a.elem, out)
        elif c is F:
            if a.frame is not None:
                out.add(a.frame)
        elif c is BM:
            refs(a.self_, out)
            if a.fn.__class__ is F and a.fn.frame is not None:
                out.add(a.fn.frame)
        elif c is P:
            refs(a.fn, out)
            for y in a.args:
                refs(y, out)
            for _, y in a.kw:
                refs(y, out)
        elif c is XV:
            for y in a.data:
                if y.__class__ is V:
                    refs(y, out)
    return out


def mapv(x, fr, fi):
    """rebuild a value: fr maps addresses, fi maps intervals (either may be None)"""
    if not x.a:
        return x
    ch = False
    out = []
    for a in x.a:
        b = mapa(a, fr, fi)
        if b is not a:
            ch = True
        out.append(b)
    if not ch:
        return x
    return V(norm_atoms(frozenset(out)), x.l)


def mapa(a, fr, fi):
    c = a.__class__
    if c is C or c is S or c is X or c is TOP:
        return a
    if c is R:
        if fr is None:
            return a
        b = fr(a.addr)
        return a if b is a.addr or b == a.addr else R(b)
    if c is N:
        if fi is None:
            return a
        i = fi(a.i)
        return a if i is a.i or i == a.i else N(a.kinds, i, a.unit, a.src)
    if c is T:
        it = tuple(mapv(y, fr, fi) for y in a.items)
        return a if all(p is q for p, q in zip(it, a.items)) else T(it)
    if c is TO:
        e = mapv(a.elem, fr, fi)
        ls = a.lens if fi is None else norm_lens([fi(i) for i in a.lens])
        return a if e is a.elem and ls == a.lens else TO(e, ls, a.fl)
    if c is F:
        if fr is None or a.frame is None:
            return a
        b = fr(a.frame)
        return a if b == a.frame else F(a.info, b)
    if c is BM:
        s = mapv(a.self_, fr, fi)
        f = mapa(a.fn, fr, fi) if isinstance(a.fn, Atom) else a.fn
        return a if s is a.self_ and f is a.fn else BM(f, s)
    if c is P:
        f = mapv(a.fn, fr, fi)
        ar = tuple(mapv(y, fr, fi) for y in a.args)
        kw = {k: mapv(y, fr, fi) for k, y in a.kw}
        return P(f, ar, kw)
    if c is XV:
        d = tuple(mapv(y, fr, fi) if y.__class__ is V else y for y in a.data)
        return a if all(p is q for p, q in zip(d, a.data)) else XV(a.path, d)
    return a


def deep_labels(x, heap):
    return frozenset(_deep_labels(x, heap))


def _deep_labels(x, heap, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    out |= x.l
    for a in x.a:
        c = a.__class__
        if c is T:
            for y in a.items:
                _deep_labels(y, heap, out, seen)
        elif c is TO:
            _deep_labels(a.elem, heap, out, seen)
        elif c is R and a.addr not in seen:
            seen.add(a.addr)
            o = heap.get(a.addr)
            if o is not None:
                out |= o.labels
                for y in o.values():
                    _deep_labels(y, heap, out, seen)
        elif c is XV:
            for y in a.data:
                if y.__class__ is V:
                    _deep_labels(y, heap, out, seen)
    return out


def show_addr(a):
    try:
        return "%s:%s" % (a[0], a[2])
    except Exception:
        return repr(a)


class Obj:
    """abstract heap object (immutable by convention; replaced on write)

    kind: list set frozenset dict inst frame module cls iter ext
    cls:  class info (for inst / subclasses of builtins) or external path (for ext)
    attrs: dict name -> V (inst, frame, module, cls, ext)
    items: tuple of V (exact list contents) or None
    ents: tuple of (constkey, V, present: bool) for dicts with constant keys
    key, elem: V  (summary of dict keys / of elements or dict values)
    lens: length alternatives
    fl: flags     labels: structural labels    owner: 'input' | 'global' | 'fresh'
    """

    __slots__ = ("kind", "cls", "attrs", "items", "ents", "key", "elem", "lens", "fl", "labels", "owner", "_h", "birth", "alias")

    def __init__(self, kind, cls=None, attrs=None, items=None, ents=(), key=BOT, elem=BOT,
                 lens=(iconst(0),), fl=NOLAB, labels=NOLAB, owner="fresh"):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.ents = ents
        self.key = key
        self.elem = elem
        self.lens = lens
        self.fl = fl
        self.labels = labels
        self.owner = owner
        self.birth = None
        self._h = None
        self.alias = NOLAB  # addresses of the objects this one may be (see models.focus)

    def rep(self, **kw):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o._h = None
        for k, x in kw.items():
            setattr(o, k, x)
        return o

    def same(self, o):
        return self is o or (
            self.kind == o.kind and self.lens == o.lens and self.items == o.items
            and self.elem == o.elem and self.key == o.key and self.ents == o.ents
            and self.fl == o.fl and self.labels == o.labels and self.attrs == o.attrs and self.alias == o.alias
        )

    def values(self):
        for x in self.attrs.values():
            yield x
        if self.items is not None:
            for x in self.items:
                yield x
        for _, x, _p in self.ents:
            yield x
        yield self.key
        yield self.elem

    def refs(self):
        r = self._h
        if r is None:
            r = set()
            for x in self.values():
                refs(x, r)
            r |= self.alias
            self._h = r
        return r

    def map(self, fr, fi):
        return self.rep(
            attrs={k: mapv(x, fr, fi) for k, x in self.attrs.items()},
            items=None if self.items is None else tuple(mapv(x, fr, fi) for x in self.items),
            ents=tuple((k, mapv(x, fr, fi), p) for k, x, p in self.ents),
            key=mapv(self.key, fr, fi),
            elem=mapv(self.elem, fr, fi),
            lens=self.lens if fi is None else norm_lens([fi(i) for i in self.lens]),
            alias=self.alias if fr is None or not self.alias else frozenset(fr(a) for a in self.alias),
        )

    def all_elem(self):
        """join of all elements (values for dicts)"""
        e = self.elem
        if self.items is not None:
            for x in self.items:
                e = join(e, x)
        for _, x, _p in self.ents:
            e = join(e, x)
        return e

    def all_keys(self):
        e = self.key
        for k, _, _p in self.ents:
            e = join(e, k)
        return e

    def __repr__(self):
        d = {k: repr(x) for k, x in self.attrs.items()} if self.kind not in ("module", "frame") else ""
        return "Obj(%s %s items=%r ents=%r key=%r elem=%r lens=%s fl=%s %s own=%s %s)" % (
            self.kind, getattr(self.cls, "name", self.cls), self.items, self.ents, self.key, self.elem,
            "|".join(map(L.show, self.lens)), set(self.fl) or "", d, self.owner, set(self.labels) or "")


def despecialise(o):
    """forget exact items / entries: everything goes to the summary"""
    if o.items is not None:
        e = o.elem
        for x in o.items:
            e = join(e, x)
        return o.rep(items=None, elem=e)
    if o.ents:
        e, k = o.elem, o.key
        for kk, x, _p in o.ents:
            e = join(e, x)
            k = join(k, kk)
        return o.rep(ents=(), elem=e, key=k)
    return o


def join_obj(a, b):
    if a is b or a.same(b):
        return a
    if a.kind != b.kind:
        # list/iter mixes etc.: keep the first kind, merge content
        pass
    attrs = a.attrs
    if a.attrs != b.attrs:
        attrs = {}
        for k, x in a.attrs.items():
            y = b.attrs.get(k)
            attrs[k] = join(x, y) if y is not None else join(x, UNDEF)
        for k, y in b.attrs.items():
            if k not in attrs:
                attrs[k] = join(y, UNDEF)
    items = None
    ents = ()
    elem, key = a.elem, a.key
    fl_ = join_flags(a.fl, b.fl)
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y) for x, y in zip(a.items, b.items))
        elem = join(a.elem, b.elem)
    elif a.items is not None or b.items is not None:
        a = despecialise(a)
        b = despecialise(b)
        elem = join(a.elem, b.elem)
    else:
        elem = join(a.elem, b.elem)
    key = join(a.key, b.key)
    if a.ents or b.ents:
        da = {k: (x, p) for k, x, p in a.ents}
        db = {k: (x, p) for k, x, p in b.ents}
        ks = [k for k, _, _p in a.ents] + [k for k, _, _p in b.ents if k not in da]
        if len(ks) > 40:
            a, b = despecialise(a), despecialise(b)
            elem, key = join(a.elem, b.elem), join(a.key, b.key)
        else:
            out = []
            for k in ks:
                x, p = da.get(k, (None, False))
                y, q = db.get(k, (None, False))
                if x is None:
                    out.append((k, y, False))
                elif y is None:
                    out.append((k, x, False))
                else:
                    out.append((k, join(x, y), p and q))
            ents = tuple(out)
    if depth(elem) > MAXDEPTH:
        elem = top("deep")
    r = Obj(a.kind, a.cls, attrs, items, ents, key, elem, norm_lens(a.lens + b.lens), fl_,
               a.labels | b.labels, a.owner if a.owner == b.owner else "input" if "input" in (a.owner, b.owner) else "global")
    r.alias = a.alias | b.alias
    return r


UNDEF = v(X("<undef>"))
UNDEF_ATOM = X("<undef>")
