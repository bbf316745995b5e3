"""Abstract program state: heap + program-counter labels."""
from . import lin as L
from .values import *


class State:
    __slots__ = ("heap", "pc", "lossy")

    def __init__(self, heap=None, pc=NOLAB):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def fork(self):
        return State(dict(self.heap), self.pc)

    def get(self, addr):
        return self.heap.get(addr)


def join_state(a, b):
    if a is b:
        return a
    h = dict(a.heap)
    ah = a.heap
    for k, o in b.heap.items():
        p = ah.get(k)
        if p is None:
            h[k] = o
        elif p is not o:
            h[k] = join_obj(p, o)
    return State(h, a.pc | b.pc)


def join_states(ss):
    r = ss[0]
    for s in ss[1:]:
        r = join_state(r, s)
    return r


def leq_value(a, b):
    """a subsumed by b (b is a join including a)"""
    return join(a, b) == b


def absorbed(new, old):
    return all(any(L.ileq(i, j) for j in old) for i in new)


def widen_value(old, new):
    """old: previous head value, new = join(old, back)"""
    if old == new:
        return old
    olds = {}
    for x in old.a:
        if x.__class__ is N:
            olds[(x.unit, x.kinds == INF)] = x
    out = []
    for x in new.a:
        c = x.__class__
        if c is N:
            o = olds.get((x.unit, x.kinds == INF))
            if o is not None and o.i != x.i:
                x = N(x.kinds, L.iwiden(o.i, x.i), x.unit, x.src)
        elif c is TO:
            o = [y for y in old.a if y.__class__ is TO]
            o2 = [t_to_to(y) for y in old.a if y.__class__ is T]
            if len(o) == 1:
                ls = x.lens
                if absorbed(ls, o[0].lens):
                    ls = o[0].lens
                elif ls != o[0].lens:
                    ls = (L.iwiden(hull(o[0].lens), hull(x.lens)),)
                x = TO(widen_value(o[0].elem, x.elem), ls, x.fl)
            elif o2:
                x = TO(x.elem, (hull(x.lens),), x.fl)
        elif c is T:
            o = [y for y in old.a if y.__class__ is T and len(y.items) == len(x.items)]
            if len(o) == 1 and o[0] != x:
                x = T(widen_value(p, q) for p, q in zip(o[0].items, x.items))
        elif c is XV:
            pass
        out.append(x)
    # many tuple lengths growing: collapse
    ts = [x for x in out if x.__class__ is T]
    tl = set(len(x.items) for x in ts)
    oldtl = set(len(x.items) for x in old.a if x.__class__ is T)
    if len(tl) > 2 and tl - oldtl:
        acc = None
        for x in ts:
            y = t_to_to(x)
            acc = y if acc is None else join_to(acc, y)
        for x in out:
            if x.__class__ is TO:
                acc = join_to(acc, x)
        out = [x for x in out if x.__class__ not in (T, TO)] + [acc]
    return V(norm_atoms(frozenset(out)), new.l)


def widen_obj(old, new):
    if old is new or old.same(new):
        return new
    attrs = {k: (widen_value(old.attrs[k], x) if k in old.attrs else x) for k, x in new.attrs.items()}
    lens = new.lens
    if absorbed(lens, old.lens):
        lens = old.lens
    elif lens != old.lens:
        if len(old.lens) == 1 and len(new.lens) == 1:
            lens = (L.iwiden(old.lens[0], new.lens[0]),)
        else:
            lens = (L.iwiden(hull(old.lens), hull(new.lens)),)
    items = new.items
    if items is not None and old.items is not None and len(items) == len(old.items):
        items = tuple(widen_value(p, q) for p, q in zip(old.items, items))
    oe = {k: x for k, x, p in old.ents}
    ents = tuple((k, widen_value(oe[k], x) if k in oe else x, p) for k, x, p in new.ents)
    return new.rep(
        attrs=attrs, lens=lens, items=items, ents=ents,
        key=widen_value(old.key, new.key), elem=widen_value(old.elem, new.elem),
    )


def widen_state(old, new):
    h = {}
    for k, o in new.heap.items():
        p = old.heap.get(k)
        h[k] = o if p is None or p is o else widen_obj(p, o)
    return State(h, new.pc)


def state_eq(a, b):
    if a.pc != b.pc or len(a.heap) != len(b.heap):
        return False
    for k, o in a.heap.items():
        p = b.heap.get(k)
        if p is None:
            return False
        if p is not o and not p.same(o):
            return False
    return True


def map_state(s, fr, fi):
    return State({(k if fr is None else fr(k)): o.map(fr, fi) for k, o in s.heap.items()}, s.pc)


def has_sym_val(x, s):
    for a in x.a:
        c = a.__class__
        if c is N:
            if any(l.coef(s) for l in a.i[0]) or any(l.coef(s) for l in a.i[1]):
                return True
        elif c is T:
            if any(has_sym_val(y, s) for y in a.items):
                return True
        elif c is TO:
            if has_sym_val(a.elem, s) or any(
                any(l.coef(s) for l in i[0]) or any(l.coef(s) for l in i[1]) for i in a.lens
            ):
                return True
        elif c is XV:
            if any(y.__class__ is V and has_sym_val(y, s) for y in a.data):
                return True
        elif c is BM:
            if has_sym_val(a.self_, s):
                return True
        elif c is P:
            if any(has_sym_val(y, s) for y in a.args) or any(has_sym_val(y, s) for _, y in a.kw):
                return True
    return False


def has_sym_obj(o, s):
    for i in o.lens:
        if any(l.coef(s) for l in i[0]) or any(l.coef(s) for l in i[1]):
            return True
    return any(has_sym_val(x, s) for x in o.values())


def subst_state(s, fi, symname):
    """apply interval map fi to all objects mentioning symname (in place copy)"""
    h = s.heap
    out = None
    for k, o in h.items():
        if has_sym_obj(o, symname):
            if out is None:
                out = dict(h)
            out[k] = o.map(None, fi)
    return s if out is None else State(out, s.pc)
