"""Operators: arithmetic with kinds, units and intervals; concatenation; set algebra."""
import ast
from fractions import Fraction as _Fr

from . import lin as L
from .lin import iconst, irange
from .state import *
from .values import *
from . import models as M

OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "|": "or", "&": "and", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}


def kind_result(op, p, q):
    """kind of p op q"""
    if p == "num" or q == "num":
        return "num"
    if "inf" in (p, q):
        return "inf" if op in "+-*" else "float"
    ex = {"int~": "int", "frac~": "frac", "mpq~": "mpq"}
    tilde = p in ex or q in ex
    p, q = ex.get(p, p), ex.get(q, q)
    if p in ("float", "npfloat") or q in ("float", "npfloat"):
        return "npfloat" if "npfloat" in (p, q) else "float"
    if "dec" in (p, q):
        return "dec"
    if op == "/" and {p, q} <= {"int", "npint"}:
        return "npfloat" if "npint" in (p, q) else "float"
    if "mpq" in (p, q):
        r = "mpq"
    elif "frac" in (p, q):
        r = "frac"
    elif "npint" in (p, q):
        r = "npint"
    else:
        r = "int"
    if op == "//" and r in ("mpq", "frac"):
        r = "int"
    return r + "~" if tilde and r in ("int", "frac", "mpq") else r


def _sentinel(op, x, y, la, lb):
    """max(..) + 1, min(..) - 1: a value beyond all others (the constant only has to be positive)"""
    for c, other, lab in ((x, y, lb), (y, x, la)):
        z = c.const()
        if z is None or z == 0 or (c is x and op == "-"):
            continue
        up = (z > 0) == (op == "+")
        if ("ext", "max" if up else "min") in lab:
            return other
    return None


def known(x):
    return x.unit is not None and x.unit is not MIX


def num_op(I, op, x, y, st, n, la=NOLAB, lb=NOLAB):
    """x, y: N atoms; returns N or None when it always raises"""
    kinds = frozenset(kind_result(op, p, q) for p in x.kinds for q in y.kinds)
    src = x.src or y.src
    if op in ("/",) and "float" in kinds and not (x.kinds | y.kinds) & {"float"}:
        src = I.site(n)
    if op == "**" and not (x.kinds | y.kinds) & M.INEXACT:
        # integer power: only a negative exponent leaves the exact numbers
        if not L.nonneg(y.i) and kinds <= {"int"}:
            kinds = kinds | FLOAT
            src = I.site(n)
    unit = None
    i = L.TOPI
    inf = x.kinds == INF or y.kinds == INF
    if op in ("+", "-"):
        unit = M.unit_check(I, x, y, n, "add", _sentinel(op, x, y, la, lb))
        i = L.iadd(x.i, y.i) if op == "+" else L.isub(x.i, y.i)
    elif op == "*":
        if M.polyunit(x) or M.polyunit(y):
            unit = D0
        elif known(x) and known(y):
            unit = (L.add(x.unit[0], y.unit[0]), x.unit[1] + y.unit[1])
        i = iconst(0) if not inf and (x.const() == 0 or y.const() == 0) else L.imul(x.i, y.i)
        for z, w in ((x, y), (y, x)):
            if z.q is not None and z.q[1] == L.exact(w.i):
                # (a / b) * b: exactly a, up to rounding if computed with floats
                e = () if kinds <= {"int", "frac", "mpq"} else (L.const(_Fr(1, 10**9)),)
                i = ((L.sub(z.q[0], *e) if e else z.q[0],), (L.add(z.q[0], *e) if e else z.q[0],))
        if not L.nonneg(i) and L.nonneg(x.i) and L.nonneg(y.i):
            i = L.imeet(i, irange(0, None))
        if not (kinds <= {"int", "npint", "int~"}) and i[0] == (L.ONE,):
            # the lower bound 1 for products of two numbers >= 1 holds for reals too
            pass
    elif op in ("/", "//", "%"):
        cy = y.const()
        zero = cy == 0
        if zero:
            I.raise_exc(st.fork(), "ZeroDivisionError", n)
            return None
        if not inf and not (L.positive(y.i) or L.negative(y.i) or L.positive_int(y.i)):
            z = L.imeet(y.i, iconst(0))
            if not L.empty(z) and not (y.kinds & {"num"}):
                I.emit("maybe-zero-div", n, den=repr(y))
        if known(x) and known(y):
            unit = x.unit if M.polyunit(x) else (L.sub(x.unit[0], y.unit[0]), x.unit[1] - y.unit[1])
        if op == "%":
            unit = x.unit
        ex, ey = L.exact(x.i), L.exact(y.i)
        cx = x.const()
        if op == "/":
            if cy is not None and cy != 0:
                i = L.iscale(x.i, _Fr(1) / _Fr(cy))
            elif ex is not None and ex == ey:
                i = iconst(1)
            elif L.nonneg(x.i) and (L.positive(y.i) or L.nonneg(y.i)):
                i = irange(0, None)
                if L.positive(x.i) or L.positive_int(x.i):
                    i = ((L.const(_Fr(1, 10**9)),), ())
                if any(L.le(L.ONE, z) for z in y.i[0]):
                    i = L.norm(i[0], x.i[1])
            if cx is not None and cy is not None and cx % cy == 0 and all(isinstance(z, int) for z in (cx, cy)):
                i = iconst(cx // cy)
        elif op == "//":
            if cx is not None and cy is not None:
                i = iconst(cx // cy)
            elif L.nonneg(x.i) and L.nonneg(y.i):
                i = L.norm((L.ZERO,), x.i[1] if any(L.le(L.ONE, z) for z in y.i[0]) else ())
        else:
            if cx is not None and cy is not None and all(isinstance(z, int) for z in (cx, cy)):
                i = iconst(cx % cy)
            elif L.nonneg(y.i):
                hi = y.i[1]
                if kinds <= {"int", "npint"}:
                    hi = tuple(L.add(h, L.const(-1)) for h in hi)
                i = L.norm((L.ZERO,), hi)
    elif op == "**":
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None and abs(cy) < 64 and (cx != 0 or cy >= 0):
            try:
                r = _Fr(cx) ** int(cy) if cy == int(cy) else None
                if r is not None:
                    i = iconst(int(r) if r.denominator == 1 else r)
            except Exception:
                pass
        elif L.nonneg(x.i):
            i = irange(0, None)
        if x.unit == D0:
            unit = D0
        elif known(x) and cy is not None and cy == int(cy):
            unit = (L.scale(x.unit[0], int(cy)), x.unit[1] * int(cy))
    elif op in ("|", "&", "^", "<<", ">>"):
        unit = D0
        i = irange(0, None) if L.nonneg(x.i) and L.nonneg(y.i) else L.TOPI
    if inf:
        unit = D0
    return N(kinds, i, unit, src, quot(x, y) if op == "/" else None)


def quot(x, y):
    ex, ey = L.exact(x.i), L.exact(y.i)
    if ex is None or ey is None or not ey.t:
        return None
    if any(s[0] == "#" or s in L.COUNTERS for s, _ in ex.t + ey.t):
        return None
    return ex, ey


def binop(I, op, a, b, st, n):
    o = OPN[op.__class__]
    res = BOT
    out = []
    labs = a.l | b.l
    nums = []
    for x in a.a:
        for y in b.a:
            nx, ny = M.numlike(x), M.numlike(y)
            if nx is not None and ny is not None:
                r = num_op(I, o, nx, ny, st, n, a.l, b.l)
                if r is not None:
                    nums.append(r)
                continue
            for s2, r in bin_atom(I, o, x, y, a, b, st, n):
                if s2 is st:
                    res = join(res, r)
                else:
                    out.append((s2, r.lab(labs)))
    if nums:
        res = join(res, V(norm_atoms(frozenset(nums)), NOLAB))
        if o in ("+", "-") and (_tiny(a) or _tiny(b)):
            labs = labs | SLACK
    if res.a:
        out.append((st, res.lab(labs)))
    elif not out and not a.a or not b.a:
        return [(st, V(frozenset(), labs))] if not out else out
    if len(out) > 1:
        out = [(join_states([s for s, _ in out]), joins([r for _, r in out]))]
    return out


SLACK = frozenset((("slack",),))


def _tiny(x):
    """a numerical tolerance: non-zero constants below 1/1000"""
    if not x.a:
        return False
    for z in x.a:
        c = z.const() if z.__class__ is N else None
        if c is None or not 0 < abs(c) < _Fr(1, 1000):
            return False
    return True


def _ext():
    from . import ext

    return ext


def _isstr(x):
    return x.__class__ is S or x.__class__ is C and isinstance(x.v, (str, bytes))


def bin_atom(I, o, x, y, a, b, st, n):
    cx, cy = x.__class__, y.__class__
    if cx is TOP or cy is TOP:
        return [(st, v(x if cx is TOP else y))]
    E = _ext()
    if (cx is XV and (x.path in E.EXPR or x.path == "cstr")) or (cy is XV and (y.path in E.EXPR or y.path == "cstr")):
        return E.binop_expr(I, o, x, y, st, n)
    for z, w, nm, isleft in ((x, y, "__%s__" % DUNDER[o], True), (y, x, "__r%s__" % DUNDER[o], False)):
        if z.__class__ is R:
            ob = st.heap.get(z.addr)
            if ob is None:
                return [(st, I.lose("dangling"))]
            if isinstance(getattr(ob.cls, "addr", None), tuple):
                r = I.class_lookup(R(ob.cls.addr), nm, st)
                if r is not None:
                    out = []
                    for s2, m in I.getattr(v(z), nm, st, n):
                        out += I.call(m, [v(w)], {}, s2, n)
                    return out
            if ob.kind == "ext":
                return E.binop_extobj(I, o, x, y, st, n)
    # strings
    if o == "+" and cx in (C, S) and cy in (C, S):
        if (cx is C and not isinstance(x.v, (str, bytes))) or (cy is C and not isinstance(y.v, (str, bytes))):
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
            return []
        if cx is C and cy is C:
            return [(st, v(C(x.v + y.v)))]
        return [(st, STR)]
    if o == "%" and cx in (C, S):
        return [(st, V(STR.a, b.l | E.str_labels(I, V(frozenset((y,)), b.l), st)))]
    if o == "*" and (_isstr(x) and M.numlike(y) is not None or _isstr(y) and M.numlike(x) is not None):
        return [(st, STR)]
    # tuples and lists
    if o in ("+", "*"):
        r = concat(I, o, x, y, st, n)
        if r is not None:
            return r
    if o in ("|", "&", "-", "^"):
        r = setop(I, o, x, y, st, n)
        if r is not None:
            return r
    if cx in (C, S, N, T, TO, R) and cy in (C, S, N, T, TO, R):
        I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        return []
    return [(st, I.lose("binop %s %s %s" % (cx.__name__, o, cy.__name__)))]


def seq_of(I, x, st):
    """(kind, items|None, elem, lens, fl, labels)"""
    if x.__class__ is T:
        return ("tuple", x.items, BOT, (iconst(len(x.items)),), frozenset(("asc", "ndup")) if len(x.items) < 2 else NOLAB, NOLAB)
    if x.__class__ is TO:
        return ("tuple", None, x.elem, x.lens, x.fl, NOLAB)
    if x.__class__ is R:
        o = st.heap.get(x.addr)
        if o is not None and o.kind == "list":
            return ("list", o.items, o.elem, o.lens, o.fl, o.labels)
    return None


def concat(I, o, x, y, st, n):
    if o == "*":
        s, k = (x, y) if seq_of(I, x, st) is not None else (y, x)
        q = seq_of(I, s, st)
        m = M.numlike(k)
        if q is None or m is None:
            return None
        kind, items, elem, lens, fl, labs = q
        c = m.const()
        if items is not None and c is not None and len(items) * max(c, 0) <= 12:
            its = tuple(items) * int(max(c, 0))
            return [(st, mkseq(I, kind, its, BOT, (iconst(len(its)),), NOLAB, labs, st, n))]
        e = elem if items is None else joins(items)
        nl = norm_lens([L.imul(l, L.imeet(m.i, irange(0, None)) if not L.nonneg(m.i) else m.i) for l in lens])
        keep = frozenset(z for z in fl if z[0] == "?")
        return [(st, mkseq(I, kind, None, e, nl, keep, labs, st, n))]
    p, q = seq_of(I, x, st), seq_of(I, y, st)
    if p is None or q is None or p[0] != q[0]:
        return None
    if p[1] is not None and q[1] is not None and len(p[1]) + len(q[1]) <= 24:
        its = tuple(p[1]) + tuple(q[1])
        return [(st, mkseq(I, p[0], its, BOT, (iconst(len(its)),), NOLAB, p[5] | q[5], st, n))]
    e = join(p[2] if p[1] is None else joins(p[1]), q[2] if q[1] is None else joins(q[1]))
    nl = norm_lens([L.iadd(i, j) for i in p[3] for j in q[3]])
    keep = frozenset(z for z in p[4] | q[4] if z[0] == "?")
    if all(L.constval(i) == 0 for i in p[3]):
        keep = keep | q[4]
    elif all(L.constval(i) == 0 for i in q[3]):
        keep = keep | p[4]
    elif any(L.constval(i) != 1 for i in q[3] + p[3]) or True:
        keep = keep | {"?cat"}
    return [(st, mkseq(I, p[0], None, e, nl, keep, p[5] | q[5], st, n))]


def mkseq(I, kind, items, elem, lens, fl, labs, st, n):
    if kind == "tuple":
        if items is not None:
            return v(T(items), labels=labs)
        return v(TO(elem, lens, fl), labels=labs)
    return I.alloc(st, n, Obj("list", items=items, elem=elem, lens=lens, fl=fl, labels=labs), "seq")


def as_set(I, x, st):
    if x.__class__ is R:
        o = st.heap.get(x.addr)
        if o is not None and o.kind in ("set", "frozenset"):
            return o
        if o is not None and o.kind == "dict":
            return Obj("set", elem=o.all_keys(), lens=o.lens, fl=o.fl, labels=o.labels)
    if x.__class__ is XV and x.path == "keys" and x.data[0].one().__class__ is R:
        return as_set(I, x.data[0].one(), st)
    return None


def ids(fl):
    return {z[1] for z in fl if z.__class__ is tuple and z[0] == "id"}


def related(tag, p, q):
    """q is part of / disjoint from p"""
    return any(z.__class__ is tuple and z[0] == tag and z[1] in ids(p.fl) for z in q.fl)


def set_binop(I, o, p, q):
    """(elem, lens) of the set operation"""
    el = p.all_elem()
    if o == "-" and universe(p) and "sub" in q.fl:
        return el, norm_lens([L.isub(i, j) for i in p.lens for j in q.lens])
    if o == "|" and (related("disj", p, q) or related("disj", q, p)):
        return join(el, q.all_elem()), norm_lens([L.iadd(i, j) for i in p.lens for j in q.lens])
    if o == "-" and related("sub", p, q):
        return el, norm_lens([L.norm(L.isub(i, j)[0] + (L.ZERO,), L.isub(i, j)[1]) for i in p.lens for j in q.lens])
    if o == "|":
        e = join(el, q.all_elem())
        lens = []
        for i in p.lens:
            for j in q.lens:
                if L.constval(i) == 0:
                    lens.append(j)
                elif L.constval(j) == 0:
                    lens.append(i)
                else:
                    s = L.iadd(i, j)
                    lens.append(L.norm(i[0] + j[0], s[1]))
    elif o == "&":
        e = el
        lens = [L.norm((L.ZERO,), i[1] + j[1]) for i in p.lens for j in q.lens]
    elif o == "-":
        e = el
        lens = []
        for i in p.lens:
            for j in q.lens:
                if L.constval(j) == 0:
                    lens.append(i)
                else:
                    d = L.isub(i, j)
                    lo = d[0] + (L.ZERO,)
                    # set(profile.candidates) - X with X subset of candidates is exact only when known
                    lens.append(L.norm(lo, i[1]))
    else:
        e = join(el, q.all_elem())
        lens = [L.norm((L.ZERO,), L.iadd(i, j)[1]) for i in p.lens for j in q.lens]
    if not e.a:
        lens = [iconst(0)]
    return e, norm_lens(lens)


def universe(o):
    """set of all candidates: integer elements bounded by n with exactly n elements"""
    return "univ" in o.fl


def setop(I, o, x, y, st, n):
    if o == "|" and x.__class__ is R and y.__class__ is R:
        p, q = st.heap.get(x.addr), st.heap.get(y.addr)
        if p is not None and q is not None and p.kind == "dict" and q.kind == "dict":
            me = I.alloc(st, n, p.rep(owner="fresh", cls=None), "dor")
            out = []
            for s, _ in M.call_method(I, "dict.update", me, [v(y)], {}, st, n):
                out.append((s, me))
            return out
    p, q = as_set(I, x, st), as_set(I, y, st)
    if p is None or q is None:
        return None
    e, lens = set_binop(I, o, p, q)
    fl = frozenset(z for z in p.fl | q.fl if z[0] == "?")
    if o in ("-", "&"):
        fl = frozenset(z for z in p.fl if z[0] == "?")
    if "sub" in p.fl and (o in ("-", "&") or "sub" in q.fl):
        fl = fl | {"sub"}
    if o == "-" and "univ" in p.fl and "sub" not in fl:
        fl = fl | {"sub"}
    if o in ("-", "&"):
        fl = fl | part_rels(p.fl)
        if p.kind in ("set", "frozenset"):
            from .containers import tokens
            fl = fl | frozenset(("sub", t) for t in tokens(I, v(x), st)) | frozenset(("disj" if o == "-" else "sub", t) for t in tokens(I, v(y), st))
    return [(st, I.alloc(st, n, Obj("frozenset" if p.kind == "frozenset" else "set", elem=e, lens=lens, fl=fl,
                                    labels=p.labels | q.labels), "setop"))]


def inplace(I, op, old, x, st, n):
    o = OPN[op.__class__]
    out = []
    for a in old.a:
        ob = st.heap.get(a.addr)
        s = st
        if ob.kind == "ext":
            out += _ext().inplace_ext(I, o, a, x, s, n)
            continue
        if isinstance(getattr(ob.cls, "addr", None), tuple) and I.class_lookup(R(ob.cls.addr), "__i%s__" % DUNDER[o], s) is not None:
            for s2, m in I.getattr(v(a), "__i%s__" % DUNDER[o], s, n):
                out += I.call(m, [x], {}, s2, n)
            continue
        meth = None
        if ob.kind == "list" and o == "+":
            meth = "list.extend"
        elif ob.kind == "list" and o == "*":
            out += I.binop(op, v(a), x, s, n)
            continue
        elif ob.kind == "set":
            meth = {"|": "set.update", "&": "set.intersection_update", "-": "set.difference_update",
                    "^": "set.symmetric_difference_update"}.get(o)
        elif ob.kind == "dict" and o == "|":
            meth = "dict.update"
        if meth is None:
            I.raise_exc(s.fork(), "TypeError", n, implicit=True)
            continue
        for s2, _ in M.call_method(I, meth, v(a, labels=old.l), [x], {}, s, n):
            out.append((s2, v(a, labels=old.l)))
    return out


def unary(I, op, x, st, n):
    out = BOT
    for a in x.a:
        m = M.numlike(a)
        if m is not None:
            if isinstance(op, ast.USub):
                out = join(out, v(N(m.kinds, L.ineg(m.i), m.unit, m.src)))
            elif isinstance(op, ast.UAdd):
                out = join(out, v(m))
            else:
                out = join(out, num())
        elif a.__class__ is XV and a.path in _ext().EXPR:
            out = join(out, _ext().unary_expr(I, op, a, st, n))
        elif a.__class__ is TOP:
            out = join(out, v(a))
        elif a.__class__ is R and st.heap.get(a.addr) is not None and st.heap[a.addr].kind == "ext":
            out = join(out, v(a))
        else:
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
    return out.lab(x.l)


def to_str(I, x, st, n, conv=-1):
    """str() of a value: list of (state, V)"""
    out = []
    res = BOT
    labs = x.l
    for a in x.a:
        c = a.__class__
        if c is C and conv in (-1, 115):
            res = join(res, v(C(str(a.v))))
        elif c is N and conv in (-1, 115):
            k = a.const()
            if k is not None and a.kinds == INT and k == int(k):
                res = join(res, v(C(str(int(k)))))
            else:
                res = join(res, v(S(("num", tuple(sorted(a.kinds))))))
        elif c is S:
            res = join(res, v(a))
        elif c is R:
            o = st.heap.get(a.addr)
            if o is not None and isinstance(getattr(o.cls, "addr", None), tuple):
                nm = None
                for cand in ("__str__", "__repr__"):
                    if I.class_lookup(R(o.cls.addr), cand, st) is not None:
                        nm = cand
                        break
                if nm:
                    for s2, m in I.getattr(v(a), nm, st, n):
                        out += I.call(m, [], {}, s2, n)
                    continue
            res = join(res, V(STR.a, deep_labels(v(a), st.heap) if o is not None and o.kind != "inst" else NOLAB))
            if o is not None and o.kind in ("set", "frozenset"):
                res = join(res, v(S(("setrepr",))))
        else:
            res = join(res, V(STR.a, _ext().str_labels(I, v(a), st)))
    if res.a:
        out.append((st, res))
    return [(s, r.lab(labs)) for s, r in out]


def fstr_tag(parts):
    """tag of a formatted string: its constant prefix"""
    pre = ""
    for p in parts:
        a = p.one()
        if a.__class__ is C and isinstance(a.v, str):
            pre += a.v
        else:
            break
    return ("pre", pre) if pre else None
