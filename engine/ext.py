"""Models of the standard library and of the third-party libraries used by the repository."""
import ast
import builtins as _pyb
from fractions import Fraction as _Fr

from . import lin as L
from .lin import iconst, irange
from .state import *
from .values import *
from . import models as M

EXPR = frozenset(("gvar", "expr"))
EXACTNUM = frozenset(("int", "frac", "mpq", "npint"))

# names of constants that are distinct from each other (solver status codes, enumeration members)
CONSTROOTS = ("gurobipy.GRB.", "mip.OptimizationStatus.", "ortools.sat.python.cp_model.", "mip.", "prefsampling.")


def is_status(path):
    return path.startswith(("gurobipy.GRB.", "mip.OptimizationStatus.", "ortools.sat.python.cp_model."))


def ext_eq(p, q):
    for r in CONSTROOTS:
        if p.startswith(r) and q.startswith(r):
            return p == q
    return None


STATUS_CODES = {  # documented numeric codes
    "gurobipy.GRB.": {1: "LOADED", 2: "OPTIMAL", 3: "INFEASIBLE", 4: "INF_OR_UNBD", 5: "UNBOUNDED", 6: "CUTOFF",
                      7: "ITERATION_LIMIT", 8: "NODE_LIMIT", 9: "TIME_LIMIT", 10: "SOLUTION_LIMIT", 11: "INTERRUPTED", 12: "NUMERIC", 13: "SUBOPTIMAL",
                      15: "USER_OBJ_LIMIT", 16: "WORK_LIMIT", 17: "MEM_LIMIT"},
    "ortools.sat.python.cp_model.": {0: "UNKNOWN", 1: "MODEL_INVALID", 2: "FEASIBLE", 3: "INFEASIBLE", 4: "OPTIMAL"},
}


def status_eq(x, y):
    """status constant x compared with the number y: True/False/None"""
    k = y.v if y.__class__ is C and isinstance(y.v, int) else L.constval(y.i) if y.__class__ is N else None
    for r, codes in STATUS_CODES.items():
        if x.path.startswith(r) and k is not None:
            nm = codes.get(k)
            if nm is not None:
                return x.path == r + nm
    return None


def str_labels(I, x, st):
    return frozenset(deep_labels(x, st.heap))


def any_labels(args, kw=None):
    r = NOLAB
    for x in args:
        r = r | (x.l if x.__class__ is V else x[1].l)
    if kw:
        for x in kw.values():
            r = r | x.l
    return r


# ------------------------------------------------------------------ attributes of external things
MATHC = {"inf": lambda: v(fl(float("inf"))), "nan": lambda: v(N(FLOAT, L.TOPI)), "pi": lambda: v(N(FLOAT, irange(3, 4))),
         "e": lambda: v(N(FLOAT, irange(2, 3)))}


def external_attr(I, path, name):
    if path in ("math", "numpy") and name in MATHC:
        return MATHC[name]()
    if path == "gurobipy.GRB.Status" or path == "gurobipy.GRB.status":
        return v(X("gurobipy.GRB." + name))
    if path == "numpy" and name in ("Inf", "infty"):
        return MATHC["inf"]()
    if path == "sys" and name in ("maxsize",):
        return num(1 << 62, 1 << 64)
    if path == "sys" and name in ("float_info",):
        return v(X("sys.float_info"))
    if path == "sys.float_info":
        return v(N(FLOAT, irange(0, None)))
    if path in ("os", "os.path") and name in ("sep", "linesep", "altsep"):
        return STR
    if path == "string":
        return STR
    if name == "__name__":
        return const(path.split(".")[-1])
    if path == "builtins.dict" and name == "fromkeys":
        return v(X("builtins.dict.fromkeys"))
    if path.startswith("builtins.") and path.count(".") == 1:
        t = getattr(_pyb, path[9:], None)
        if isinstance(t, type) and hasattr(t, name) and path[9:] in ("list", "set", "dict", "str", "frozenset", "tuple"):
            return v(XV("unbound", (path[9:], name)))
        if isinstance(t, type) and path[9:] == "object":
            return v(XV("unbound", ("object", name)))
    return v(X(path + "." + name))


def xv_attr(I, a, name, st, n):
    p = a.path
    if p == "exc":
        return STR
    if p in EXPR:
        return expr_attr(I, a, name, st, n)
    if p in ("cstr", "constrref"):
        return v(BM("cstr." + name, v(a)))
    if p == "typeof":
        if name == "__name__":
            return STR
    return I.lose("attr %s of %s" % (name, p))


def expr_attr(I, a, name, st, n):
    if name in ("Xn", "X", "x", "xn", "SolutionValue", "solution_value", "getValue"):
        mv, nv = a.data
        solution_read(I, mv, name, st, n)
        vals = []
        for z in nv.a:
            if z.__class__ is N:
                vals.append(N(FLOAT, L.TOPI, z.unit, I.site(n)))
        x = V(norm_atoms(frozenset(vals)), nv.l) if vals else v(N(FLOAT, L.TOPI, D0, I.site(n)))
        x = x.lab(model_labels(mv, st))
        if name in ("SolutionValue", "solution_value", "getValue"):
            return v(XV("constfn", (x,)))
        return x
    if name in ("varName", "VarName", "name"):
        return STR
    if name in ("sum",):
        return v(BM("expr.sum", v(a)))
    return v(BM("expr." + name, v(a)))


def model_labels(mv, st):
    r = NOLAB
    for z in mv.a:
        if z.__class__ is R:
            o = st.heap.get(z.addr)
            if o is not None:
                r = r | o.labels
    return r


def solution_read(I, mv, what, st, n):
    sts = set()
    for z in mv.a:
        if z.__class__ is R:
            o = st.heap.get(z.addr)
            if o is not None and o.kind == "ext":
                s = o.attrs.get("status")
                if s is None:
                    sts.add("unsolved")
                else:
                    for y in s.a:
                        sts.add(y.path.split(".")[-1] if y.__class__ is X else "?")
    I.emit("solution-read", n, what=what, status=tuple(sorted(sts)))


# ------------------------------------------------------------------ solver expressions
def numpart(x):
    """numeric abstraction of an expression operand"""
    if x.__class__ is XV and x.path in EXPR:
        return x.data[1]
    m = M.numlike(x)
    if m is not None:
        return v(m)
    return v(N(frozenset(("num",)), L.TOPI, None))


def modelpart(*xs):
    r = BOT
    for x in xs:
        if x.__class__ is XV and (x.path in EXPR or x.path == "cstr"):
            r = join(r, x.data[0])
    return r


def expr_labels(I, *xs):
    return NOLAB


def binop_expr(I, o, x, y, st, n):
    px, py = numpart(x), numpart(y)
    if o == ">>":  # gurobi indicator constraint: (var == 1) >> (expr <= c)
        return [(st, v(XV("cstr", (modelpart(x, y), const(">>")))))]
    if x.__class__ not in (XV, N, C) or y.__class__ not in (XV, N, C):
        if {x.__class__, y.__class__} & {R, TO, T}:
            return [(st, v(XV("expr", (modelpart(x, y), join(px, py)))))]
    if x.__class__ is XV and y.__class__ is XV and o == "*":
        pass
    op = {"+": ast.Add(), "-": ast.Sub(), "*": ast.Mult(), "/": ast.Div()}.get(o)
    if op is None:
        return [(st, v(XV("expr", (modelpart(x, y), px))))]
    from . import ops
    nums = []
    for a in px.a:
        for b in py.a:
            if a.__class__ is N and b.__class__ is N:
                r = ops.num_op(I, o, N(frozenset(("num",)), a.i, a.unit), N(frozenset(("num",)), b.i, b.unit), st, n)
                if r is not None:
                    nums.append(r)
    x2 = V(norm_atoms(frozenset(nums)), px.l | py.l)
    return [(st, v(XV("expr", (modelpart(x, y), x2))))]


def unary_expr(I, op, a, st, n):
    p = a.data[1]
    if isinstance(op, ast.USub):
        p = V(frozenset(N(z.kinds, L.ineg(z.i), z.unit, z.src) if z.__class__ is N else z for z in p.a), p.l)
    return v(XV("expr", (a.data[0], p)))


def compare_expr(I, op, a, b, st, n):
    """expr op expr -> a constraint"""
    mv = BOT
    labs = a.l | b.l
    for x in a.a:
        for y in b.a:
            px, py = numpart(x), numpart(y)
            mv = join(mv, modelpart(x, y))
            labs = labs | px.l | py.l
            if x.__class__ is XV and x.path not in EXPR and x.path != "cstr" or y.__class__ is XV and y.path not in EXPR and y.path != "cstr":
                continue
            for p in px.a:
                for q in py.a:
                    if p.__class__ is N and q.__class__ is N:
                        M.unit_check(I, p, q, n, "constraint " + op)
    rhs = BOT
    for y in b.a:
        rhs = join(rhs, numpart(y))
    lhs = joins([numpart(x) for x in a.a])
    if not any(x.__class__ is XV and x.path in EXPR for x in a.a):
        lhs, rhs, op = rhs, lhs, M.FLIP.get(op, op)
    return [(st, v(XV("cstr", (mv, const(op), rhs, lhs)), labels=labs))]


def xv_rel(I, op, x, y, st, n):
    """comparison where one side is an XV: None -> generic treatment"""
    both = ((x, y), (x, y))
    if x.__class__ is XV and y.__class__ is XV and x.path == "typeof" and y.path == "typeof":
        if op in ("==", "!="):
            t = (x, y) if x.data[0] == y.data[0] else None
            f = None if t else (x, y)
            return (t, f) if op == "==" else (f, t)
    if op in ("==", "!="):
        o = y if x.__class__ is XV else x
        if o.__class__ is C and o.v is None:
            return (None, (x, y)) if op == "==" else ((x, y), None)
    return both


# ------------------------------------------------------------------ calls
def exc_class(path):
    if path.startswith("builtins."):
        t = getattr(_pyb, path[9:], None)
        return isinstance(t, type) and issubclass(t, BaseException)
    return False


def star(args):
    return [a if a.__class__ is V else a[1] for a in args]


def hasstar(args):
    return any(a.__class__ is not V for a in args)


def call_external(I, path, args, kw, st, n):
    if exc_class(path):
        return [(st, v(XV("exc", (path,) + tuple(star(args)))))]
    if path.startswith("builtins."):
        f = globals().get("b_" + path[9:].replace(".", "_"))
        if f is not None:
            if hasstar(args) and path[9:] not in ("zip", "print", "max", "min"):
                args = star(args)
            return f(I, args, kw, st, n)
        return [(st, I.lose("builtin " + path))]
    root = path.split(".")[0]
    f = EXACT.get(path)
    if f is not None:
        return f(I, path, star(args), kw, st, n)
    f = ROOTS.get(root)
    if f is not None:
        return f(I, path, star(args), kw, st, n)
    return [(st, I.lose("call " + path))]


def call_xv(I, a, args, kw, st, n):
    if a.path == "constfn":
        return [(st, a.data[0])]
    if a.path == "unbound":
        t, name = a.data
        if args and not isinstance(args[0], V):
            if t in ("set", "frozenset", "list", "dict", "str"):
                inner = star(args)[0]
                return M.call_method(I, t + "." + name, inner, list(args), kw, st, n)
            return [(st, I.lose("star call of unbound method"))]
        if args:
            if t == "object":
                return M.call_method(I, "object." + name, args[0], list(args[1:]), kw, st, n)
            return M.call_method(I, t + "." + name, args[0], list(args[1:]), kw, st, n)
    if a.path == "typeof":
        return [(st, I.lose("call of type"))]
    if a.path == "deco":
        # decorator factory applied to a function value
        fn = args[0] if args else TOP
        if a.data[0] == "functools.lru_cache":
            nm = fn.one().info.qualname if fn.one().__class__ is F else "?"
            return [(st, v(XV("cached", (fn, nm))))]
        return [(st, fn)]
    if a.path in ("staticmethod",):
        return I.call(a.data[0], args, kw, st, n)
    if a.path == "cmpkey":
        r = I.call(a.data[0], [args[0], args[0]], {}, st.fork(), n)
        return [(st, num(labels=joins([y for _, y in r]).l))]
    if a.path == "itemgetter":
        return M.getitem(I, args[0], a.data[0], st, n)
    if a.path == "attrgetter":
        k = a.data[0].one()
        if k.__class__ is C:
            return I.getattr(args[0], k.v, st, n)
    return [(st, I.lose("call xv " + a.path))]


def other_method(I, kind, name, a, selfv, args, kw, st, n):
    if kind == "expr":
        if name == "sum":
            return [(st, v(a))]
        if name in EXPRFN_BOOL:
            return [(st, BOOL)]
        return [(st, v(a))]
    if kind == "cstr":
        return [(st, v(a))]
    if kind == "property":
        return [(st, v(a))]
    if kind in ("Exception", "ValueError", "RuntimeError", "KeyError", "TypeError", "NotImplementedError", "object", "BaseException"):
        return [(st, NONE)]
    if kind in ("type",):
        return [(st, I.lose("type method"))]
    return [(st, I.lose("method %s.%s" % (kind, name)))]


EXPRFN_BOOL = ("Not__",)


def num_method(I, name, a, args, kw, st, n):
    if name == "is_integer":
        return [(st, BOOL)]
    if name in ("bit_length", "bit_count", "conjugate"):
        return [(st, num(0, None))]
    if name == "limit_denominator":
        x = M.numlike(a)
        ks = frozenset(k + "~" if not k.endswith("~") else k for k in x.kinds)
        return [(st, v(N(ks, x.i, x.unit, x.src)))]
    if name == "as_integer_ratio":
        return [(st, v(T([num(), num(1, None)])))]
    if name in ("item", "tolist"):
        x = M.numlike(a)
        mp = {"npint": "int", "npfloat": "float"}
        return [(st, v(N(frozenset(mp.get(k, k) for k in x.kinds), x.i, x.unit, x.src)))]
    if name == "__format__":
        return [(st, STR)]
    I.raise_exc(st, "AttributeError", n, implicit=True)
    return []


# ------------------------------------------------------------------ builtins
def b_len(I, args, kw, st, n):
    return M.do_len(I, args[0], st, n)


def b_range(I, args, kw, st, n):
    for x in args:
        for z in x.a:
            m = M.numlike(z)
            if z.__class__ in (T, TO, S) or (z.__class__ is C and not isinstance(z.v, bool)) or (m is not None and m.kinds <= {"float", "frac"}):
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
                if len(x.a) == 1:
                    return []
    z, o = num(0, 0), num(1, 1)
    if len(args) == 1:
        d = (z, args[0], o)
    elif len(args) == 2:
        d = (args[0], args[1], o)
    else:
        d = tuple(args[:3])
    return [(st, v(XV("range", d)))]


def b_enumerate(I, args, kw, st, n):
    s = args[1] if len(args) > 1 else kw.get("start", const(0))
    return [(st, v(XV("enum", (args[0], s))))]


def b_zip(I, args, kw, st, n):
    if hasstar(args):
        e = [a[1] for a in args if a.__class__ is not V][0]
        # zip(*rows): tuples of elements of the rows
        x = BOT
        for s, it in M.iterate(I, e, st, n):
            for s2, y in (it.elem(s, None) if it.items is None else [(s, joins(it.items))]):
                x = join(x, y)
        return [(st, I.alloc(st, n, Obj("iter", elem=v(TO(x, (irange(0, None),))), lens=(irange(0, None),)), "zip"))]
    return [(st, v(XV("zip", tuple(args))))]


def b_reversed(I, args, kw, st, n):
    return [(st, v(XV("rev", (args[0],))))]


def b_map(I, args, kw, st, n):
    if len(args) == 2:
        return [(st, v(XV("map", (args[0], args[1]))))]
    return [(st, I.lose("map"))]


def b_filter(I, args, kw, st, n):
    return [(st, v(XV("filter", (args[0], args[1]))))]


def b_iter(I, args, kw, st, n):
    return [(st, v(XV("iter", (args[0],))))]


def b_next(I, args, kw, st, n):
    out = []
    acc = BOT
    for s, it in M.iterate(I, args[0], st, n):
        st = s
        if it.items is not None:
            x = joins(it.items)
        else:
            x = joins([y for _, y in it.elem(s, None)])
        acc = join(acc, x.lab(it.labels))
        may_empty = not all(L.positive_int(i) for i in it.lens)
        if may_empty:
            if len(args) > 1:
                acc = join(acc, args[1])
            elif not x.a:
                I.raise_exc(s.fork(), "StopIteration", n, implicit=True)
            else:
                I.emit("maybe-stop", n)
    # consuming one element of an explicit iterator
    for z in args[0].a:
        if z.__class__ is R:
            o = st.heap.get(z.addr)
            if o is not None and o.kind == "iter":
                from .containers import shrink
                st.heap[z.addr] = shrink(o, 1)
    return [(st, acc)] if acc.a else []


def elems(I, x, st, n):
    """(state, value of an element, lens, labels) of an iterable"""
    out = []
    for s, it in M.iterate(I, x, st, n):
        if it.items is not None:
            out.append((s, joins(it.items), it.lens, it.labels, it.items))
        else:
            r = it.elem(s, None) if not all(L.constval(i) == 0 for i in it.lens) else []
            if r:
                s = join_states([q for q, _ in r])
            out.append((s, joins([y for _, y in r]), it.lens, it.labels, None))
    return out


def b_sum(I, args, kw, st, n):
    from . import ops
    start = args[1] if len(args) > 1 else kw.get("start", const(0))
    out = []
    for s, x, lens, labs, items in elems(I, args[0], st, n):
        labs = labs | x.l | start.l | args[0].l
        if items is not None and len(items) <= 6:
            acc = [(s, start)]
            for y in items:
                nx = []
                for s1, z in acc:
                    nx += I.binop(ast.Add(), z, y, s1, n)
                acc = nx
            out += [(s1, z.lab(labs)) for s1, z in acc]
            continue
        res = []
        exprs = []
        unk = False
        nums = M.as_n(x)
        for y in x.a:
            if y.__class__ is XV and y.path in EXPR:
                exprs.append(y)
            elif M.numlike(y) is None:
                unk = True
        sn = M.as_n(start)
        for y in nums:
            for z in sn:
                r = ops.num_op(I, "+", z, N(y.kinds, L.TOPI, y.unit, y.src), s, n)
                h = hull(lens)
                i = L.TOPI
                ey, el = L.exact(y.i), L.exact(h)
                cy = y.const()
                if z.const() == 0:
                    if cy is not None:
                        i = L.iscale(h, cy) if cy >= 0 else L.TOPI
                    elif L.constval(h) is not None:
                        i = L.iscale(y.i, L.constval(h))
                    else:
                        lo = (L.ZERO,) if L.nonneg(y.i) else ()
                        if L.nonneg(y.i) and L.positive_int(h) and (L.positive_int(y.i)):
                            lo = (L.ONE,) + tuple(h[0])
                        hi = ()
                        hc = [q.c for q in y.i[1] if not q.t and q.c >= 0]
                        if hc and not (L.negative(y.i)):
                            hi = tuple(L.scale(q, min(hc)) for q in h[1])
                        i = L.norm(lo, hi)
                elif L.nonneg(y.i) and L.nonneg(z.i):
                    i = L.norm(z.i[0] or (L.ZERO,), ())
                kinds = r.kinds | (z.kinds if not L.positive_int(h) else frozenset())
                u = r.unit
                if "float" in kinds and not "float" in y.kinds and not "float" in z.kinds:
                    pass
                res.append(N(kinds, i, u, r.src))
        # different elements are added to each other
        for a_ in range(len(nums)):
            for b_ in range(a_ + 1, len(nums)):
                M.unit_check(I, nums[a_], nums[b_], n, "sum")
        if exprs:
            p = BOT
            mv = BOT
            for y in exprs:
                p = join(p, y.data[1])
                mv = join(mv, y.data[0])
            for y in nums:
                p = join(p, v(y))
            p2 = []
            for z in p.a:
                if z.__class__ is N:
                    if z.iszero():
                        p2.append(z)  # a sum of zeros
                        continue
                    lo = (L.ZERO,) if L.nonneg(z.i) else ()
                    p2.append(N(z.kinds, (lo, ()), z.unit, z.src))
            out.append((s, v(XV("expr", (mv, V(norm_atoms(frozenset(p2)), p.l))), labels=labs)))
            continue
        if not x.a:
            out.append((s, start.lab(labs)))
            continue
        if unk and not nums:
            r = I.binop(ast.Add(), start, x, s, n) if False else [(s, I.lose("sum"))]
            tops = all(y.__class__ is TOP for y in x.a)
            out += r
            continue
        if any(not L.positive_int(i) for i in lens):
            # the empty sum
            res += sn
        out.append((s, V(norm_atoms(frozenset(res)) | (frozenset((TOP("sum"),)) if unk else frozenset()), labs)))
    if len(out) > 1:
        out = [(join_states([q for q, _ in out]), joins([y for _, y in out]))]
    return out


def minmax(I, which, args, kw, st, n):
    key = kw.get("key")
    if hasstar(args):
        args = star(args)
        x = joins(args)
        return [(st, x)]
    if len(args) == 1:
        out = []
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            labs = labs | x.l | args[0].l
            if key is not None and key != NONE:
                kx = M.call_key(I, key, x, s, n)
                labs = labs | kx.l
                note_order(I, kx, n, which + "-key", s)
            else:
                note_order(I, x, n, which, s)
            may_empty = not all(L.positive_int(i) for i in lens)
            if not x.a:
                if "default" in kw:
                    out.append((s, kw["default"]))
                else:
                    I.raise_exc(s, "ValueError", n, implicit=True)
                continue
            if may_empty and "default" in kw:
                x = join(x, kw["default"])
            elif may_empty:
                I.emit("maybe-empty", n, what=which)
            labs = labs | frozenset((("ext", which),))
            if any(y.__class__ is N and y.kinds & M.INEXACT for y in x.a):
                labs = labs | frozenset((("agg", I.site(n), which),))
            ns = M.as_n(x)
            if len(ns) > 1 and key is None:
                for i_ in range(len(ns)):
                    for j_ in range(i_ + 1, len(ns)):
                        M.unit_check(I, ns[i_], ns[j_], n, "compare in " + which)
            if items is not None and key is None and all(len(M.as_n(y)) == len(y.a) == 1 for y in items) and items:
                i = None
                for y in items:
                    q = M.as_n(y)[0].i
                    i = q if i is None else (M._imin(i, q) if which == "min" else M._imax(i, q))
                ks = frozenset().union(*[M.as_n(y)[0].kinds for y in items])
                out.append((s, v(N(ks, i, M.as_n(items[0])[0].unit, M.as_n(items[0])[0].src), labels=labs)))
                continue
            out.append((s, x.lab(labs)))
        return out
    labs = any_labels(args) | frozenset((("ext", which),))
    if key is not None and key != NONE:
        kx = M.call_key(I, key, joins(args), st, n)
        return [(st, joins(args).lab(labs | kx.l))]
    if all(len(x.a) == 1 and M.as_n(x) for x in args):
        ns = [M.as_n(x)[0] for x in args]
        i, u, ks = ns[0].i, ns[0], ns[0].kinds
        for y in ns[1:]:
            M.unit_check(I, u, y, n, "compare in " + which)
            i = M._imin(i, y.i) if which == "min" else M._imax(i, y.i)
            # one of the operands decides
            ks = ks | y.kinds
            if M.polyunit(u):
                u = y
            if (u.kinds | y.kinds) & M.INEXACT:
                I.emit("order-inexact", n, how=which, src=u.src or y.src)
        # when one operand dominates the result is that operand
        return [(st, v(N(ks, i, u.unit, u.src), labels=labs))]
    return [(st, joins(args).lab(labs))]


def note_order(I, x, n, how, st):
    for y in x.a:
        if y.__class__ is N and y.kinds & M.INEXACT:
            I.emit("order-inexact", n, how=how, src=y.src)
        elif y.__class__ is T:
            for z in y.items:
                note_order(I, z, n, how, st)
        elif y.__class__ is TO:
            note_order(I, y.elem, n, how, st)


def b_min(I, args, kw, st, n):
    return minmax(I, "min", args, kw, st, n)


def b_max(I, args, kw, st, n):
    return minmax(I, "max", args, kw, st, n)


def b_sorted(I, args, kw, st, n):
    out = []
    key = kw.get("key", NONE)
    rev = kw.get("reverse", FALSE)
    from .containers import build, SRTKEEP, flags_of
    f0 = flags_of(I, args[0], st)
    for s, x in build(I, "list", args[0], st, n, "sorted"):
        for a in x.a:
            o = s.heap[a.addr]
            e = o.all_elem()
            labs = o.labels
            keep = frozenset(z for z in f0 if z in SRTKEEP or (z[0] == "?" and z not in ("?setord", "?cat"))) | rels(f0)
            if "?cat" in f0 and key == NONE:
                # canonical form of a sequence that was built in an arbitrary order: not unique any more
                keep = keep | {"?dup"}
            if key != NONE:
                kx = M.call_key(I, key, e, s, n)
                labs = labs | kx.l
                note_order(I, kx, n, "sort-key", s)
                kp = key.one()
                if kp.__class__ is X and kp.path == "builtins.str":
                    keep = keep | {"strsorted"}
                    for z in e.a:
                        if z.__class__ is R and s.heap.get(z.addr) is not None and s.heap[z.addr].kind in ("set", "frozenset"):
                            sc = I.class_lookup(R(s.heap[z.addr].cls.addr), "__str__", s) if M.usercls(s.heap[z.addr]) else None
                            if sc is None:
                                I.emit("sort-setrepr", n)
                elif "?setord" in f0:
                    # stable sort on a non-injective key keeps the set order
                    keep = keep | {"?setord"}
            else:
                note_order(I, e, n, "sort", s)
                if rev == FALSE:
                    keep = keep | {"asc"}
            its = o.items if o.items is not None and len(o.items) <= 1 else None
            s.heap[a.addr] = o.rep(items=its, elem=e if its is None else BOT, fl=keep, labels=labs)
        out.append((s, x))
    return out


def mk(kind):
    def f(I, args, kw, st, n):
        from .containers import build
        if not args:
            if kind == "tuple":
                return [(st, v(T(())))]
            return [(st, I.alloc(st, n, Obj(kind, items=() if kind == "list" else None), "mk"))]
        return build(I, kind, args[0], st, n, "mk")

    return f


b_list, b_set, b_frozenset, b_tuple = mk("list"), mk("set"), mk("frozenset"), mk("tuple")


def b_dict(I, args, kw, st, n):
    me = I.alloc(st, n, Obj("dict"), "mk")
    out = []
    for s, _ in M.call_method(I, "dict.update", me, list(args), kw, st, n):
        out.append((s, me))
    return out


def b_dict_fromkeys(I, args, kw, st, n):
    me = I.alloc(st, n, Obj("dict"), "mk")
    val = args[1] if len(args) > 1 else NONE
    out = []
    from .containers import from_iter, setitem
    for s, items, elem, lens, labs, fl_ in from_iter(I, args[0], st, n):
        if items is not None:
            ss = [s]
            for k in items:
                ss = [q for z in ss for q in setitem(I, me, k, val, z, n)]
            out += [(z, me) for z in ss]
        else:
            o = s.heap[me.one().addr]
            s.heap[me.one().addr] = o.rep(key=elem, elem=val, lens=lens if "ndup" in fl_ else (L.norm((L.ZERO,), hull(lens)[1]),), labels=labs)
            out.append((s, me))
    return out


def b_str(I, args, kw, st, n):
    if not args:
        return [(st, const(""))]
    return I.models.to_str(I, args[0], st, n)


def b_repr(I, args, kw, st, n):
    return [(st, V(STR.a, str_labels(I, args[0], st)))]


b_ascii = b_repr


def b_format(I, args, kw, st, n):
    return [(st, V(STR.a, any_labels(args)))]


def floors(bounds, default=None):
    """integer parts of the bounds whose coefficients are integers (symbols stand for integers)"""
    out = []
    for b in bounds:
        if all(q == int(q) for _, q in b.t):
            out.append(L.add(b, L.const(b.c // 1 - b.c)))
        elif default is not None:
            out.append(default)
    return tuple(out)


def b_int(I, args, kw, st, n):
    if not args:
        return [(st, const(0))]
    out = []
    for a in args[0].a:
        m = M.numlike(a)
        if m is not None:
            if m.kinds <= {"int"}:
                out.append(m)
            else:
                i = m.i
                c = m.const()
                if c is not None:
                    i = iconst(int(c))
                elif L.nonneg(i):
                    i = L.norm((L.ZERO,) + floors(i[0]), tuple(floors((x,), x)[0] for x in i[1]))
                else:
                    i = L.TOPI
                k = "int~" if m.kinds & M.INEXACT else "int"
                out.append(N(frozenset((k,)), i, m.unit, m.src))
        elif a.__class__ in (C, S):
            if a.__class__ is C and isinstance(a.v, str):
                try:
                    out.append(N(INT, iconst(int(a.v))))
                except ValueError:
                    I.raise_exc(st.fork(), "ValueError", n, implicit=True)
            elif a.__class__ is S:
                I.raise_exc(st.fork(), "ValueError", n, implicit=True)
                out.append(N(INT, L.TOPI))
            else:
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        elif a.__class__ is TOP or a.__class__ is X or a.__class__ is XV:
            out.append(N(INT, L.TOPI, None))
        else:
            I.raise_exc(st.fork(), "TypeError", n, implicit=True)
    if not out:
        return []
    return [(st, V(norm_atoms(frozenset(out)), any_labels(args)))]


def b_float(I, args, kw, st, n):
    if not args:
        return [(st, const(0.0))]
    out = []
    for a in args[0].a:
        m = M.numlike(a)
        if m is not None:
            if m.kinds == INF:
                out.append(m)
            else:
                out.append(N(FLOAT, m.i, m.unit, m.src or I.site(n)))
        elif a.__class__ is C and isinstance(a.v, str):
            try:
                out.append(fl(float(a.v)))
            except ValueError:
                I.raise_exc(st.fork(), "ValueError", n, implicit=True)
        elif a.__class__ is S:
            I.raise_exc(st.fork(), "ValueError", n, implicit=True)
            out.append(N(FLOAT, L.TOPI, D0, I.site(n)))
        else:
            out.append(N(FLOAT, L.TOPI, None, I.site(n)))
    return [(st, V(norm_atoms(frozenset(out)), any_labels(args)))] if out else []


def b_bool(I, args, kw, st, n):
    if not args:
        return [(st, FALSE)]
    t, f = M.truth_split(I, args[0], st)
    return [(st, V(frozenset(([C(True)] if t.a else []) + ([C(False)] if f.a else [])), args[0].l))]


def b_abs(I, args, kw, st, n):
    out = []
    for m in M.as_n(args[0]):
        i = m.i
        if not L.nonneg(i):
            c = m.const()
            i = iconst(abs(c)) if c is not None else (L.ineg(i) if L.nonneg(L.ineg(i)) else irange(0, None))
        out.append(N(m.kinds, i, m.unit, m.src))
    if len(out) < len(args[0].a):
        return [(st, I.lose("abs"))]
    return [(st, V(norm_atoms(frozenset(out)), args[0].l))]


def b_round(I, args, kw, st, n):
    out = []
    for m in M.as_n(args[0]):
        nd = len(args) > 1 and args[1] != NONE
        if nd:
            out.append(N(m.kinds, L.TOPI if not L.nonneg(m.i) else irange(0, None), m.unit, m.src))
        else:
            k = "int~" if m.kinds & M.INEXACT else "int"
            out.append(N(frozenset((k,)), m.i if "int" in m.kinds and len(m.kinds) == 1 else (irange(0, None) if L.nonneg(m.i) else L.TOPI), m.unit, m.src))
    if not out:
        return [(st, I.lose("round"))]
    return [(st, V(norm_atoms(frozenset(out)), args[0].l))]


def b_pow(I, args, kw, st, n):
    return I.binop(ast.Pow(), args[0], args[1], st, n)


def b_divmod(I, args, kw, st, n):
    out = []
    for s, q in I.binop(ast.FloorDiv(), args[0], args[1], st, n):
        for s2, r in I.binop(ast.Mod(), args[0], args[1], s, n):
            out.append((s2, v(T((q, r)))))
    return out


def anyall_value(which):
    def f(I, args, kw, st, n):
        out = []
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            t, f_ = M.truth_split(I, x, s)
            may_empty = not all(L.positive_int(i) for i in lens)
            res = set()
            if which == "any":
                if t.a:
                    res.add(C(True))
                if f_.a or may_empty:
                    res.add(C(False))
            else:
                if f_.a:
                    res.add(C(False))
                if t.a or may_empty:
                    res.add(C(True))
            if items is not None and items:
                ts = [M.truth_split(I, y, s) for y in items]
                if which == "any" and any(not q.a for _, q in ts):
                    res = {C(True)}
                if which == "all" and any(not p.a for p, _ in ts):
                    res = {C(False)}
            out.append((s, V(frozenset(res), labs | x.l | args[0].l)))
        return out

    return f


b_any, b_all = anyall_value("any"), anyall_value("all")


def b_print(I, args, kw, st, n):
    I.emit("print", n, stack=tuple(c.info.qualname if c.info else "<module>" for c in I.stack),
           labels=tuple(sorted(map(str, st.pc))))
    return [(st, NONE)]


def b_open(I, args, kw, st, n):
    mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
    I.emit("open", n, mode=repr(mode), inwith=isinstance(getattr(n, "_in_with", None), ast.AST))
    return [(st, I.alloc(st, n, Obj("ext", cls="file"), "file"))]


def b_input(I, args, kw, st, n):
    I.emit("nondet", n, what="input")
    return [(st, STR)]


def b_id(I, args, kw, st, n):
    I.emit("nondet", n, what="id")
    return [(st, num(0, None, labels=frozenset(("nondet:id",))))]


def b_hash(I, args, kw, st, n):
    I.emit("nondet", n, what="hash")
    return [(st, num(None, None, labels=frozenset(("nondet:hash",))))]


def b_isinstance(I, args, kw, st, n):
    if len(args) == 2:
        t, f = M.isinstance_split(I, args[0], args[1], st)
        return [(st, V(frozenset([C(True)] * bool(t) + [C(False)] * bool(f)), args[0].l))]
    return [(st, BOOL.lab(args[0].l))]


def b_issubclass(I, args, kw, st, n):
    return [(st, BOOL.lab(args[0].l))]


def b_callable(I, args, kw, st, n):
    r = set()
    for a in args[0].a:
        if a.__class__ in (F, BM, P, X):
            r.add(C(True))
        elif a.__class__ in (N, C, S, T, TO):
            r.add(C(False))
        else:
            r |= {C(True), C(False)}
    return [(st, V(frozenset(r), args[0].l))]


def b_hasattr(I, args, kw, st, n):
    nm = args[1].one()
    if nm.__class__ is not C:
        return [(st, BOOL)]
    r = set()
    for a in args[0].a:
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is not None and o.kind in ("inst", "set", "list", "dict", "frozenset"):
                has = nm.v in o.attrs or (M.usercls(o) and I.class_lookup(R(o.cls.addr), nm.v, st) is not None)
                bt = {"set": set, "list": list, "dict": dict, "frozenset": frozenset, "inst": object}[o.kind]
                r.add(C(bool(has or hasattr(bt, nm.v))))
                continue
        if a.__class__ in (T, TO):
            r.add(C(hasattr((), nm.v)))
        elif a.__class__ is S or (a.__class__ is C and isinstance(a.v, str)):
            r.add(C(hasattr("", nm.v)))
        elif a.__class__ is N and a.kinds == INT:
            r.add(C(hasattr(1, nm.v)))
        elif a.__class__ is N and a.kinds == FLOAT:
            r.add(C(hasattr(1.0, nm.v)))
        elif a.__class__ is XV and a.path == "range":
            r.add(C(hasattr(range(1), nm.v)))
        else:
            r |= {C(True), C(False)}
    return [(st, V(frozenset(r), args[0].l))]


def b_getattr(I, args, kw, st, n):
    nm = args[1].one()
    if nm.__class__ is C and isinstance(nm.v, str):
        if len(args) > 2:
            has = b_hasattr(I, args, kw, st, n)[0][1]
            out = []
            if C(True) in has.a:
                out += I.getattr(args[0], nm.v, st.fork(), n)
            if C(False) in has.a:
                out.append((st, args[2]))
            return out
        return I.getattr(args[0], nm.v, st, n)
    return [(st, I.lose("getattr"))]


def b_setattr(I, args, kw, st, n):
    nm = args[1].one()
    if nm.__class__ is C and isinstance(nm.v, str):
        return [(s, NONE) for s in I.setattr(args[0], nm.v, args[2], st, n)]
    I.lose("setattr")
    return [(st, NONE)]


def b_type(I, args, kw, st, n):
    if len(args) != 1:
        return [(st, I.lose("type()"))]
    out = []
    for a in args[0].a:
        c = a.__class__
        if c is R:
            o = st.heap.get(a.addr)
            if o is not None and M.usercls(o):
                out.append(R(o.cls.addr))
                continue
            if o is not None and o.kind in ("list", "set", "dict", "frozenset"):
                out.append(X("builtins." + o.kind))
                continue
        if c is C and isinstance(a.v, (bool, str)):
            out.append(X("builtins." + type(a.v).__name__))
        elif c is S:
            out.append(X("builtins.str"))
        elif c in (T, TO):
            out.append(X("builtins.tuple"))
        elif c is N:
            for k in a.kinds:
                k = k.rstrip("~")
                out.append(X({"int": "builtins.int", "float": "builtins.float", "frac": "fractions.Fraction", "mpq": "gmpy2.mpq",
                              "inf": "builtins.float"}.get(k, "type." + k)))
        else:
            out.append(X("type.?"))
    return [(st, V(frozenset(out), args[0].l))]


def b_slice(I, args, kw, st, n):
    a = list(args) + [NONE] * (3 - len(args))
    if len(args) == 1:
        a = [NONE, args[0], NONE]
    return [(st, v(XV("slice", tuple(a[:3]))))]


def b_super(I, args, kw, st, n):
    return [(st, I.lose("super"))]


def b_object(I, args, kw, st, n):
    return [(st, I.alloc(st, n, Obj("ext", cls="object"), "obj"))]


def b_vars(I, args, kw, st, n):
    return [(st, I.lose("vars"))]


b_locals = b_globals = b_dir = b_eval = b_exec = b_compile = b___import__ = b_vars


def b_chr(I, args, kw, st, n):
    return [(st, STR)]


b_hex = b_bin = b_oct = b_chr


def b_ord(I, args, kw, st, n):
    return [(st, num(0, None))]


def b_property(I, args, kw, st, n):
    return [(st, v(XV("property", (args[0], args[1] if len(args) > 1 else NONE))))]


def b_staticmethod(I, args, kw, st, n):
    return [(st, v(XV("staticmethod", (args[0],))))]


# ------------------------------------------------------------------ math / numbers
def frac_call(I, path, args, kw, st, n):
    from . import ops
    k = "mpq" if "mpq" in path else "frac"
    if not args:
        return [(st, v(N(frozenset((k,)), iconst(0))))]
    out = []
    xs = []
    for x in args[:2]:
        y = []
        for a in x.a:
            m = M.numlike(a)
            if m is not None:
                ks = frozenset((k + "~") if (q in M.INEXACT) else k if q != "num" else "num" for q in m.kinds)
                y.append(N(ks, m.i, m.unit, m.src))
            elif a.__class__ in (S, C):
                if a.__class__ is C and not isinstance(a.v, str):
                    I.raise_exc(st.fork(), "TypeError", n, implicit=True)
                    continue
                if a.__class__ is C:
                    try:
                        q = _Fr(a.v)
                    except ValueError:
                        I.raise_exc(st.fork(), "ValueError", n, implicit=True)
                        continue
                    except ZeroDivisionError:
                        I.raise_exc(st.fork(), "ZeroDivisionError", n, implicit=True)
                        continue
                    y.append(N(frozenset((k,)), iconst(int(q) if q.denominator == 1 else q)))
                    continue
                I.raise_exc(st.fork(), "ValueError", n, implicit=True)
                y.append(N(frozenset((k,)), L.TOPI))
            elif a.__class__ is TOP:
                y.append(N(frozenset(("num",)), L.TOPI, None))
            else:
                I.raise_exc(st.fork(), "TypeError", n, implicit=True)
        xs.append(y)
    if len(xs) == 1:
        if not xs[0]:
            return []
        return [(st, V(norm_atoms(frozenset(xs[0])), any_labels(args)))]
    if not all(xs):
        return []
    for a in xs[0]:
        for b in xs[1]:
            r = ops.num_op(I, "/", a, b, st, n)
            if r is not None:
                out.append(r)
    return [(st, V(norm_atoms(frozenset(out)), any_labels(args)))] if out else []


def math_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    labs = any_labels(args, kw)
    ns = M.as_n(args[0]) if args else []
    if f == "isclose":
        I.emit("isclose", n, lagg=M.agg_of(args[0].l), ragg=M.agg_of(args[1].l), l=repr(args[0]), r=repr(args[1]))
        for x in ns:
            for y in M.as_n(args[1]):
                M.unit_check(I, x, y, n, "isclose")
        # equality within tolerance
        return [(st, V(BOOL.a, labs))]
    if f in ("ceil", "floor", "trunc"):
        out = []
        for m in ns:
            if m.kinds <= {"int"}:
                out.append(m)
                continue
            k = "int~" if m.kinds & M.INEXACT else "int"
            c = m.const()
            import math as _m
            if c is not None:
                i = iconst(int(getattr(_m, f)(c)))
            else:
                lo, hi = m.i
                # integers bounds survive rounding; ceil may move up to the next integer
                intl = lambda l: all(isinstance(q, int) or q.denominator == 1 for _, q in l.t) and (isinstance(l.c, int) or l.c.denominator == 1)
                lo2 = [l for l in lo if intl(l)]
                if not lo2 and L.positive(m.i):
                    lo2 = [L.ONE] if f == "ceil" else [L.ZERO]
                hi2 = [h for h in hi if intl(h)]
                if not lo2 and L.nonneg(m.i):
                    lo2 = [L.ZERO]
                i = L.norm(tuple(lo2), tuple(hi2))
            out.append(N(frozenset((k,)), i, m.unit, m.src))
        if not out:
            return [(st, I.lose("math." + f))]
        return [(st, V(norm_atoms(frozenset(out)), labs))]
    if f in ("factorial", "comb", "gcd", "lcm", "perm", "isqrt"):
        lo = 1 if f in ("factorial", "lcm") else 0
        return [(st, num(lo, None, labels=labs))]
    if f in ("isnan", "isinf", "isfinite"):
        return [(st, V(BOOL.a, labs))]
    if f == "prod":
        for s, x, lens, l2, items in elems(I, args[0], st, n):
            ks = frozenset()
            for m in M.as_n(x):
                ks = ks | m.kinds
            return [(s, v(N(ks or INT, L.TOPI, None), labels=labs | l2 | x.l))]
    if f == "fsum":
        for s, x, lens, l2, items in elems(I, args[0], st, n):
            return [(s, v(N(FLOAT, L.TOPI, None, I.site(n)), labels=labs | l2 | x.l))]
    if f == "fabs":
        return [(st, v(N(FLOAT, irange(0, None), ns[0].unit if ns else None, I.site(n)), labels=labs))]
    i = irange(0, None) if f in ("sqrt", "exp", "pow") else L.TOPI
    u = D0
    if ns and ns[0].unit != D0 and f in ("sqrt", "log", "exp", "pow", "log2", "log10"):
        u = None
    return [(st, v(N(FLOAT, i, u, I.site(n)), labels=labs))]


# ------------------------------------------------------------------ itertools & co
def itertools_call(I, path, args, kw, st, n):
    f = path[len("itertools."):]
    from .containers import from_iter, flags_of, build
    if f in ("combinations", "combinations_with_replacement", "permutations"):
        r = args[1] if len(args) > 1 else kw.get("r")
        for s, items, elem, lens, labs, fl_ in from_iter(I, args[0], st, n):
            e = elem if items is None else joins(items)
            if r is None or r == NONE:
                rl = hull(lens)
            else:
                rl = M.num_hull(r)
            fl2 = frozenset(z for z in fl_ if z in ("asc", "ndup", "sub") or z[0] == "?") if f == "combinations" else frozenset(("?perm",))
            fl2 = fl2 | part_rels(fl_)
            h = hull(lens)
            c = L.constval(rl)
            lo = 0
            hi = None
            if L.nonneg(rl):
                d = L.isub(h, rl)
                if L.nonneg(d):
                    lo = 1
            if f == "combinations" and L.exact(h) is not None and L.exact(h) == L.exact(rl):
                hi = 1
            if all(any(L.lt(a_, b_) for b_ in rl[0]) for a_ in h[1]) and h[1]:
                hi = lo = 0
            labs2 = labs | (r.l if r is not None else NOLAB)
            if c == 0:
                tup = v(T(()))
                hi = lo = 1
            else:
                tup = v(TO(e, (rl if L.nonneg(rl) else L.norm((L.ZERO,) + rl[0], rl[1]),), fl2), labels=NOLAB)
            if hi == 0:
                return [(s, I.alloc(s, n, Obj("iter", items=(), lens=(iconst(0),), labels=labs2), "comb"))]
            return [(s, I.alloc(s, n, Obj("iter", elem=tup, lens=(irange(lo, hi),), labels=labs2, fl=frozenset(("ndup",)) if "ndup" in fl_ else NOLAB), "comb"))]
        return []
    if f == "product":
        cur = st
        es = []
        labs = NOLAB
        rep = kw.get("repeat")
        for x in args:
            for s, items, elem, lens, l2, fl_ in from_iter(I, x, cur, n):
                cur = s
                es.append(elem if items is None else joins(items))
                labs = labs | l2
                break
        if rep is not None:
            tup = v(TO(joins(es), (M.num_hull(rep),)))
        else:
            tup = v(T(es))
        return [(cur, I.alloc(cur, n, Obj("iter", elem=tup, lens=(irange(0, None),), labels=labs), "prod"))]
    if f in ("chain", "chain.from_iterable"):
        cur = st
        if f == "chain":
            parts = [(None, x) for x in args]
        else:
            parts = None
        e = BOT
        labs = NOLAB
        ln = iconst(0)
        if parts is not None:
            for _, x in parts:
                for s, y, lens, l2, items in elems(I, x, cur, n):
                    cur = s
                    e = join(e, y)
                    labs = labs | l2
                    ln = L.iadd(ln, hull(lens))
        else:
            inner = []
            for s, y, lens, l2, items in elems(I, args[0], cur, n):
                cur = s
                labs = labs | l2 | y.l
                outer = hull(lens)
                inn = None
                if y.a:
                    for s2, z, lens2, l3, items2 in elems(I, y, cur, n):
                        cur = s2
                        e = join(e, z)
                        labs = labs | l3
                        h2 = hull(lens2)
                        inn = h2 if inn is None else L.ijoin(inn, h2)
                inner.append(L.imul(outer, inn) if inn is not None else iconst(0))
            ln = inner[0] if inner else iconst(0)
            if not L.nonneg(ln):
                ln = irange(0, None)
        return [(cur, I.alloc(cur, n, Obj("iter", elem=e, lens=(ln,), labels=labs), "chain"))]
    if f == "islice":
        out = []
        for s, items, elem, lens, labs, fl_ in from_iter(I, args[0], st, n):
            stop = args[1] if len(args) == 2 else args[2]
            e = elem if items is None else joins(items)
            h = hull(lens)
            parts = []
            for z in stop.a:
                m = M.numlike(z)
                if m is not None:
                    q = M._imin(h, m.i)
                    if len(args) > 2:
                        q = L.norm((L.ZERO,), q[1])
                    if not q[0]:
                        q = L.norm((L.ZERO,), q[1])
                    parts.append(q)
                else:
                    parts.append(h)
            out.append((s, I.alloc(s, n, Obj("iter", elem=e, lens=norm_lens(parts), labels=labs | stop.l, fl=fl_), "islice")))
        return out
    if f in ("count",):
        lo = M.num_hull(args[0]) if args else iconst(0)
        return [(st, I.alloc(st, n, Obj("iter", elem=numi((lo[0], ())), lens=(irange(1 << 40, None),)), "count"))]
    if f in ("repeat", "cycle"):
        if f == "repeat" and len(args) > 1:
            return [(st, I.alloc(st, n, Obj("iter", elem=args[0], lens=(M.num_hull(args[1]),)), "rep"))]
        e = args[0] if f == "repeat" else elems(I, args[0], st, n)[0][1]
        return [(st, I.alloc(st, n, Obj("iter", elem=e, lens=(irange(1 << 40, None),)), "rep"))]
    if f == "accumulate":
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            y = x
            for _ in range(3):
                if len(args) > 1:
                    r = I.call(args[1], [y, x], {}, s.fork(), n)
                else:
                    r = I.binop(ast.Add(), y, x, s, n)
                y2 = join(y, joins([z for _, z in r]))
                if y2 == y:
                    break
                y = widen_value(y, y2)
            return [(s, I.alloc(s, n, Obj("iter", elem=y, lens=lens, labels=labs), "acc"))]
        return []
    if f == "groupby":
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            k = M.call_key(I, args[1] if len(args) > 1 else kw.get("key", NONE), x, s, n)
            g = I.alloc(s, n, Obj("iter", elem=x, lens=(irange(1, None),), labels=labs), "grp")
            return [(s, I.alloc(s, n, Obj("iter", elem=v(T((k, g))), lens=(L.norm((L.ZERO,), hull(lens)[1]),), labels=labs), "grpby"))]
        return []
    if f in ("takewhile", "dropwhile", "filterfalse"):
        return [(st, v(XV("filter", (v(X("builtins.bool")), args[1]))))]
    if f == "zip_longest":
        return [(st, v(XV("zip", tuple(args))))]
    if f == "tee":
        return [(st, v(T([args[0], args[0]])))]
    if f == "starmap":
        for s, x, lens, labs, items in elems(I, args[1], st, n):
            es = []
            for z in x.a:
                if z.__class__ is T:
                    for s2, y in I.call(args[0], list(z.items), {}, s.fork(), n):
                        es.append(y)
            return [(s, I.alloc(s, n, Obj("iter", elem=joins(es), lens=lens, labels=labs), "smap"))]
    if f == "pairwise":
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            return [(s, I.alloc(s, n, Obj("iter", elem=v(T((x, x))), lens=(L.norm((L.ZERO,), hull(lens)[1]),), labels=labs), "pw"))]
    return [(st, I.lose("itertools." + f))]


def functools_call(I, path, args, kw, st, n):
    f = path[len("functools."):]
    if f == "partial":
        out = BOT
        for a in args[0].a:
            if a.__class__ in (F, BM, X, P, XV, R, TOP):
                out = join(out, v(P(v(a), tuple(args[1:]), kw)))
        return [(st, out)]
    if f in ("lru_cache", "cache"):
        fa = args[0].one() if args else None
        if fa.__class__ is F:
            return [(st, v(XV("cached", (args[0], fa.info.qualname))))]
        return [(st, v(XV("deco", ("functools.lru_cache",))))]
    if f == "wraps":
        return [(st, v(XV("deco", ("functools.wraps",))))]
    if f == "cmp_to_key":
        return [(st, v(XV("cmpkey", (args[0],))))]
    if f == "reduce":
        for s, x, lens, labs, items in elems(I, args[1], st, n):
            if len(args) > 2:
                acc = args[2]
            else:
                acc = x
                if not x.a:
                    I.raise_exc(s, "TypeError", n, implicit=True)
                    return []
            if items is not None and len(items) <= 6:
                its = list(items)
                if len(args) <= 2:
                    acc = its.pop(0)
                cur = [(s, acc)]
                for y in its:
                    nx = []
                    for s1, z in cur:
                        nx += I.call(args[0], [z, y], {}, s1, n)
                    cur = nx
                return cur
            cur = s
            for k in range(6):
                r = I.call(args[0], [acc, x], {}, cur.fork(), n)
                if not r:
                    break
                y = join(acc, joins([z for _, z in r]))
                if y == acc:
                    break
                cur = join_state(cur, join_states([q for q, _ in r]))
                acc = widen_value(acc, y) if k >= 1 else y
            return [(cur, acc.lab(labs))]
        return []
    if f == "singledispatch":
        return [(st, args[0])]
    if f in ("cache_clear", "cache_info"):
        return [(st, NONE)]
    return [(st, I.lose("functools." + f))]


def collections_call(I, path, args, kw, st, n):
    f = path[len("collections."):]
    if f == "defaultdict":
        me = I.alloc(st, n, Obj("dict", attrs={"__factory__": args[0]} if args and args[0] != NONE else {}), "dd")
        rest = args[1:]
    elif f == "Counter":
        me = I.alloc(st, n, Obj("dict", attrs={"__factory__": v(XV("constfn", (const(0),)))}), "ctr")
        if args:
            out = []
            for s, x, lens, labs, items in elems(I, args[0], st, n):
                o = s.heap[me.one().addr]
                if x.a:
                    s.heap[me.one().addr] = o.rep(key=x, elem=num(1, None), lens=(L.norm((L.ZERO,), hull(lens)[1]),), labels=labs)
                out.append((s, me))
            return out
        return [(st, me)]
    elif f == "OrderedDict":
        me = I.alloc(st, n, Obj("dict"), "od")
        rest = args
    elif f == "deque":
        if args:
            return b_list(I, args[:1], {}, st, n)
        return [(st, I.alloc(st, n, Obj("list", items=()), "dq"))]
    elif f == "namedtuple":
        return [(st, I.lose("namedtuple"))]
    else:
        return [(st, I.lose("collections." + f))]
    out = []
    for s, _ in M.call_method(I, "dict.update", me, list(rest), kw, st, n):
        out.append((s, me))
    return out


def operator_call(I, path, args, kw, st, n):
    f = path[len("operator."):]
    opm = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod,
           "or_": ast.BitOr, "and_": ast.BitAnd, "xor": ast.BitXor, "pow": ast.Pow}
    if f in opm:
        return I.binop(opm[f](), args[0], args[1], st, n)
    if f == "itemgetter":
        return [(st, v(XV("itemgetter", (args[0],))))]
    if f == "attrgetter":
        return [(st, v(XV("attrgetter", (args[0],))))]
    if f in ("eq", "ne", "lt", "le", "gt", "ge"):
        o = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[f]
        r = M.compare2(I, o, args[0], args[1], None, None, st, n)
        return [(s, v(C(t), labels=l)) for s, t, l in r]
    if f == "neg":
        return [(st, M.unary(I, ast.USub(), args[0], st, n))]
    return [(st, I.lose("operator." + f))]


def copy_call(I, path, args, kw, st, n):
    f = path[5:]
    if f == "copy":
        out = BOT
        res = []
        for a in args[0].a:
            if a.__class__ is R:
                o = st.heap.get(a.addr)
                if o is None:
                    out = join(out, I.lose("dangling"))
                    continue
                if M.usercls(o):
                    m = I.class_lookup(R(o.cls.addr), "__copy__", st)
                    if m is not None:
                        for s, bm in I.getattr(v(a), "__copy__", st, n):
                            res += I.call(bm, [], {}, s, n)
                        continue
                out = join(out, I.alloc(st, n, o.rep(owner="fresh", attrs=dict(o.attrs)), "copy"))
            else:
                out = join(out, v(a, labels=args[0].l))
        if out.a:
            res.append((st, out))
        return res
    if f == "deepcopy":
        memo = {}

        def dc(x, s):
            out = BOT
            for a in x.a:
                c = a.__class__
                if c is R:
                    o = s.heap.get(a.addr)
                    if o is None:
                        out = join(out, I.lose("dangling"))
                        continue
                    if o.kind in ("cls", "module", "func", "frame"):
                        out = join(out, v(a))
                        continue
                    if a.addr in memo:
                        out = join(out, memo[a.addr])
                        continue
                    if M.usercls(o):
                        m = I.class_lookup(R(o.cls.addr), "__deepcopy__", s)
                        if m is not None:
                            memo_d = I.alloc(s, n, Obj("dict"), "memo")
                            for s2, bm in I.getattr(v(a), "__deepcopy__", s, n):
                                for s3, y in I.call(bm, [memo_d], {}, s2, n):
                                    if s3 is not s:
                                        s.heap.clear()
                                        s.heap.update(s3.heap)
                                    out = join(out, y)
                            continue
                    na = (I.site(n, "dc" + repr(hash(a.addr) % 100000)), I.stack[-1].ctxid, a.addr[2])
                    memo[a.addr] = v(R(na))
                    s.heap[na] = o.rep(owner="fresh")
                    s.heap[na] = o.rep(owner="fresh", attrs={k: dc(y, s) for k, y in o.attrs.items()},
                                       items=None if o.items is None else tuple(dc(y, s) for y in o.items),
                                       ents=tuple((k, dc(y, s), p) for k, y, p in o.ents), key=dc(o.key, s), elem=dc(o.elem, s))
                    out = join(out, v(R(na)))
                elif c is T:
                    out = join(out, v(T([dc(y, s) for y in a.items])))
                elif c is TO:
                    out = join(out, v(TO(dc(a.elem, s), a.lens, a.fl)))
                else:
                    out = join(out, v(a))
            return out.lab(x.l)

        r = dc(args[0], st)
        return [(st, r)] if r.a else []
    return [(st, I.lose(path))]


def random_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    I.emit("nondet", n, what=path)
    nd = frozenset(("nondet:random",))
    if f == "shuffle":
        for a in args[0].a:
            if a.__class__ is R:
                o = st.heap.get(a.addr)
                if o is not None and o.kind == "list":
                    I.put(st, a.addr, despecialise(o).rep(fl=o.fl - {"asc"}, labels=o.labels | nd), n, "shuffle")
        return [(st, NONE)]
    if f in ("sample", "choices"):
        from .containers import from_iter
        k = args[1] if len(args) > 1 else kw.get("k", const(1))
        for s, items, elem, lens, labs, fl_ in from_iter(I, args[0], st, n):
            e = elem if items is None else joins(items)
            kl = M.num_hull(k)
            return [(s, I.alloc(s, n, Obj("list", elem=e if L.constval(kl) != 0 else BOT, items=None, lens=(kl if L.nonneg(kl) else L.norm((L.ZERO,) + kl[0], kl[1]),), labels=labs | nd,
                                          fl=(fl_ & {"ndup"}) | part_rels(fl_) if f == "sample" else NOLAB), "sample"))]
        return []
    if f == "choice":
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            return [(s, x.lab(nd | labs))]
        return []
    if f in ("randint", "randrange", "getrandbits", "integers"):
        return [(st, num(None, None, labels=nd))]
    if f in ("Random", "SystemRandom", "default_rng", "RandomState"):
        return [(st, I.alloc(st, n, Obj("ext", cls="rng"), "rng"))]
    if f == "seed":
        return [(st, NONE)]
    return [(st, v(N(FLOAT, L.TOPI, D0, I.site(n)), labels=nd))]


def time_call(I, path, args, kw, st, n):
    I.emit("nondet", n, what=path)
    return [(st, v(N(FLOAT, L.TOPI, D0, I.site(n)), labels=frozenset(("nondet:time",))))]


def os_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    if f in ("join", "basename", "dirname", "abspath", "realpath", "normpath", "getcwd", "expanduser", "fspath"):
        return [(st, STR)]
    if f in ("exists", "isfile", "isdir"):
        I.emit("io", n, what=path)
        return [(st, BOOL)]
    if f in ("walk",):
        I.emit("io", n, what=path)
        fn = I.alloc(st, n, Obj("list", elem=STR, lens=(irange(0, None),), fl=frozenset(("?fsorder",))), "files")
        return [(st, I.alloc(st, n, Obj("iter", elem=v(T((STR, fn, fn))), lens=(irange(0, None),)), "walk"))]
    if f in ("listdir", "scandir", "glob"):
        I.emit("io", n, what=path)
        return [(st, I.alloc(st, n, Obj("list", elem=STR, lens=(irange(0, None),), fl=frozenset(("?fsorder",))), "files"))]
    if f in ("splitext", "split"):
        return [(st, v(T([STR, STR])))]
    if f in ("getenv", "get", "cpu_count", "urandom", "getpid"):
        I.emit("nondet", n, what=path)
        return [(st, v(S(), C(None), labels=frozenset(("nondet:env",))))]
    I.emit("io", n, what=path)
    return [(st, I.lose(path))]


def text_call(I, path, args, kw, st, n):
    return [(st, V(STR.a, any_labels(args, kw)))]


def warnings_call(I, path, args, kw, st, n):
    I.emit("print", n, stack=(path,), labels=tuple(sorted(map(str, st.pc))))
    return [(st, NONE)]


def dataclass_field(I, path, args, kw, st, n):
    if path.endswith(".field"):
        return [(st, v(XV("dcfield", (kw.get("default_factory", NONE), kw.get("default", NONE)))))]
    return [(st, I.lose(path))]


# ------------------------------------------------------------------ numpy / networkx
def numpy_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    if ".random" in path:
        return random_call(I, path, args, kw, st, n)
    labs = any_labels(args, kw)
    if f in ("floor", "ceil"):
        return [(st, v(N(frozenset(("npfloat",)), L.TOPI, None, I.site(n)), labels=labs))]
    if f in ("array", "zeros", "ones", "arange", "asarray", "linspace", "full", "empty", "zeros_like", "append", "where", "sort", "cumsum"):
        # the array of a short sequence of numbers remembers its contents (until it is modified)
        its = None
        if f in ("array", "asarray") and args and len(args[0].a) == 1:
            b = args[0].one()
            o = st.heap.get(b.addr) if b.__class__ is R else None
            its = b.items if b.__class__ is T else o.items if o is not None and o.kind == "list" else None
        at = {"__of__": v(T(tuple(its)))} if its is not None and all(z.__class__ is N for y in its for z in y.a) else {}
        return [(st, I.alloc(st, n, Obj("ext", cls="ndarray", labels=labs, attrs=at), "np").lab(labs))]
    if f in ("isclose", "allclose"):
        I.emit("isclose", n, lagg=M.agg_of(args[0].l), ragg=M.agg_of(args[1].l), l=repr(args[0]), r=repr(args[1]))
        return [(st, V(BOOL.a, labs))]
    return [(st, v(N(frozenset(("npfloat",)), L.TOPI, None, I.site(n)), labels=labs))]


def nx_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    labs = any_labels(args, kw)
    for a in args:
        for z in a.a:
            if z.__class__ is R and st.heap.get(z.addr) is not None:
                labs = labs | st.heap[z.addr].labels
    if f in ("Graph", "DiGraph", "MultiDiGraph", "MultiGraph"):
        return [(st, I.alloc(st, n, Obj("ext", cls="networkx." + f), "graph"))]
    if f in ("maximum_matching", "hopcroft_karp_matching"):
        return [(st, I.alloc(st, n, Obj("dict", key=top("nx node", labs), elem=top("nx node", labs), lens=(irange(0, None),), labels=labs), "match"))]
    if f in ("capacity_scaling", "network_simplex"):
        d = I.alloc(st, n, Obj("dict", key=top("nx node", labs), elem=top("nx flow", labs), lens=(irange(0, None),), labels=labs), "flow")
        return [(st, v(T((v(N(INT, L.TOPI, (L.ZERO, 1)), labels=labs), d)), labels=labs))]
    return [(st, I.lose(path))]


# ------------------------------------------------------------------ solvers
GUROBI_STATUS = ("OPTIMAL", "INFEASIBLE", "INF_OR_UNBD", "UNBOUNDED", "CUTOFF", "ITERATION_LIMIT", "NODE_LIMIT", "TIME_LIMIT", "SOLUTION_LIMIT",
                 "INTERRUPTED", "NUMERIC", "SUBOPTIMAL", "USER_OBJ_LIMIT", "WORK_LIMIT", "MEM_LIMIT")
MIP_STATUS = ("OPTIMAL", "INFEASIBLE", "INT_INFEASIBLE", "FEASIBLE", "NO_SOLUTION_FOUND", "UNBOUNDED", "ERROR", "CUTOFF", "OTHER")


def status_set(solver):
    if solver == "gurobi":
        return V(frozenset(X("gurobipy.GRB." + s) for s in GUROBI_STATUS), NOLAB)
    if solver == "mip":
        return V(frozenset(X("mip.OptimizationStatus." + s) for s in MIP_STATUS), NOLAB)
    return V(frozenset(X("ortools.sat.python.cp_model." + s) for s in ("OPTIMAL", "INFEASIBLE", "FEASIBLE", "UNKNOWN", "MODEL_INVALID")), NOLAB)


def gurobi_call(I, path, args, kw, st, n):
    f = path[len("gurobipy."):]
    if f == "Model":
        return [(st, I.alloc(st, n, Obj("ext", cls="gurobi.Model", attrs={"must": FIRST}), "model"))]
    if f in ("quicksum", "LinExpr", "QuadExpr"):
        if not args:
            return [(st, v(XV("expr", (BOT, v(N(frozenset(("num",)), iconst(0)))))))]
        return b_sum(I, args[:1], {}, st, n) if f == "quicksum" else [(st, v(XV("expr", (BOT, num()))))]
    if f in ("min_", "max_", "and_", "or_", "abs_"):
        return genexpr(I, args, st, n)
    if f == "tuplelist" or f == "tupledict":
        return b_list(I, args, kw, st, n)
    if f == "Env" or f == "setParam":
        return [(st, NONE)]
    return [(st, I.lose(path))]


def genexpr(I, args, st, n):
    mv, p, labs = BOT, BOT, NOLAB

    def walk(x):
        nonlocal mv, p, labs
        labs = labs | x.l
        for z in x.a:
            if z.__class__ is XV and z.path in EXPR:
                mv = join(mv, z.data[0])
                p = join(p, z.data[1])
            elif M.numlike(z) is not None:
                p = join(p, v(M.numlike(z)))
            elif z.__class__ is R:
                o = st.heap.get(z.addr)
                if o is not None:
                    walk(o.all_elem())
            elif z.__class__ is T:
                for y in z.items:
                    walk(y)
            elif z.__class__ is TO:
                walk(z.elem)

    for x in args:
        walk(x)
    return [(st, v(XV("expr", (mv, p if p.a else num())), labels=labs))]


def mip_call(I, path, args, kw, st, n):
    f = path[len("mip."):]
    if f == "Model":
        sn = kw.get("solver_name", args[2] if len(args) > 2 else NONE)
        I.emit("solver", n, lib="mip", name=repr(sn))
        return [(st, I.alloc(st, n, Obj("ext", cls="mip.Model", attrs={"solver_name": sn, "must": FIRST}), "model"))]
    if f in ("xsum",):
        return b_sum(I, args[:1], {}, st, n)
    if f in ("minimize", "maximize"):
        I.emit("objective", n, sense=f)
        return [(st, v(XV("objective", (args[0], const(f)))))]
    return [(st, I.lose(path))]


def ortools_call(I, path, args, kw, st, n):
    f = path.split(".")[-1]
    if f == "CpModel":
        return [(st, I.alloc(st, n, Obj("ext", cls="ortools.Model", attrs={"must": FIRST}), "model"))]
    if f == "CpSolver":
        return [(st, I.alloc(st, n, Obj("ext", cls="ortools.Solver"), "solver"))]
    return [(st, I.lose(path))]


def newvar(I, modelv, lb, ub, st, n, integer=False, labels=NOLAB, tag=""):
    """abstract decision variable with bounds; its weight unit is that of its bounds, if any"""
    unit = None
    i = [(), ()]
    labs = lb.l | ub.l
    for k, b in ((0, lb), (1, ub)):
        for z in b.a:
            m = M.numlike(z)
            if m is not None and m.kinds != INF:
                i[k] = m.i[k]
                if not m.iszero() and m.unit is not None and m.unit is not MIX and unit is None:
                    unit = m.unit
    if unit is None:
        unit = (L.sym("u" + I.site(n, tag)), 0)
    return v(XV("gvar", (modelv, v(N(frozenset(("num",)), (i[0], i[1]), unit), labels=labs))), labels=labels)


def binvar(I, modelv):
    return v(XV("gvar", (modelv, v(N(frozenset(("num",)), irange(0, 1))))))


def extobj_attr(I, a, o, name, st, n):
    c = o.cls
    if c in ("gurobi.Model", "mip.Model"):
        low = name.lower()
        if low == "status":
            s = o.attrs.get("status")
            if s is None:
                I.emit("status-unsolved", n)
                return v(X("gurobipy.GRB.LOADED"))
            return s
        if low in ("objval", "objective_value", "objbound", "runtime", "solcount", "num_solutions", "mipgap", "gap"):
            if low in ("objval", "objective_value"):
                solution_read(I, v(a), name, st, n)
                ob = o.attrs.get("objective")
                vals = []
                if ob is not None:
                    for z in ob.a:
                        if z.__class__ is N:
                            vals.append(N(FLOAT, L.TOPI, z.unit, I.site(n)))
                x = V(norm_atoms(frozenset(vals)), ob.l) if vals else v(N(FLOAT, L.TOPI, None, I.site(n)))
                return x.lab(o.labels)
            return v(N(FLOAT, irange(0, None), D0, I.site(n)), labels=o.labels)
        if name == "Params":
            return v(XV("params", (v(a),)))
        if name == "objective":
            return o.attrs.get("objexpr", NONE)
        if name in ("getVars", "vars", "num_cols", "getAttr"):
            if name == "vars":
                return I.lose("model.vars")
        if name in o.attrs:
            return o.attrs[name]
    if c == "file":
        return v(BM("fileobj." + name, v(a)))
    return v(XV("extmethod", (v(a), name)))


def ext_setattr(I, a, o, name, x, st, n):
    if name == "objective" and o.cls == "mip.Model":
        for z in x.a:
            if z.__class__ is XV and z.path == "objective":
                set_objective(I, a, z, x.l, st)


def set_param(I, a, name, x, st):
    """model.setParam(name, x) / model.Params.name = x"""
    nm = name.one().v if name.one().__class__ is C else None
    if isinstance(nm, str):
        set_model(st, a, st.heap[a.addr], **{"param:" + nm.lower(): x})


def setattr_xv(I, a, name, x, st, n):
    if a.path == "params":
        for z in a.data[0].a:
            I.emit("param", n, name=repr(name), value=repr(x))
            set_param(I, z, const(name), x, st)


def model_gap(o):
    """largest possible relative optimality gap of a model with integer variables: number, "default" or None (no integer variable)"""
    if "int" not in o.attrs:
        return None
    x = o.attrs.get("param:mipgap", o.attrs.get("max_mip_gap"))
    if x is None:
        return "default"
    r = 0
    for z in x.a:
        m = M.numlike(z)
        if m is None:
            return "default" if z in UNDEF.a else "?"
        hi = [float(h.c) for h in m.i[1] if h.is_const()]
        if not hi:
            return "?"
        r = max(r, min(hi))
    return r


def set_objective(I, a, z, labs, st):
    """model.objective = minimize(expr) / model += minimize(expr) of python-mip"""
    p = BOT
    for y in z.data[0].a:
        q = numpart(y)
        p = join(p, q)
        labs = labs | q.l
    set_model(st, a, st.heap[a.addr], objective=p, sense=z.data[1], objw=const("weight" in labs | z.data[0].l))
    o = st.heap[a.addr]
    st.heap[a.addr] = o.rep(labels=o.labels | labs | z.data[0].l | st.pc)


def getitem_ext(I, a, o, ix, st, n):
    if o.cls == "gurobi.tupledict":
        return [(st, o.elem.lab(o.labels))]
    if o.cls == "ndarray":
        return [(st, v(N(frozenset(("npfloat",)), L.TOPI, None), labels=o.labels))]
    return [(st, I.lose("getitem of " + str(o.cls)))]


def setitem_ext(I, a, o, ix, x, st, n):
    if o.cls == "gurobi.tupledict":
        I.put(st, a.addr, o.rep(elem=join(o.elem, x)), n, "item assignment")
    elif o.cls.startswith("preflib.") or o.cls.startswith("ruamel"):
        I.put(st, a.addr, o.rep(labels=o.labels | x.l), n, "item assignment")
    elif o.cls == "ndarray":
        I.put(st, a.addr, o.rep(labels=o.labels | x.l, attrs={"__of__": top("array")}), n, "item assignment")


def getitem_xv(I, a, ix, st, n):
    if a.path in EXPR:
        return [(st, v(a))]
    if a.path == "typeof":
        return [(st, v(a))]
    if a.path == "rev" or a.path == "iter":
        for s, x, lens, labs, items in elems(I, v(a), st, n):
            return [(s, x)]
    return [(st, I.lose("getitem of " + a.path))]


def getitem_x(I, a, ix, st, n):
    return I.lose("getitem of " + a.path)


def binop_extobj(I, o, x, y, st, n):
    ox = st.heap.get(x.addr) if x.__class__ is R else None
    if ox is not None and ox.kind == "ext":
        return [(st, v(x))]
    return [(st, v(y))]


def inplace_ext(I, o, a, x, st, n):
    ob = st.heap[a.addr]
    if ob.cls == "mip.Model" and o == "+":
        add_constraint(I, a, ob, x, st, n)
        return [(st, v(a))]
    return [(st, v(a))]


def set_model(st, a, o, **at):
    d = dict(o.attrs)
    d.update(at)
    st.heap[a.addr] = o.rep(attrs=d)


FIRST = v(C("first"))


def add_constraint(I, a, o, x, st, n):
    kinds = []
    labs = x.l
    for z in x.a:
        if z.__class__ is XV and z.path == "cstr":
            op = z.data[1].one().v
            rhs = z.data[2] if len(z.data) > 2 else BOT
            size = op == "==" and any(m.__class__ is N and L.exact(m.i) == L.sym("k") for m in rhs.a)
            r = "?"
            if len(rhs.a) == 1 and rhs.one().__class__ is N:
                e = L.exact(rhs.one().i)
                r = "?" if e is None else repr(e)
            lh = "?"
            if len(z.data) > 3 and len(z.data[3].a) == 1 and z.data[3].one().__class__ is N:
                e = z.data[3].one().i[1]
                lh = "|".join(map(repr, e)) if e else "?"
            cut = (op, r) in (("<=", "k-1"), ("<", "k"))
            kinds.append("size" if size else ("cut" if cut else "%s %s" % (op, r)) + " lhs<=" + lh)
            labs = labs | frozenset().union(*[y.l for y in z.data if y.__class__ is V])
        elif z.__class__ is XV and z.path == "objective":
            set_objective(I, a, z, labs, st)
            o = st.heap[a.addr]
        elif z.__class__ is C and isinstance(z.v, bool):
            kinds.append("const-%s" % z.v)
            I.emit("const-constraint", n, value=z.v)
        else:
            kinds.append("?")
    I.emit("constraint", n, kinds=tuple(sorted(set(kinds))))
    wt = {"wt"} if "weight" in labs else set()
    since = o.attrs.get("since", BOT)
    new = V(since.a | frozenset(C("c:" + k) for k in kinds), NOLAB)
    if len(kinds) == 1 and a.addr[2] != "s":
        nm = []
        for t in o.attrs.get("must", FIRST).a:
            if t.__class__ is C:
                ms = set(t.v.split(",")) | {kinds[0]} | wt
                nm.append(C(",".join(sorted(ms))))
            else:
                nm.append(t)
        d = dict(since=new, must=V(frozenset(nm)))
    else:
        d = dict(since=new)
    set_model(st, a, o, **d)
    o = st.heap[a.addr]
    st.heap[a.addr] = o.rep(labels=o.labels | labs | st.pc)


def add_objective(I, a, o, expr, sense, st, n):
    p = BOT
    labs = expr.l
    for z in expr.a:
        q = numpart(z)
        p = join(p, q)
        labs = labs | q.l
    I.emit("objective", n, sense=sense)
    set_model(st, a, o, objective=p, sense=const(sense), objw=const("weight" in labs))
    o = st.heap[a.addr]
    st.heap[a.addr] = o.rep(labels=o.labels | labs | st.pc)


def do_optimize(I, a, o, solver, st, n):
    prev = o.attrs.get("status")
    first, must = False, None
    for t in o.attrs.get("must", FIRST).a:
        if t.__class__ is not C:
            must = None if must is None else set()
            continue
        ms = set(t.v.split(","))
        if "first" in ms:
            first = True
        else:
            must = ms if must is None else must & ms
    since = {z.v for z in o.attrs.get("since", BOT).a if z.__class__ is C}
    wtmust = all("wt" in t.v.split(",") for t in o.attrs.get("must", FIRST).a if t.__class__ is C)
    prevs = set() if prev is None else {z.path.split(".")[-1] for z in prev.a if z.__class__ is X}
    I.emit("optimize", n, gap=model_gap(o) if solver != "ortools" else None, prev=tuple(sorted(prevs)), first=first, again=must is not None,
           must=tuple(sorted((must or set()) - {"wt"})), may=tuple(sorted(since)), objw=tuple(sorted(map(repr, o.attrs.get("objw", BOT).a))), mustw=wtmust, obj="objective" in o.attrs, sense=repr(o.attrs.get("sense")))
    d = dict(o.attrs)
    d["status"] = status_set(solver)
    d["since"] = BOT
    d["must"] = v(C(""))
    st.heap[a.addr] = o.rep(attrs=d)
    st.heap[("lastopt", 0, "r")] = Obj("ext", cls="lastopt", elem=v(a), owner="fresh")
    return d["status"].lab(o.labels)


def call_ext_method(I, selfv, name, args, kw, st, n):
    out = []
    for a in selfv.a:
        o = st.heap.get(a.addr) if a.__class__ is R else None
        if o is None:
            out.append((st, I.lose("ext method " + name)))
            continue
        c = o.cls
        me = v(a)
        if c == "ndarray" and name in ("sort", "fill", "put", "resize", "partition", "itemset", "setflags"):
            st.heap[a.addr] = o = o.rep(attrs={"__of__": top("array")})
        lab = any_labels(args, kw)
        if c == "gurobi.Model":
            out += gurobi_method(I, a, o, me, name, args, kw, st, n)
        elif c == "mip.Model":
            out += mip_method(I, a, o, me, name, args, kw, st, n)
        elif c == "ortools.Model":
            out += ortools_method(I, a, o, me, name, args, kw, st, n)
        elif c == "ortools.Solver":
            if name in ("Solve", "solve"):
                s_ = status_set("ortools")
                mo = args[0].one()
                labs = NOLAB
                if mo.__class__ is R:
                    m_o = st.heap[mo.addr]
                    s_ = do_optimize(I, mo, m_o, "ortools", st, n)
                    labs = m_o.labels
                    set_model(st, mo, st.heap[mo.addr], solvers=v(a))
                d = dict(o.attrs)
                d["status"] = V(s_.a, NOLAB)
                d["model"] = args[0]
                st.heap[a.addr] = o.rep(attrs=d, labels=o.labels | labs)
                out.append((st, s_))
            elif name in ("Value", "value", "BooleanValue", "boolean_value"):
                solution_read(I, me, name, st, n)
                vals = []
                for z in args[0].a:
                    for q in numpart(z).a:
                        if q.__class__ is N:
                            vals.append(N(INT, q.i, q.unit))
                x = V(norm_atoms(frozenset(vals)), o.labels) if vals else num(labels=o.labels)
                if "oolean" in name:
                    x = V(BOOL.a, o.labels)
                out.append((st, x))
            elif name in ("ObjectiveValue", "objective_value"):
                solution_read(I, me, name, st, n)
                out.append((st, v(N(FLOAT, L.TOPI, None, I.site(n)), labels=o.labels)))
            elif name in ("StatusName", "status_name"):
                out.append((st, STR))
            else:
                out.append((st, I.lose("ortools " + name)))
        elif c == "gurobi.tupledict":
            if name == "sum":
                p = []
                for z in o.elem.a:
                    if z.__class__ is XV and z.path in EXPR:
                        for q in z.data[1].a:
                            p.append(N(q.kinds, ((L.ZERO,), ()), q.unit))
                mv = joins([z.data[0] for z in o.elem.a if z.__class__ is XV])
                out.append((st, v(XV("expr", (mv, V(norm_atoms(frozenset(p)), NOLAB))), labels=o.labels)))
            elif name in ("values", "select"):
                out.append((st, I.alloc(st, n, Obj("list", elem=o.elem, lens=(irange(0, None),)), "vals")))
            elif name == "items":
                out.append((st, I.alloc(st, n, Obj("list", elem=v(T((top("key"), o.elem))), lens=(irange(0, None),)), "vals")))
            elif name == "keys":
                out.append((st, I.alloc(st, n, Obj("list", elem=top("key"), lens=(irange(0, None),)), "vals")))
            else:
                out.append((st, I.lose("tupledict." + name)))
        elif c.startswith("networkx."):
            labs = lab
            for x in args:
                labs = labs | str_labels(I, x, st)
            for x in kw.values():
                labs = labs | str_labels(I, x, st)
            I.put(st, a.addr, o.rep(labels=o.labels | labs | st.pc), n, name)
            out.append((st, NONE))
        elif c == "rng":
            I.emit("nondet", n, what="rng." + name)
            out += random_call(I, "random." + name, args, kw, st, n)
        elif c == "file":
            out.append((st, file_method(I, name, args, st, n)))
        elif c == "logger":
            out.append((st, NONE))
        else:
            h = EXTMETHODS.get(c)
            if h is not None:
                out += h(I, a, o, me, name, args, kw, st, n)
            else:
                out.append((st, I.lose("method %s.%s" % (c, name))))
    return out


EXTMETHODS = {}


def file_method(I, name, args, st, n):
    if name in ("read", "readline"):
        return STR
    if name == "readlines":
        return I.alloc(st, n, Obj("list", elem=STR, lens=(irange(0, None),)), "lines")
    return NONE


def gurobi_method(I, a, o, me, name, args, kw, st, n):
    if name in ("addVar", "addVars", "addMVar"):
        vt = kw.get("vtype", args[3] if len(args) > 3 and name == "addVar" else NONE)
        va = vt.one()
        lb = kw.get("lb", args[0] if args and name == "addVar" else const(0))
        ub = kw.get("ub", args[1] if len(args) > 1 and name == "addVar" else MATHC["inf"]())
        I.emit("var", n, vtype=repr(vt), lb=repr(lb), ub=repr(ub))
        if va.__class__ is X and va.path.endswith("BINARY"):
            x = binvar(I, me)
        else:
            x = newvar(I, me, lb, ub, st, n)
        labs = any_labels(args, kw) | st.pc
        o2 = st.heap[a.addr]
        st.heap[a.addr] = o2.rep(labels=o2.labels | labs)
        if integral(va):
            set_model(st, a, st.heap[a.addr], int=TRUE)
        if name == "addVar":
            return [(st, x)]
        return [(st, I.alloc(st, n, Obj("ext", cls="gurobi.tupledict", elem=x), "vars"))]
    if name in ("addConstr", "addLConstr", "addQConstr"):
        add_constraint(I, a, o, args[0] if args else kw.get("constr", BOT), st, n)
        return [(st, v(XV("constrref", ())))]
    if name in ("addConstrs",):
        for s, x, lens, labs, items in elems(I, args[0], st, n):
            add_constraint(I, a, s.heap[a.addr], x.lab(labs), s, n)
            return [(s, NONE)]
        return [(st, NONE)]
    if name.startswith("addGenConstr") or name == "addSOS":
        labs = NOLAB
        for x in list(args) + list(kw.values()):
            labs = labs | str_labels(I, x, st)
        # result variable has the unit of the operands
        xs = list(args)
        if name in ("addGenConstrMax", "addGenConstrMin", "addGenConstrAbs") and len(xs) >= 2:
            r1 = genexpr(I, [xs[0]], st, n)[0][1]
            r2 = genexpr(I, [xs[1]], st, n)[0][1]
            compare_expr(I, "==", r1, r2, st, n)
        if name == "addGenConstrIndicator" and len(xs) >= 3:
            if len(xs) >= 5:
                op = "=="
                compare_expr(I, op, xs[2], xs[4], st, n)
        add_constraint(I, a, o, v(XV("cstr", (me, const(">>"))), labels=labs), st, n)
        return [(st, NONE)]
    if name == "setObjective":
        sense = args[1] if len(args) > 1 else kw.get("sense", NONE)
        sa = sense.one()
        sn = {"MAXIMIZE": "maximize", "MINIMIZE": "minimize"}.get(sa.path.split(".")[-1] if sa.__class__ is X else "", "default")
        add_objective(I, a, o, args[0] if args else kw["expr"], sn, st, n)
        return [(st, NONE)]
    if name == "optimize":
        do_optimize(I, a, o, "gurobi", st, n)
        return [(st, NONE)]
    if name in ("setParam", "update", "write", "dispose", "computeIIS", "reset", "setAttr", "remove", "terminate"):
        if name == "setParam" and len(args) == 2:
            I.emit("param", n, name=repr(args[0]), value=repr(args[1]))
            set_param(I, a, args[0], args[1], st)
        return [(st, NONE)]
    if name in ("getVars", "getConstrs"):
        x = newvar(I, me, const(0), NONE, st, n)
        return [(st, I.alloc(st, n, Obj("list", elem=x, lens=(irange(0, None),)), "vars"))]
    if name in ("cbGet", "getVarByName"):
        return [(st, newvar(I, me, const(0), NONE, st, n))]
    return [(st, I.lose("gurobi " + name))]


def integral(va):
    return va.__class__ is X and va.path.endswith(("BINARY", "INTEGER")) or va.__class__ is C and va.v in ("B", "I")


def mip_method(I, a, o, me, name, args, kw, st, n):
    if name in ("add_var", "add_var_tensor"):
        vt = kw.get("var_type", args[4] if len(args) > 4 else NONE)
        va = vt.one()
        lb = kw.get("lb", args[1] if len(args) > 1 else const(0))
        ub = kw.get("ub", args[2] if len(args) > 2 else MATHC["inf"]())
        I.emit("var", n, vtype=repr(vt), lb=repr(lb), ub=repr(ub))
        if va.__class__ is X and va.path.endswith("BINARY"):
            x = binvar(I, me)
        else:
            x = newvar(I, me, lb, ub, st, n)
        st.heap[a.addr] = o.rep(labels=o.labels | any_labels(args, kw) | st.pc)
        if integral(va):
            set_model(st, a, st.heap[a.addr], int=TRUE)
        return [(st, x)]
    if name in ("add_constr", "add_lazy_constr"):
        add_constraint(I, a, o, args[0], st, n)
        return [(st, v(XV("constrref", ())))]
    if name == "optimize":
        r = do_optimize(I, a, o, "mip", st, n)
        return [(st, r)]
    return [(st, I.lose("mip " + name)) if name not in ("write", "clear") else (st, NONE)]


def ortools_method(I, a, o, me, name, args, kw, st, n):
    low = name.replace("_", "").lower()
    if low == "newboolvar":
        return [(st, binvar(I, me))]
    if low == "newintvar":
        lb = kw.get("lb", args[0] if args else const(0))
        ub = kw.get("ub", args[1] if len(args) > 1 else const(0))
        I.emit("var", n, vtype="int", lb=repr(lb), ub=repr(ub))
        return [(st, newvar(I, me, lb, ub, st, n))]
    if low in ("add", "addlinearconstraint"):
        add_constraint(I, a, o, args[0], st, n)
        return [(st, v(XV("constrref", ())))]
    if low in ("maximize", "minimize"):
        add_objective(I, a, o, args[0], low, st, n)
        return [(st, NONE)]
    if low.startswith("add"):
        labs = NOLAB
        for x in args:
            labs = labs | str_labels(I, x, st)
        add_constraint(I, a, o, v(XV("cstr", (me, const(">>"))), labels=labs), st, n)
        return [(st, v(XV("constrref", ())))]
    return [(st, I.lose("ortools " + name))]


def call_extobj(I, a, o, args, kw, st, n):
    return [(st, I.lose("call of " + str(o.cls)))]


def iterate_ext(I, a, o, labels, st, n):
    if o.cls == "gurobi.tupledict":
        return [(st, M.It(None, M.constelem(top("key")), (irange(0, None),), labels | o.labels))]
    if o.cls == "ndarray":
        return [(st, M.It(None, M.constelem(v(N(frozenset(("npfloat",)), L.TOPI, None))), (irange(0, None),), labels | o.labels))]
    if o.cls == "file":
        return [(st, M.It(None, M.constelem(STR), (irange(0, None),), labels))]
    if o.elem.a:
        return [(st, M.It(None, M.constelem(o.elem), (irange(0, None),), labels | o.labels))]
    return [(st, M.It(None, M.constelem(I.lose("iterate " + str(o.cls))), (irange(0, None),), labels))]


def iterate_xv(I, a, labels, st, n):
    return [(st, M.It(None, M.constelem(I.lose("iterate " + a.path)), (irange(0, None),), labels))]


def with_exit(I, x, out, n):
    return None


def generic_ext(cls):
    def f(I, path, args, kw, st, n):
        labs = any_labels(args, kw)
        return [(st, I.alloc(st, n, Obj("ext", cls=cls + "." + path.split(".")[-1], labels=labs), "ext"))]

    return f


def constret(x):
    return lambda I, path, args, kw, st, n: [(st, x)]


ROOTS = {
    "math": math_call, "cmath": math_call, "fractions": frac_call, "gmpy2": frac_call, "itertools": itertools_call,
    "functools": functools_call, "collections": collections_call, "operator": operator_call, "copy": copy_call,
    "random": random_call, "secrets": random_call, "time": time_call, "datetime": time_call, "uuid": time_call,
    "os": os_call, "pathlib": os_call, "glob": os_call, "sys": os_call, "shutil": os_call, "tempfile": os_call,
    "textwrap": text_call, "string": text_call, "re": text_call, "json": text_call, "warnings": warnings_call,
    "numpy": numpy_call, "networkx": nx_call, "gurobipy": gurobi_call, "mip": mip_call, "ortools": ortools_call,
    "dataclasses": dataclass_field, "contextlib": constret(NONE), "typing": constret(NONE),
    "logging": generic_ext("logger"),
    "ruamel": generic_ext("ruamel"), "preflibtools": generic_ext("preflib"), "prefsampling": generic_ext("prefsampling"),
}
EXACT = {"gmpy2.mpq": frac_call, "fractions.Fraction": frac_call, "numpy.random.default_rng": random_call}
