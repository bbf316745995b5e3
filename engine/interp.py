"""Abstract interpreter for the Python subset used in /repo (flow-sensitive, interprocedural by
inlining, loops by fixpoint with widening).  Nothing of the analysed code is executed."""
import ast
import builtins as _pybuiltins
import os
import sys

from . import lin as L
from .state import *
from .values import *

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class BudgetExceeded(AnalysisError):
    pass


class FuncInfo:
    _n = 0

    def __init__(self, node, module, qualname, parent, cls=None):
        FuncInfo._n += 1
        self.node = node
        self.module = module
        self.qualname = qualname
        self.parent = parent
        self.cls = cls
        self.uid = "%s:%s:%s:%s" % (module, qualname, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        self.globals_ = set()
        self.nonlocals = set()
        self.locals = set()
        self.is_gen = False
        self.decorators = []
        a = node.args
        self.pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals |= set(self.pos) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._scan(s)
        self.locals -= self.globals_
        self.locals -= self.nonlocals

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
            return
        if isinstance(n, ast.Global):
            self.globals_ |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        for c in ast.iter_child_nodes(n):
            self._scan(c)


class Ctx:
    """an activation"""

    def __init__(self, info, frame, ctxid, module, parent, callnode):
        self.info = info
        self.frame = frame
        self.ctxid = ctxid
        self.module = module
        self.parent = parent
        self.callnode = callnode
        self.grow = []  # (mark, variable) of the loops that may grow a set by new elements only
        self.comp = []  # active comprehension scopes: dict name -> mangled name
        self.rets = []
        self.breaks = []
        self.conts = []
        self.yields = None  # address of the yield accumulator
        self.yield_hook = None
        self.retlabels = NOLAB
        self.excs = []  # exception collector (replaced inside try)
        self.node = None
        self.pins = []  # values held by the interpreter while statements of this activation run


class Event:
    __slots__ = ("kind", "file", "line", "func", "stack", "data", "node")

    def __init__(self, kind, file, line, func, stack, data, node):
        self.kind, self.file, self.line, self.func, self.stack, self.data, self.node = (
            kind, file, line, func, stack, data, node)

    def key(self):
        return (self.kind, self.file, self.line, self.func, getattr(self.node, "col_offset", 0), tuple(sorted((k, repr(x)) for k, x in self.data.items())))

    def __repr__(self):
        return "%s %s:%s (%s) %r" % (self.kind, self.file, self.line, self.func, self.data)


class ClassInfo:
    def __init__(self, name, module, addr, bases):
        self.name = name
        self.module = module
        self.addr = addr
        self.bases = bases  # list of atoms (R to class objects / X external)

    def __repr__(self):
        return "<class %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ClassInfo) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)


_AST_CACHE = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _AST_CACHE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        _AST_CACHE[k] = ast.parse(src, path)
    return _AST_CACHE[k]


K_ = L.sym("k")


STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class Interp:
    MAXSTATES = 4
    MAXDEPTH = 24

    def __init__(self, repo="/repo", package="abcvoting", unavailable=(), max_steps=3_000_000, entry_module=None, stubs=()):
        from . import models

        self.models = models
        self.repo = repo
        self.package = package
        self.stubs = frozenset(stubs)  # external packages replaced by contracts written in Python
        self.unavailable = set(unavailable)  # external top-level modules that fail to import
        self.events = {}
        self.watch = None  # optional set of event kinds
        self.ctxids = {}
        self.ctxpar = {0: None}
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.lossy = {}  # reason -> count
        self.loopcount = 0
        self.tokens = 0  # identities of collections (membership relations)
        self.defsyms = {}  # len() site and call stack -> definition symbol
        self.phase = "global"
        self.infos = {}
        self.modules = {}
        self.unit_subst = {}
        self.try_depth = 0
        self.called = set()
        self.cover = set()
        self.hooks = {}  # qualname or external path -> callable(interp, st, args, kw, node)
        self.allow_summary = 0
        self.focused = set()
        self._dead = {}
        self.freshn = 0
        self.serial = 0
        self.serials = {}  # id(ast node) -> serial number of its latest evaluation
        self.state0 = State()
        self.exc_out = []
        self.flags = {}
        self.inprogress = set()
        L.clear()
        self.sitecache = {}

    # ------------------------------------------------------------ diagnostics
    def loc(self, node=None):
        c = self.stack[-1] if self.stack else None
        node = node if node is not None and hasattr(node, "lineno") else (c.node if c else None)
        return (c.module if c else "?", getattr(node, "lineno", 0), c.info.qualname if c and c.info else "<module>")

    def emit(self, kind, node=None, **data):
        f, l, q = self.loc(node)
        stack = tuple((c.info.qualname if c.info else "<module>", getattr(c.callnode, "lineno", 0)) for c in self.stack)
        e = Event(kind, f, l, q, stack, data, node)
        k = e.key()
        if k not in self.events:
            self.events[k] = e

    def lose(self, why):
        self.lossy[why] = self.lossy.get(why, 0) + 1
        if os.environ.get("ENGINE_DEBUG") and self.lossy[why] <= 3:
            print("LOSE", why, self.loc(), [(c.info.qualname if c.info else "", getattr(c.callnode, "lineno", 0)) for c in self.stack], file=sys.stderr)
            if os.environ["ENGINE_DEBUG"] == "2":
                import traceback
                traceback.print_stack(limit=8)
        return top(why)

    # ------------------------------------------------------------ modules
    def modfile(self, name):
        p = os.path.join(STUBS if name.split(".")[0] in self.stubs else self.repo, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f if os.path.exists(f) else None
        return p + ".py" if os.path.exists(p + ".py") else None

    def is_repo_module(self, name):
        return name == self.package or name.startswith(self.package + ".") or name.split(".")[0] in self.stubs

    def import_module(self, name, st):
        """returns list of (state, V) ; raises into collector on failure"""
        if not self.is_repo_module(name):
            if name.split(".")[0] in self.unavailable:
                self.raise_exc(st, "ImportError", None)
                return []
            return [(st, v(X(name)))]
        addr = ("module", name, "r")
        if addr in st.heap:
            return [(st, v(R(addr)))]
        f = self.modfile(name)
        if f is None:
            self.raise_exc(st, "ImportError", None)
            return []
        if "." in name and name.split(".")[0] in self.stubs and ("module", name.rsplit(".", 1)[0], "r") not in st.heap:
            ss = self.import_module(name.rsplit(".", 1)[0], st)
            if not ss:
                return []
            st = ss[0][0]
        st.heap[addr] = Obj("module", cls=name, attrs={"__name__": const(name)}, owner="global")
        tree = parse_file(f)
        out = self.run_module(tree, name, addr, st)
        if "." in name:
            par = name.rsplit(".", 1)[0]
            for s in out:
                pa = ("module", par, "r")
                if pa in s.heap:
                    o = s.heap[pa]
                    at = dict(o.attrs)
                    at[name.rsplit(".", 1)[1]] = v(R(addr))
                    s.heap[pa] = o.rep(attrs=at)
        return [(s, v(R(addr))) for s in out]

    def run_module(self, tree, name, addr, st):
        ctx = Ctx(None, addr, self.ctxid(0, name, "mod"), name, None, None)
        saved_phase = self.phase
        if self.is_repo_module(name):
            self.phase = "global"
        self.stack.append(ctx)
        try:
            outs = self.exec_block(tree.body, [st])
        finally:
            self.stack.pop()
            self.phase = saved_phase
        if ctx.excs:
            self.stack[-1].excs.extend(ctx.excs) if self.stack else self.exc_out.extend(ctx.excs)
        if not outs:
            return []
        return [join_states(outs)]

    def run_harness(self, src, st=None, name="<harness>", inject=None, phase="input"):
        """interpret harness source as a module; returns (list of final states, exceptions, addr)"""
        tree = ast.parse(src)
        addr = ("module", name, "r")
        if st is None:
            st = State()
        st.heap[addr] = Obj("module", cls=name, attrs=dict(inject or {}), owner="global")
        ctx = Ctx(None, addr, self.ctxid(0, name, "mod"), name, None, None)
        self.phase = phase
        self.stack.append(ctx)
        try:
            outs = self.exec_block(tree.body, [st])
        finally:
            self.stack.pop()
        return outs, ctx.excs, addr

    def run_more(self, src, st, addr, phase="call", name="<harness>"):
        """interpret more harness statements in state st (whose harness module is addr)"""
        tree = ast.parse(src)
        self._keep = getattr(self, "_keep", [])
        self._keep.append(tree)
        ctx = Ctx(None, addr, self.ctxid(0, name, "mod%d" % len(self._keep)), name, None, None)
        saved, self.phase = self.phase, phase
        self.stack.append(ctx)
        try:
            outs = self.exec_block(tree.body, [st])
        finally:
            self.stack.pop()
            self.phase = saved
        return outs, ctx.excs

    # ------------------------------------------------------------ contexts
    def ctxid(self, parent, node, uid):
        k = (parent, node if isinstance(node, str) else id(node), uid)
        r = self.ctxids.get(k)
        if r is None:
            r = self.ctxids[k] = len(self.ctxids) + 1
            self.ctxpar[r] = parent
        return r

    def site(self, node, tag=""):
        k = (id(node), tag)
        r = self.sitecache.get(k)
        if r is None:
            c = self.stack[-1] if self.stack else None
            r = "%s:%s:%s%s" % (c.module if c else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), "#" + tag if tag else "")
            self.sitecache[k] = r
        return r

    # ------------------------------------------------------------ heap
    def alloc(self, st, node, obj, tag=""):
        c = self.stack[-1]
        base = (self.site(node, tag), c.ctxid)
        r = base + ("r",)
        if obj.owner == "fresh":
            obj.owner = self.phase if self.phase != "call" else "fresh"
        if st.pc:
            obj.labels = obj.labels | st.pc
        h = st.heap
        obj.birth = self.serials.get(id(node))
        if obj.alias and tag != "focus":
            obj.alias = NOLAB
        if r in h:
            if obj.birth is not None and h[r].birth == obj.birth:
                # second allocation within one evaluation of this expression (several operand shapes)
                h[r] = join_obj(h[r], obj)
                h[r].birth = obj.birth
                return v(R(r))
            used = False
            for k, o in h.items():
                if k != r and r in o.refs():
                    used = True
                    break
            if used:
                s = base + ("s",)
                old = h.pop(r)
                f = lambda a, r=r, s=s: s if a == r else a
                for k, o in list(h.items()):
                    if r in o.refs():
                        h[k] = o.map(f, None)
                if r in old.refs():
                    old = old.map(f, None)
                cur = h.get(s)
                h[s] = old if cur is None else join_obj(cur, old)
        h[r] = obj
        return v(R(r))

    def put(self, st, addr, obj, node=None, why="write", effect=True):
        old = st.heap.get(addr)
        if st.pc and not st.pc <= obj.labels:
            obj = obj.rep(labels=obj.labels | st.pc)
        if obj.fl and any(z.__class__ is tuple for z in obj.fl):
            obj = obj.rep(fl=no_rels(obj.fl))  # the content changes
        if effect and old is not None and old.owner != "fresh" and self.phase == "call":
            self.emit("mutate", node, owner=old.owner, addr=show_addr(addr), okind=old.kind, why=why,
                      labels=tuple(sorted(map(str, st.pc))), cls=str(getattr(old.cls, "name", old.cls)))
        if addr[2] == "s" and old is not None and not self.allow_summary:
            obj = join_obj(old, obj)
        st.heap[addr] = obj
        # an object in focus may be any of the objects it was split from, and the other way round
        if obj.alias:
            for z in obj.alias:
                p = st.heap.get(z)
                if p is not None:
                    q = join_obj(p, obj)
                    q.alias = p.alias
                    st.heap[z] = q
        if addr[:2] in self.focused:
            for z, p in list(st.heap.items()):
                if addr in p.alias and z != addr:
                    q = join_obj(p, obj)
                    q.alias = p.alias
                    st.heap[z] = q

    def gc(self, st, ctx, roots=(), force=False):
        """collect unreachable objects allocated by activation ctx or its callees"""
        h = st.heap
        if len(h) < 60 and not force:
            return
        cid = ctx.ctxid
        par = self.ctxpar
        memo = {}

        def desc(x):
            path = []
            r = None
            y = x
            while True:
                if y in memo:
                    r = memo[y]
                    break
                if y == cid:
                    r = True
                    break
                if y is None or y == 0:
                    r = False
                    break
                path.append(y)
                y = par.get(y)
            for p in path:
                memo[p] = r
            return r

        cand = set()
        work = []
        for k in h:
            if len(k) == 3 and isinstance(k[1], int) and desc(k[1]) and k != ctx.frame:
                cand.add(k)
            else:
                work.append(k)
        if len(cand) < 20 and not force:
            return
        seen = set(work)
        for x in roots:
            for a in refs(x):
                if a not in seen:
                    seen.add(a)
                    work.append(a)
        while work:
            k = work.pop()
            o = h.get(k)
            if o is None:
                continue
            for a in o.refs():
                if a not in seen:
                    seen.add(a)
                    work.append(a)
            if o.kind == "frame" and o.cls[1] is not None and o.cls[1] not in seen:
                seen.add(o.cls[1])
                work.append(o.cls[1])
        for k in cand:
            if k not in seen:
                del h[k]

    # ------------------------------------------------------------ exceptions
    def raise_exc(self, st, exc, node, msg=BOT, implicit=False):
        """exc: builtin exception name or V"""
        if isinstance(exc, str):
            exc = v(X("builtins." + exc))
        c = self.stack[-1] if self.stack else None
        tgt = c.excs if c else self.exc_out
        tgt.append((st, exc, (self.loc(node), implicit, tuple((x.info.qualname if x.info else "<module>") for x in self.stack))))

    def exc_names(self, ev, st):
        """names of the exception class and its ancestors, per atom: list of (name, [ancestors])"""
        out = []
        for a in ev.a:
            if a.__class__ is X:
                out.append((a.path.split(".")[-1], self.exc_mro(a, st)))
            elif a.__class__ is R:
                o = st.heap.get(a.addr)
                if o is not None and o.kind == "inst":
                    out.append((o.cls.name, self.exc_mro(R(o.cls.addr), st)))
                elif o is not None and o.kind == "cls":
                    out.append((o.cls.name, self.exc_mro(a, st)))
                else:
                    out.append(("?", ["?"]))
            elif a.__class__ is XV and a.path == "exc":
                out.append((a.data[0].split(".")[-1], self.exc_mro(X(a.data[0]), st)))
            else:
                out.append(("?", ["?"]))
        return out

    def exc_mro(self, a, st):
        if a.__class__ is X:
            n = a.path
            res = [n.split(".")[-1], n]
            if n.startswith("builtins."):
                c = getattr(_pybuiltins, n[9:], None)
                if isinstance(c, type):
                    res += [x.__name__ for x in c.__mro__]
            else:
                res += ["Exception", "BaseException", "?ext"]
            return res
        if a.__class__ is R:
            o = st.heap.get(a.addr)
            if o is None or o.kind != "cls":
                return ["?"]
            res = [o.cls.name, a.addr]
            for b in o.cls.bases:
                res += self.exc_mro(b, st)
            return res
        return ["?"]

    def exc_match(self, ev, hv, st):
        """does exception value ev match handler class value hv? returns (may, must)"""
        names = self.exc_names(ev, st)
        may, must = False, bool(names)
        hn = set()
        unknown = False
        stack = list(hv.a)
        while stack:
            a = stack.pop()
            if a.__class__ is T:
                for y in a.items:
                    stack += list(y.a)
            elif a.__class__ is X:
                hn.add(a.path.split(".")[-1])
            elif a.__class__ is R:
                o = st.heap.get(a.addr)
                hn.add(o.cls.name if o is not None and o.kind == "cls" else "?")
            else:
                unknown = True
        for n, mro in names:
            if any(x in hn for x in mro if isinstance(x, str)):
                may = True
            elif "?" in mro or unknown:
                may = True
                must = False
            else:
                must = False
        return may, must

    # ------------------------------------------------------------ blocks
    def merge(self, states):
        if len(states) <= 1:
            return states
        c = self.stack[-1]
        frames = [s.heap.get(c.frame) for s in states]
        keys = [tuple(sorted(
            (n, repr(x)) for n, x in fr.attrs.items()
            if len(x.a) == 1 and next(iter(x.a)).__class__ is C
        )) if fr is not None and fr.kind == "frame" else self.harness_key(s) if fr is not None and c.module == "<harness>" else ()
            for fr, s in zip(frames, states)]
        rel = self.relations(states, frames)
        for ks in ([(k, r) for k, r in zip(keys, rel)] if rel else [], keys):
            groups = {}
            for k, s in zip(ks, states):
                groups.setdefault(k, []).append(s)
            if ks and len(groups) <= self.MAXSTATES:
                return [join_states(g) for g in groups.values()]
        return [join_states(states)]

    def harness_key(self, s):
        """verdicts (True/False results) and what the last solver run said stay together in the analysed call"""
        x = s.heap[("module", "<harness>", "r")].attrs.get("r")
        return repr(x.one().v) if x is not None and x.one().__class__ is C and isinstance(x.one().v, bool) else "*"

    def relations(self, states, frames):
        """per state: the exact relations between quantities (through definition symbols) that a join would lose"""
        ds = []
        any_def = False
        for s, fr in zip(states, frames):
            d = {}
            if fr is not None and fr.kind == "frame":
                for n, x in fr.attrs.items():
                    if len(x.a) != 1:
                        continue
                    a = next(iter(x.a))
                    e = None
                    if a.__class__ is N:
                        e = L.exact(a.i)
                    elif a.__class__ is R:
                        o = s.heap.get(a.addr)
                        if o is not None and o.kind in ("list", "set", "dict", "frozenset"):
                            e = L.exact(hull(o.lens))
                    elif a.__class__ is TO:
                        e = L.exact(hull(a.lens))
                    if e is not None:
                        d[n] = e
                        any_def = any_def or L.has_def(e) or (a.__class__ is not N and e == K_)
            ds.append(d)
        if not any_def:
            return None
        names = set().union(*ds)
        diff = [n for n in sorted(names) if len({repr(d.get(n)) for d in ds}) > 1 and any(n in d and (L.has_def(d[n]) or d[n] == K_) for d in ds)]
        if not diff:
            return None
        return [tuple(repr(d.get(n)) for n in diff) for d in ds]

    def exec_block(self, stmts, states):
        for n in stmts:
            if not states:
                break
            if len(states) == 1:
                out = self.exec_stmt(n, states[0])
            else:
                out = []
                for s in states:
                    out += self.exec_stmt(n, s)
            states = self.merge(out) if len(out) > 1 else out
        return states

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise BudgetExceeded("step budget exceeded at %r" % (self.loc(n),))
        c = self.stack[-1]
        c.node = n
        self.serial += 1
        self.serials[id(n)] = self.serial
        self.cover.add((c.module, n.lineno))
        m = getattr(self, "x_" + n.__class__.__name__, None)
        if m is None:
            self.lose("stmt " + n.__class__.__name__)
            return [st]
        return m(n, st)

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, _ in self.ev(n.value, st)]

    def x_Pass(self, n, st):
        return [st]

    def x_Global(self, n, st):
        return [st]

    x_Nonlocal = x_Global

    def x_Assign(self, n, st):
        out = []
        for s, x in self.ev(n.value, st):
            ok = [s]
            for t in n.targets:
                nx = []
                for s2 in ok:
                    nx += self.assign(t, x, s2)
                ok = nx
            out += ok
        return out

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [st]
        out = []
        for s, x in self.ev(n.value, st):
            out += self.assign(n.target, x, s)
        return out

    def x_AugAssign(self, n, st):
        t = n.target
        out = []
        if isinstance(t, ast.Name):
            for s, old in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
                for s2, x in self.ev(n.value, s):
                    for s3, r in self.inplace(n.op, old, x, s2, n):
                        out += self.assign(t, r, s3)
            return out
        if isinstance(t, ast.Attribute):
            for s, ov in self.ev(t.value, st):
                for s1, old in self.getattr(ov, t.attr, s, t):
                    for s2, x in self.ev(n.value, s1):
                        for s3, r in self.inplace(n.op, old, x, s2, n):
                            out += self.setattr(ov, t.attr, r, s3, n)
            return out
        if isinstance(t, ast.Subscript):
            for s, ov in self.ev(t.value, st):
                for s0, ix in self.ev(t.slice, s):
                    for s1, old in self.models.getitem(self, ov, ix, s0, t):
                        for s2, x in self.ev(n.value, s1):
                            for s3, r in self.inplace(n.op, old, x, s2, n):
                                out += self.models.setitem(self, ov, ix, r, s3, n, aug=n.op)
            return out
        self.lose("augassign")
        return [st]

    def inplace(self, op, old, x, st, n):
        """in-place operator: mutate mutable containers, else ordinary binop"""
        mut = [a for a in old.a if a.__class__ is R and st.heap.get(a.addr) is not None
               and st.heap[a.addr].kind in ("list", "set", "dict", "ext")]
        if mut:
            rest = frozenset(a for a in old.a if a not in mut)
            res = [(st, V(frozenset(mut), old.l))]
            res = self.models.inplace(self, op, V(frozenset(mut), old.l), x, st, n)
            if rest:
                out = []
                for s, r in res:
                    for s2, r2 in self.binop(op, V(rest, old.l), x, s, n):
                        out.append((s2, join(r, r2)))
                return out
            return res
        return self.binop(op, old, x, st, n)

    def x_Return(self, n, st):
        c = self.stack[-1]
        if n.value is None:
            c.rets.append((st, NONE))
        else:
            for s, x in self.ev(n.value, st):
                c.rets.append((s, x))
        return []

    def x_Break(self, n, st):
        self.stack[-1].breaks.append(st)
        return []

    def x_Continue(self, n, st):
        self.stack[-1].conts.append(st)
        return []

    def x_Raise(self, n, st):
        c = self.stack[-1]
        if n.exc is None:
            cur = c.comp_exc if hasattr(c, "comp_exc") and c.comp_exc else v(X("builtins.Exception"))
            self.raise_exc(st, cur, n)
            return []
        for s, x in self.ev(n.exc, st):
            if n.cause is not None:
                for s2, _ in self.ev(n.cause, s):
                    self.raise_exc(s2, x, n)
            else:
                self.raise_exc(s, x, n)
        return []

    def x_Assert(self, n, st):
        out = []
        for s, t, labs in self.cond(n.test, st):
            if t:
                out.append(s)
            else:
                self.raise_exc(s, "AssertionError", n)
        return out

    def x_Delete(self, n, st):
        ss = [st]
        for t in n.targets:
            nx = []
            for s in ss:
                if isinstance(t, ast.Name):
                    nx += self.assign(t, UNDEF, s)
                elif isinstance(t, ast.Subscript):
                    for s1, ov in self.ev(t.value, s):
                        for s2, ix in self.ev(t.slice, s1):
                            nx += self.models.delitem(self, ov, ix, s2, n)
                elif isinstance(t, ast.Attribute):
                    for s1, ov in self.ev(t.value, s):
                        nx += self.setattr(ov, t.attr, UNDEF, s1, n)
                else:
                    nx.append(s)
            ss = nx
        return ss

    def x_Import(self, n, st):
        ss = [st]
        for al in n.names:
            nx = []
            for s in ss:
                for s2, m in self.import_module(al.name, s):
                    if al.asname:
                        nx += self.assign_name(al.asname, m, s2)
                    else:
                        rootn = al.name.split(".")[0]
                        if self.is_repo_module(rootn):
                            for s3, m3 in self.import_module(rootn, s2):
                                nx += self.assign_name(rootn, m3, s3)
                        else:
                            nx += self.assign_name(rootn, v(X(rootn)), s2)
            ss = nx
        return ss

    def x_ImportFrom(self, n, st):
        mod = n.module or ""
        if n.level:
            base = self.stack[-1].module.split(".")
            f = self.modfile(self.stack[-1].module) if self.is_repo_module(self.stack[-1].module) else None
            up = n.level - (1 if f and f.endswith("__init__.py") else 0)
            base = base[: len(base) - up] if up else base
            mod = ".".join(base + ([mod] if mod else []))
        ss = [st]
        for al in n.names:
            nx = []
            for s in ss:
                for s2, m in self.import_module(mod, s):
                    if al.name == "*":
                        for a in m.a:
                            if a.__class__ is R:
                                for k, x in list(s2.heap[a.addr].attrs.items()):
                                    if not k.startswith("_"):
                                        self.assign_name(k, x, s2)
                        nx.append(s2)
                        continue
                    a = m.one()
                    if a.__class__ is R:
                        o = s2.heap[a.addr]
                        if al.name in o.attrs:
                            nx += self.assign_name(al.asname or al.name, o.attrs[al.name], s2)
                        elif self.modfile(mod + "." + al.name):
                            for s3, m3 in self.import_module(mod + "." + al.name, s2):
                                nx += self.assign_name(al.asname or al.name, m3, s3)
                        elif mod in self.inprogress:
                            nx += self.assign_name(al.asname or al.name, self.lose("circular import"), s2)
                        else:
                            self.raise_exc(s2, "ImportError", n)
                    else:
                        nx += self.assign_name(al.asname or al.name, self.models.external_attr(self, a.path, al.name), s2)
            ss = nx
        return ss

    def mkinfo(self, node, name):
        k = id(node)
        c = self.stack[-1]
        if k not in self.infos:
            par = c.info
            q = (par.qualname + "." if par else (c.clsname + "." if getattr(c, "clsname", None) else "")) + name
            self.infos[k] = FuncInfo(node, c.module, q, par)
            self.infos[k]._keep = node
        return self.infos[k]

    def mkfunc(self, node, name, st):
        """evaluate a def/lambda: returns list of (st, V)"""
        info = self.mkinfo(node, name)
        c = self.stack[-1]
        frame = c.frame if (c.info is not None or getattr(c, "clsname", None)) else None
        if c.info is None:
            frame = None
        a = node.args
        posn = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        pairs = list(zip(posn[len(posn) - len(a.defaults):], a.defaults))
        pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        res = [(st, {})]
        for nm, d in pairs:
            nx = []
            for s, at in res:
                for s2, x in self.ev(d, s):
                    at2 = dict(at)
                    at2[nm] = x
                    nx.append((s2, at2))
            res = nx
        out = []
        for s, at in res:
            da = ("dflt", info.uid, frame or "")
            own = self.phase if self.phase != "call" else "fresh"
            old = s.heap.get(da)
            fa = {k: x for k, x in old.attrs.items() if k.startswith("@")} if old is not None else {}
            fa.update(at)
            s.heap[da] = Obj("func", cls=info, attrs=fa, owner=own)
            out.append((s, v(F(info, frame))))
        return out

    def x_FunctionDef(self, n, st):
        info = self.mkinfo(n, n.name)
        out = []
        for s, fv in self.mkfunc(n, n.name, st):
            res = [(s, fv)]
            for d in reversed(n.decorator_list):
                nx = []
                for s1, x in res:
                    for s2, dv in self.ev(d, s1):
                        nx += self.decorate(dv, x, s2, n, info)
                res = nx
            for s1, x in res:
                out += self.assign_name(n.name, x, s1)
        return out

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, dv, fv, st, n, info):
        a = dv.one()
        if a.__class__ is X:
            p = a.path
            if p in ("builtins.property", "functools.cached_property"):
                return [(st, v(XV("property", (fv, NONE) if p == "builtins.property" else (fv, NONE, info.qualname))))]
            if p == "builtins.staticmethod":
                return [(st, v(XV("staticmethod", (fv,))))]
            if p == "builtins.classmethod":
                return [(st, v(XV("classmethod", (fv,))))]
            if p in ("functools.lru_cache", "functools.cache"):
                return [(st, v(XV("cached", (fv, info.qualname))))]
            if p in ("functools.wraps", "contextlib.contextmanager"):
                if p.endswith("contextmanager"):
                    return [(st, v(XV("ctxmgr", (fv,))))]
                return [(st, fv)]
        if a.__class__ is XV and a.path in ("deco",):
            p = a.data[0]
            if p in ("functools.lru_cache",):
                return [(st, v(XV("cached", (fv, info.qualname))))]
            return [(st, fv)]
        if a.__class__ is BM and isinstance(a.fn, str) and a.fn == "property.setter":
            pr = a.self_.one()
            return [(st, v(XV("property", (pr.data[0], fv))))]
        if a.__class__ in (F, R, P):
            return self.call(dv, [fv], {}, st, n)
        self.lose("decorator")
        return [(st, fv)]

    def x_ClassDef(self, n, st):
        bases = []
        ss = [(st, [])]
        for b in n.bases:
            nx = []
            for s, bs in ss:
                for s2, bv in self.ev(b, s):
                    nx.append((s2, bs + [bv.one()]))
            ss = nx
        out = []
        c = self.stack[-1]
        for s, bs in ss:
            addr = (self.site(n, "cls"), c.ctxid, "r")
            ci = ClassInfo(n.name, c.module, addr, [b for b in bs if b is not None])
            s.heap[addr] = Obj("cls", cls=ci, attrs={"__name__": const(n.name)}, owner=self.phase if self.phase != "call" else "fresh")
            cc = Ctx(c.info, addr, c.ctxid, c.module, c, n)
            cc.clsname = n.name
            cc.is_class = True
            cc.excs = c.excs
            cc.outer = c
            self.stack.append(cc)
            try:
                res = self.exec_block(n.body, [s])
            finally:
                self.stack.pop()
            for s2 in res:
                # tag functions with their class
                for k, x in s2.heap[addr].attrs.items():
                    for a in x.a:
                        if a.__class__ is F:
                            a.info.cls = ci
                            s2_ = a.info
                        elif a.__class__ is XV:
                            for y in a.data:
                                if isinstance(y, V):
                                    for b in y.a:
                                        if b.__class__ is F:
                                            b.info.cls = ci
                ss2 = [(s2, v(R(addr)))]
                for d in n.decorator_list:
                    self.models.class_decorator(self, d, addr, s2, n)
                for s3, x in ss2:
                    out += self.assign_name(n.name, x, s3)
        return out

    # ------------------------------------------------------------ control flow
    def snap(self):
        c = self.stack[-1]
        return (len(c.rets), len(c.breaks), len(c.conts))

    def x_If(self, n, st):
        pc0 = st.pc
        outs = self.cond(n.test, st)
        labs = NOLAB
        # a condition that is definite in this state may be so because an earlier split on the same
        # data was recorded in a variable: its labels count all the same
        for _, _, l in outs:
            labs |= l
        c = self.stack[-1]
        res = []
        b0 = self.snap()
        for truth, body in ((True, n.body), (False, n.orelse)):
            ss = [s for s, t, _ in outs if t is truth]
            if not ss:
                continue
            if len(ss) > 1:
                ss = self.merge(ss)
            if labs:
                for s in ss:
                    s.pc = s.pc | labs
            res += self.exec_block(body, ss) if body else ss
        b1 = self.snap()
        if labs:
            if b1 == b0:
                for s in res:
                    s.pc = pc0
            elif b1[0] != b0[0]:
                c.retlabels = c.retlabels | labs
        return res

    def ev_cond_value(self, n, st):
        """evaluate a boolean expression to True/False in split states"""
        outs = self.cond(n, st)
        labs = NOLAB
        if len({t for _, t, _ in outs}) > 1:
            for _, _, l in outs:
                labs |= l
        else:
            for _, _, l in outs:
                labs |= l
        tr = [s for s, t, _ in outs if t]
        fa = [s for s, t, _ in outs if not t]
        res = []
        if tr:
            res.append((join_states(tr), V(TRUE.a, labs)))
        if fa:
            res.append((join_states(fa), V(FALSE.a, labs)))
        return res

    def x_While(self, n, st):
        const_true = isinstance(n.test, ast.Constant) and n.test.value
        exits = []

        def step(head, isym):
            out = []
            if const_true:
                conds = [(head, True, NOLAB)]
            else:
                conds = self.cond(n.test, head)
            labs = NOLAB
            for _, _, l in conds:
                labs |= l
            ins = []
            for s, t, _ in conds:
                if t:
                    s.pc = s.pc | labs
                    ins.append(s)
                else:
                    exits.append(s)
            if ins:
                out = self.exec_block(n.body, [join_states(ins)])
            return out

        def reset():
            del exits[:]

        if not const_true:
            return self.fix(n, st, step, None, reset, exits, n.orelse)
        # `while True`: the first iteration is kept apart from the others
        c = self.stack[-1]
        pc0, saved = st.pc, (c.breaks, c.conts)
        c.breaks, c.conts = [], []
        nx = self.exec_block(n.body, [st.fork()]) + c.conts
        brk = c.breaks
        c.breaks, c.conts = saved
        res = []
        if nx:
            b = join_states(nx)
            self.gc(b, c, c.pins)
            res = self.fix(n, b, step, None, reset, exits, n.orelse)
        for s in res + brk:
            self.gc(s, c, c.pins, force=True)
            s.pc = pc0 | c.retlabels
        return self.merge(res + brk) if len(res + brk) > 1 else res + brk

    def x_For(self, n, st):
        out = []
        for s, itv in self.ev(n.iter, st):
            out += self.for_loop(n, itv, s, n.target, n.body, n.orelse)
        return out

    x_AsyncFor = x_For

    def for_loop(self, n, itv, st, target, body, orelse):
        """body: list of statements or callable(state) -> list of next states"""
        c = self.stack[-1]
        c.pins.append(itv)
        try:
            return self.for_loop2(n, itv, st, target, body, orelse)
        finally:
            c.pins.pop()

    def for_loop2(self, n, itv, st, target, body, orelse):
        run = body if callable(body) else (lambda s: self.exec_block(body, [s]))
        out = []
        gkey = None
        if isinstance(n, ast.For) and isinstance(target, ast.Name) and len(itv.a) == 1:
            gkey = self.growing(n, itv, st, target)
        for s, it in self.models.iterate(self, itv, st, n):
            c = self.stack[-1]
            c.pins[-1] = itv if it.items is None else joins([itv] + list(it.items))
            pc0 = s.pc
            if it.items is not None and len(it.items) <= self.models.UNROLL:
                # exact iteration
                sb, sc = c.breaks, c.conts
                c.breaks, c.conts = [], []
                cur = [s]
                if it.labels:
                    s.pc = s.pc | it.labels
                for x in it.items:
                    nx = []
                    for s1 in cur:
                        for s2 in self.assign(target, x, s1):
                            nx += run(s2)
                    nx += c.conts
                    c.conts = []
                    cur = self.merge(nx) if len(nx) > 1 else nx
                    if not cur:
                        break
                brk = c.breaks
                c.breaks, c.conts = sb, sc
                if cur and orelse:
                    cur = self.exec_block(orelse, cur)
                res = cur + brk
                for x in res:
                    x.pc = pc0 | c.retlabels
                out += res
                continue
            if all(L.constval(i) == 0 for i in it.lens):
                out += self.exec_block(orelse, [s]) if orelse else [s]
                continue
            T_ = hull(it.lens)
            labs = it.labels
            if not it.fixed:
                labs = labs

            def step(head, isym, it=it, labs=labs):
                if labs:
                    head.pc = head.pc | labs
                res = []
                if gkey is not None:
                    for addr, o in list(head.heap.items()):
                        if o.kind == "set" and gkey in o.fl:
                            head.heap[addr] = o.rep(fl=o.fl | {("new", gkey[1])})
                for h2, x in it.elem(head, isym):
                    for s2 in self.assign(target, x, h2):
                        res += run(s2)
                return res

            if gkey is None:
                out += self.fix(n, s, step, T_, None, None, orelse)
                continue
            c.grow.append((gkey[1], target.id))
            res = self.fix(n, s, step, T_, None, None, orelse)
            c.grow.pop()
            for q in res:
                for addr, o in list(q.heap.items()):
                    if o.kind == "set" and gkey in o.fl:
                        q.heap[addr] = o.rep(fl=o.fl - {gkey, ("new", gkey[1])})
            out += res
        return out

    def growing(self, n, itv, st, target):
        """the loop runs over distinct elements, none of which is in some set S when it starts: mark these S.
        S keeps the mark as long as only the loop variable is added: every iteration's first add is a new element"""
        a = itv.one()
        o = st.heap.get(a.addr) if a.__class__ is R else None
        if o is None or o.kind not in ("list", "set", "frozenset") or not ("ndup" in o.fl or o.kind != "list"):
            return None
        ts = {z[1] for z in o.fl if z.__class__ is tuple and z[0] == "disj"}
        if not ts:
            return None
        for y in n.body:
            for x in ast.walk(y):
                if isinstance(x, ast.Name) and x.id == target.id and not isinstance(x.ctx, ast.Load):
                    return None
        found = None
        for addr, q in list(st.heap.items()):
            if q.kind == "set" and addr[2] == "r" and any(z.__class__ is tuple and z[0] == "id" and z[1] in ts for z in q.fl):
                if found is None:
                    self.loopcount += 1
                    found = ("grow", self.loopcount)
                st.heap[addr] = q.rep(fl=q.fl | {found})
        return found

    MAXITER = 40

    def fix(self, n, st, step, T_, reset, exits, orelse):
        """fixpoint of a loop.  T_: interval of the trip count (for loops) or None (while)."""
        c = self.stack[-1]
        self.loopcount += 1
        isym = "i%d" % self.loopcount
        i_l = L.sym(isym)
        ub = None
        if T_ is not None and T_[1]:
            # a single upper bound is used for the counter: prefer exact
            e = L.exact(T_)
            ub = L.sub(e if e is not None else T_[1][0], L.ONE)
        L.COUNTERS[isym] = (self.loopcount, ub)
        pc0 = st.pc
        dead = ()
        if isinstance(n, (ast.For, ast.While)) and not c.comp and c.info is not None and not c.info.is_gen:
            dead = self.dead_vars(c.info, n)
        saved = (c.breaks, c.conts)
        c.breaks, c.conts = [], []
        base = (len(c.rets), len(c.excs))

        def run(head):
            del c.breaks[:]
            del c.conts[:]
            del c.rets[base[0]:]
            del c.excs[base[1]:]
            if reset:
                reset()
            nx = step(head.fork(), i_l) + c.conts
            c.conts = []
            if not nx:
                return None
            if dead:
                for s in nx:
                    fr = s.heap.get(c.frame)
                    kill = [d for d in dead if d in fr.attrs and fr.attrs[d] is not UNDEF] if fr is not None else ()
                    if kill:
                        s.heap[c.frame] = fr.rep(attrs={k: x for k, x in fr.attrs.items() if k not in kill})
                        if len(nx) > 1 and any(a.__class__ in (R, T, TO) for d in kill for a in fr.attrs[d].a):
                            self.gc(s, c, c.pins, force=True)
            b = join_states(nx)
            if isinstance(n, (ast.For, ast.While)) and not c.comp and c.info is not None and not c.info.is_gen:
                self.gc(b, c, c.pins)
            return b

        def shift(s):
            f = lambda i: L.isubst_shift(i, isym)
            return subst_state(s, f, isym)

        H0 = st
        # pass 0 with the counter fixed to 0 is only used to find induction candidates
        B = run(H0)
        H = None
        it = 0
        cursym = isym
        if B is not None:
            B0 = subst_state(B, lambda i: L.isubst(i, isym, L.ZERO, L.ZERO), isym)
            H = self.induct(self.unify(H0, B0, c), B0, i_l)
            while True:
                it += 1
                B = run(H)
                if B is None:
                    break
                Bs = shift(B)
                J = join_state(H, Bs)
                J.pc = H.pc | B.pc
                if state_eq(J, H):
                    break
                if it >= 2:
                    J2 = widen_state(H, J)
                    J2.pc = J.pc
                    J = J2
                    if state_eq(J, H):
                        break
                if it > self.MAXITER:
                    self.lose("loop did not stabilise")
                    if os.environ.get("ENGINE_DEBUG"):
                        for k, o in J.heap.items():
                            p = H.heap.get(k)
                            if p is None or not p.same(o):
                                print("UNSTABLE", self.loc(n), k, p, o, file=sys.stderr)
                    break
                H = J
        # exits
        res = []
        brk = c.breaks
        rets = c.rets[base[0]:]
        excs = c.excs[base[1]:]
        if exits is None:
            # for loop: exhausted after exactly T_ iterations
            tlo = T_[0]
            thi = T_[1]
            e = L.exact(T_)
            at_least_one = any(L.le(L.ONE, x) for x in tlo)
            if B is not None and H is not None:
                if e is not None:
                    lo = hi = e
                else:
                    lo = tlo[0] if tlo else L.ZERO
                    hi = thi[0] if thi else None
                if at_least_one:
                    m1 = L.const(-1)
                    lo1 = L.add(lo, m1)
                    hi1 = None if hi is None else L.add(hi, m1)
                    s = subst_state(B, lambda i: L.isubst(i, isym, lo1, hi1), isym)
                else:
                    f = lambda i: L.isubst(i, isym, lo, hi)
                    if e is not None and L.has_def(e):
                        # the trip count is also bounded in other ways
                        f = lambda i: (lambda r: L.imeet(r, T_) if e in r[0] and e in r[1] else r)(L.isubst(i, isym, lo, hi))
                    s = subst_state(H, f, isym)
                    s = s.fork()
                res.append(s)
            elif not at_least_one:
                res.append(H0)
        else:
            for s in exits:
                lo, hi = self.deduce_counter(s, isym)
                res.append(subst_state(s, lambda i: L.isubst(i, isym, lo, hi), isym))
        f = lambda i: L.isubst(i, isym, L.ZERO, ub)
        brk = [subst_state(s, f, isym) for s in brk]
        c.rets[base[0]:] = [(subst_state(s, f, isym), mapv(x, None, f)) for s, x in rets]
        c.excs[base[1]:] = [(subst_state(s, f, isym), x, y) for s, x, y in excs]
        c.breaks, c.conts = saved
        keep = pc0 | c.retlabels
        if res and orelse:
            res = self.exec_block(orelse, self.merge(res))
        if res and brk and isinstance(n, (ast.For, ast.While)) and not c.comp and c.info is not None and not c.info.is_gen:
            # what is garbage on one exit must not blur the other exit
            for s in res + brk:
                self.gc(s, c, c.pins, force=True)
        res = res + brk
        for s in res:
            s.pc = keep
        return self.merge(res) if len(res) > 1 else res

    def dead_vars(self, info, loop):
        """local variables whose value is never used again at the head of the loop"""
        key = (info.uid, loop.lineno, loop.col_offset)
        r = self._dead.get(key)
        if r is not None:
            return r
        outside, nested, body = set(), set(), []

        def mentions(x):
            return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}

        def out(x):
            if x is loop:
                tests = [loop.test] if isinstance(loop, ast.While) else [loop.iter]
                for y in tests + loop.orelse:
                    out(y)
                return
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                outside.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                outside.add(x.target.id)
            for y in ast.iter_child_nodes(x):
                out(y)

        for s in info.node.body if isinstance(info.node.body, list) else [info.node.body]:
            out(s)
        for y in ast.walk(info.node):
            if y is not info.node and isinstance(y, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                nested |= mentions(y)
                if hasattr(y, "name"):
                    nested.add(y.name)
        cands = set()
        if isinstance(loop, ast.For):
            cands |= mentions(loop.target)
        per = [(s, mentions(s)) for s in loop.body]
        for nme in info.locals:
            ms = [s for s, z in per if nme in z]
            if not ms:
                continue
            s = ms[0]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and nme not in mentions(s.value):
                t = s.targets[0]
                if isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(z, ast.Name) for z in t.elts):
                    cands.add(nme)
            elif isinstance(s, ast.For) and len(ms) == 1 and nme in mentions(s.target) and nme not in mentions(s.iter):
                inner = [z for b in s.orelse for z in mentions(b)]
                if nme not in inner:
                    cands.add(nme)
        r = self._dead[key] = tuple(sorted((cands & info.locals) - outside - nested - info.globals_ - info.nonlocals))
        return r

    def deduce_counter(self, s, isym):
        lo, hi = [L.ZERO], []

        def use(i):
            for a in i[0]:
                for b in i[1]:
                    e = L.sub(b, a)  # e >= 0
                    cf = e.coef(isym)
                    if cf == -1:
                        hi.append(L.add(e, L.sym(isym)))
                    elif cf == 1:
                        lo.append(L.neg(L.sub(e, L.sym(isym))))

        for o in s.heap.values():
            if o.kind in ("frame", "inst") :
                for x in o.attrs.values():
                    for a in x.a:
                        if a.__class__ is N:
                            use(a.i)
            elif o.kind in ("list", "set", "dict"):
                if len(o.lens) == 1:
                    use(o.lens[0])
        hi = [x for x in hi if not x.coef(isym)]
        lo = [x for x in lo if not x.coef(isym)]
        best = None
        for x in hi:
            if any(x == y for y in lo):
                best = x
        if best is not None:
            return best, best
        l = L.ZERO
        for x in lo:
            if L.le(l, x):
                l = x
        return l, (hi[0] if hi else None)

    def unify(self, H0, B0, c):
        """A local variable that holds container A before the loop and a container freshly built by
        the loop body afterwards: rename A to the address of the latter (when nothing else refers to
        either), so that lengths can be related by induction."""
        f0, f1 = H0.heap.get(c.frame), B0.heap.get(c.frame)
        if f0 is None or f1 is None:
            return H0
        ren, split = {}, {}
        for nme, x in f0.attrs.items():
            y = f1.attrs.get(nme)
            a, b = x.one(), y.one() if y is not None else None
            if a.__class__ is not R or b.__class__ is not R or a.addr == b.addr or b.addr in H0.heap:
                continue
            oa, ob = H0.heap.get(a.addr), B0.heap.get(b.addr)
            if oa is None or ob is None or oa.kind != ob.kind or oa.kind not in ("list", "set", "dict"):
                continue
            if oa.owner != ob.owner or oa.cls != ob.cls or a.addr[2] != "r" or b.addr[2] != "r":
                continue
            if b.addr in ren.values() or b.addr in split:
                continue

            def only(h, addr):
                cnt = 0
                for k, o in h.items():
                    if addr in o.refs():
                        if k != c.frame:
                            return False
                        cnt += sum(1 for z in o.attrs.values() if addr in refs(z))
                return cnt == 1

            if not only(B0.heap, b.addr):
                continue
            if only(H0.heap, a.addr) and not any(a.addr in refs(p) for p in c.pins):
                ren[a.addr] = b.addr
            else:
                # others know A as well: the variable gets an object of its own that aliases A
                split[b.addr] = (nme, a.addr)
        if split:
            h = dict(H0.heap)
            at = dict(f0.attrs)
            for b, (nme, a) in split.items():
                h[b] = h[a].rep(alias=h[a].alias | {a})
                self.focused.add(a[:2])
                at[nme] = V(frozenset([R(b)]), at[nme].l)
            h[c.frame] = f0.rep(attrs=at)
            H0 = State(h, H0.pc)
        if not ren:
            return H0
        f = lambda a: ren.get(a, a)
        h = {}
        for k, o in H0.heap.items():
            h[ren.get(k, k)] = o.map(f, None) if any(a in ren for a in o.refs()) else o
        return State(h, H0.pc)

    def induct(self, H0, B0, i_l):
        """initial loop-head candidate: linear induction on lengths and integers, ladder bounds"""
        J = join_state(H0, B0)
        h = dict(J.heap)
        for k, o in J.heap.items():
            p, q = H0.heap.get(k), B0.heap.get(k)
            if p is None or q is None or p is q or p.same(q):
                continue
            ch = {}
            if p.lens != q.lens:
                a, b = hull(p.lens), hull(q.lens)
                ch["lens"] = (self.induct_i(a, b, i_l),)
            if o.kind in ("frame", "inst"):
                at = None
                for nme, x in o.attrs.items():
                    pv, qv = p.attrs.get(nme), q.attrs.get(nme)
                    if pv is None or qv is None or pv == qv:
                        continue
                    y = self.induct_v(pv, qv, x, i_l)
                    if y is not x:
                        if at is None:
                            at = dict(o.attrs)
                        at[nme] = y
                if at is not None:
                    ch["attrs"] = at
            if ch:
                h[k] = o.rep(**ch)
        r = State(h, J.pc)
        return r

    def induct_v(self, p, q, j, i_l):
        pn = [a for a in p.a if a.__class__ is N]
        qn = [a for a in q.a if a.__class__ is N]
        if len(pn) == 1 and len(qn) == 1 and pn[0].unit == qn[0].unit and pn[0].i != qn[0].i \
                and pn[0].kinds == qn[0].kinds and "int" in pn[0].kinds:
            i = self.induct_i(pn[0].i, qn[0].i, i_l)
            return V(frozenset([a for a in j.a if a.__class__ is not N] + [N(pn[0].kinds, i, pn[0].unit, pn[0].src)]), j.l)
        pt = [a for a in p.a if a.__class__ in (T, TO)]
        qt = [a for a in q.a if a.__class__ in (T, TO)]
        if len(pt) == 1 and len(qt) == 1 and len(p.a) == 1 and len(q.a) == 1:
            a = t_to_to(pt[0]) if pt[0].__class__ is T else pt[0]
            b = t_to_to(qt[0]) if qt[0].__class__ is T else qt[0]
            if pt[0].__class__ is T and qt[0].__class__ is T and len(pt[0].items) == len(qt[0].items):
                return j
            e = join(a.elem, b.elem)
            i = self.induct_i(hull(a.lens), hull(b.lens), i_l)
            return V(frozenset((TO(e, (i,), join_flags(a.fl, b.fl)),)), j.l)
        return j

    def induct_i(self, a, b, i_l):
        """interval at iteration i given it is a at iteration 0 and b at iteration 1"""
        ea, eb = L.exact(a), L.exact(b)
        J = L.ijoin(a, b)
        W = L.iwiden(a, J)
        if ea is not None and eb is not None:
            d = L.sub(eb, ea)
            if d.is_const():
                e = L.add(ea, L.scale(i_l, d.c))
                lo = (e,) + tuple(x for x in W[0] if not L.le(x, e))
                hi = (e,) + tuple(x for x in W[1] if not L.le(e, x))
                return (lo, hi)
        lo, hi = [], []
        for x in a[0]:
            for y in b[0]:
                d = L.sub(y, x)
                if d.is_const() and not lo:
                    lo.append(L.add(x, L.scale(i_l, d.c)))
        for x in a[1]:
            for y in b[1]:
                d = L.sub(y, x)
                if d.is_const() and not hi:
                    hi.append(L.add(x, L.scale(i_l, d.c)))
        lo += [x for x in W[0] if x not in lo]
        hi += [x for x in W[1] if x not in hi]
        return (tuple(lo), tuple(hi))

    def x_With(self, n, st):
        return self.with_items(n, n.items, st)

    x_AsyncWith = x_With

    def with_items(self, n, items, st):
        if not items:
            return self.exec_block(n.body, [st])
        it = items[0]
        out = []
        ce = it.context_expr
        # generator-based context managers defined in the repository are inlined
        for s, x in self.ev(ce, st):
            a = x.one()
            if a.__class__ is XV and a.path == "ctxcall":
                out += self.with_generator(n, it, items, a, s)
                continue
            enter, exit_ = x, None
            handled = False
            if a.__class__ is R:
                o = s.heap.get(a.addr)
                if o is not None and o.kind == "inst":
                    handled = True
                    for s1, m in self.getattr(x, "__enter__", s, n):
                        for s2, val in self.call(m, [], {}, s1, n):
                            out += self.with_body(n, it, items, val, x, s2)
            if not handled:
                s_list = [s]
                out += self.with_body(n, it, items, x, None, s)
                if a is not None:
                    self.models.with_exit(self, x, out, n)
        return out

    def with_body(self, n, it, items, val, mgr, st):
        """run body; call mgr.__exit__ on every outcome"""
        c = self.stack[-1]
        saved = (c.rets, c.breaks, c.conts, c.excs)
        c.rets, c.breaks, c.conts, c.excs = [], [], [], []
        if mgr is not None:
            c.pins.append(mgr)
        ss = [st]
        if it.optional_vars is not None:
            ss = self.assign(it.optional_vars, val, st)
        nx = []
        for s in ss:
            nx += self.with_items(n, items[1:], s)
        outc = (c.rets, c.breaks, c.conts, c.excs)
        c.rets, c.breaks, c.conts, c.excs = saved
        if mgr is not None:
            c.pins.pop()

        def ex(s):
            if mgr is None:
                return [s]
            r = []
            for s1, m in self.getattr(mgr, "__exit__", s, n):
                for s2, _ in self.call(m, [NONE, NONE, NONE], {}, s1, n):
                    r.append(s2)
            return r

        for s, x in outc[0]:
            for s2 in ex(s):
                c.rets.append((s2, x))
        for s in outc[1]:
            c.breaks += ex(s)
        for s in outc[2]:
            c.conts += ex(s)
        for s, x, y in outc[3]:
            for s2 in ex(s):
                c.excs.append((s2, x, y))
        res = []
        for s in nx:
            res += ex(s)
        return res

    def with_generator(self, n, it, items, a, st):
        """with cm(): body  where cm is a @contextmanager generator of the repository"""
        fv, args, kw = a.data[0], a.data[1], a.data[2]
        outer = self.stack[-1]
        pend = {"rets": [], "breaks": [], "conts": []}

        def hook(s, val):
            # executed in place of the yield; self.stack[-1] is the generator's ctx
            gctx = self.stack[-1]
            depth = len(self.stack)
            tail = []
            while self.stack[-1] is not outer:
                tail.append(self.stack.pop())
            saved = (outer.rets, outer.breaks, outer.conts, outer.excs)
            outer.rets, outer.breaks, outer.conts, outer.excs = [], [], [], []
            ss = [s]
            if it.optional_vars is not None:
                ss = self.assign(it.optional_vars, val, s)
            nx = []
            for s1 in ss:
                nx += self.with_items(n, items[1:], s1)
            rets, brks, cnts, excs = outer.rets, outer.breaks, outer.conts, outer.excs
            outer.rets, outer.breaks, outer.conts, outer.excs = saved
            while tail:
                self.stack.append(tail.pop())
            gctx.excs.extend(excs)
            res = [(s1, NONE, "next", None) for s1 in nx]
            res += [(s1, NONE, "ret", x) for s1, x in rets]
            res += [(s1, NONE, "brk", None) for s1 in brks]
            res += [(s1, NONE, "cnt", None) for s1 in cnts]
            return res

        out = []
        f = fv.one()
        # run the generator once per kind of outcome of the body: the tag is stored in the frame
        kwd = dict(kw)
        for s2, r in self.call_func(f, list(args), kwd, st, n, yield_hook=hook):
            tag = self.withtag(s2, r)
            out.append((s2, tag))
        res = []
        for s2, (kind, val) in out:
            if kind == "next":
                res.append(s2)
            elif kind == "ret":
                outer.rets.append((s2, val))
            elif kind == "brk":
                outer.breaks.append(s2)
            else:
                outer.conts.append(s2)
        return res

    def withtag(self, st, r):
        a = r.one()
        if a.__class__ is XV and a.path == "withtag":
            return a.data[0], a.data[1]
        return "next", NONE

    def x_Try(self, n, st):
        c = self.stack[-1]
        saved_ex = c.excs
        fin = bool(n.finalbody)
        if fin:
            saved = (c.rets, c.breaks, c.conts)
            c.rets, c.breaks, c.conts = [], [], []
        c.excs = []
        entry = st.fork()
        self.try_depth += 1
        cur = self.exec_block(n.body, [st])
        self.try_depth -= 1
        raised = c.excs
        c.excs = []
        if cur and n.orelse:
            cur = self.exec_block(n.orelse, cur)
        # handlers
        pend = []  # exceptions not handled
        for s, x, y in raised:
            rem = True
            for hd in n.handlers:
                if hd.type is None:
                    may, must = True, True
                    s0 = s
                else:
                    r = self.ev(hd.type, s.fork())
                    may, must = self.exc_match(x, r[0][1], s) if r else (True, False)
                if may:
                    s1 = s.fork() if not must else s
                    ss = [s1]
                    if hd.name:
                        ss = self.assign_name(hd.name, x, s1)
                    old = getattr(c, "comp_exc", None)
                    c.comp_exc = x
                    cur = cur + self.exec_block(hd.body, ss)
                    c.comp_exc = old
                if must:
                    rem = False
                    break
            if rem:
                pend.append((s, x, y))
        pend += c.excs
        c.excs = saved_ex
        if not fin:
            c.excs.extend(pend)
            return self.merge(cur) if len(cur) > 1 else cur
        rets, brks, cnts = c.rets, c.breaks, c.conts
        c.rets, c.breaks, c.conts = saved
        out = self.exec_block(n.finalbody, self.merge(cur)) if cur else []
        for s, x in rets:
            for s2 in self.exec_block(n.finalbody, [s]):
                c.rets.append((s2, x))
        for s in brks:
            c.breaks += self.exec_block(n.finalbody, [s])
        for s in cnts:
            c.conts += self.exec_block(n.finalbody, [s])
        for s, x, y in pend:
            for s2 in self.exec_block(n.finalbody, [s]):
                c.excs.append((s2, x, y))
        return out

    x_TryStar = x_Try

    # ------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        c = self.stack[-1]
        for sc in reversed(c.comp):
            if name in sc:
                x = st.heap[c.frame].attrs.get(sc[name])
                if x is not None:
                    return x
        if getattr(c, "is_class", False):
            x = st.heap[c.frame].attrs.get(name)
            if x is not None:
                return x
            o = c.outer
            if o.info is not None:
                x = self.lookup_frames(name, st, o.frame)
                if x is not None:
                    return x
            return self.lookup_global(name, st, c.module, node)
        info = c.info
        if info is not None and name not in info.globals_:
            x = self.lookup_frames(name, st, c.frame, first=info)
            if x is not None:
                return x
        elif info is None:
            x = st.heap[c.frame].attrs.get(name)
            if x is not None:
                return self.strip_undef(x, name, node)
        return self.lookup_global(name, st, c.module, node)

    def lookup_frames(self, name, st, frame, first=None):
        f = frame
        while f is not None:
            o = st.heap.get(f)
            if o is None or o.kind != "frame":
                return None
            info = o.cls[0]
            if name in info.locals:
                x = o.attrs.get(name)
                if x is None:
                    return BOT if f == frame else None
                return self.strip_undef(x, name, None)
            if f != frame:
                for k in o.attrs:
                    if "#" in k and k.split("#")[0] == name:
                        return o.attrs[k]
            f = o.cls[1]
        return None

    def strip_undef(self, x, name, node):
        if UNDEF_ATOM in x.a:
            return V(x.a - {UNDEF_ATOM}, x.l)
        return x

    def lookup_global(self, name, st, module, node):
        m = st.heap.get(("module", module, "r"))
        if m is not None:
            x = m.attrs.get(name)
            if x is not None:
                x = self.strip_undef(x, name, node)
                if self.phase == "call":
                    self.note_global_read(module, name, x)
                return x
        if hasattr(_pybuiltins, name):
            b = getattr(_pybuiltins, name)
            if b is None or b is True or b is False or b is Ellipsis:
                return const(b)
            return v(X("builtins." + name))
        if name == "__file__":
            return STR
        self.lose("unbound name " + name)
        return top("unbound " + name)

    def note_global_read(self, module, name, x):
        pass

    def assign_name(self, name, x, st):
        c = self.stack[-1]
        if st.pc:
            x = x.lab(st.pc)
        for sc in reversed(c.comp):
            if name in sc:
                o = st.heap[c.frame]
                at = dict(o.attrs)
                at[sc[name]] = x
                st.heap[c.frame] = o.rep(attrs=at)
                return [st]
        frame = c.frame
        info = c.info
        if info is not None and not getattr(c, "is_class", False):
            if name in info.globals_:
                frame = ("module", c.module, "r")
            elif name in info.nonlocals or name not in info.locals:
                f = st.heap[c.frame].cls[1]
                while f is not None:
                    o = st.heap.get(f)
                    if o is None:
                        break
                    if name in o.cls[0].locals:
                        frame = f
                        break
                    f = o.cls[1]
        o = st.heap[frame]
        if o.kind == "module" and self.phase == "call" and o.owner == "global" and info is not None:
            self.emit("global-write", None, module=str(o.cls), name=name)
        at = dict(o.attrs)
        at[name] = x
        st.heap[frame] = o.rep(attrs=at)
        return [st]

    def assign(self, t, x, st):
        if isinstance(t, ast.Name):
            return self.assign_name(t.id, x, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, x, st)
        if isinstance(t, ast.Attribute):
            out = []
            for s, ov in self.ev(t.value, st):
                out += self.setattr(ov, t.attr, x, s, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, ov in self.ev(t.value, st):
                for s2, ix in self.ev(t.slice, s):
                    out += self.models.setitem(self, ov, ix, x, s2, t)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, x, st)
        self.lose("assign target")
        return [st]

    def unpack(self, t, x, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        out = []
        # exact tuples are unpacked per alternative, joined
        vals = [BOT] * n
        for a in x.a:
            items = None
            if a.__class__ is T:
                items = a.items
            elif a.__class__ is R:
                o = st.heap.get(a.addr)
                if o is not None and o.items is not None and o.kind in ("list", "iter"):
                    items = o.items
            if items is not None and not star:
                if len(items) != n:
                    continue
                for i in range(n):
                    vals[i] = join(vals[i], items[i])
            elif items is not None:
                k = star[0]
                tail = n - k - 1
                if len(items) < n - 1:
                    continue
                for i in range(k):
                    vals[i] = join(vals[i], items[i])
                for i in range(tail):
                    vals[n - 1 - i] = join(vals[n - 1 - i], items[len(items) - 1 - i])
                mid = items[k:len(items) - tail]
                lst = self.alloc(st, t, Obj("list", items=tuple(mid), lens=(L.iconst(len(mid)),)), "star")
                vals[k] = join(vals[k], lst)
            else:
                r = self.models.iterate(self, V(frozenset((a,)), x.l), st, t)
                for s2, it in r:
                    for s3, e in it.elem(s2, None):
                        for i in range(n):
                            if i in star:
                                lst = self.alloc(st, t, Obj("list", elem=e, lens=(L.irange(0, None),)), "star")
                                vals[i] = join(vals[i], lst)
                            else:
                                vals[i] = join(vals[i], e)
        ss = [st]
        for e, y in zip(t.elts, vals):
            nx = []
            for s in ss:
                nx += self.assign(e, y.lab(x.l), s)
            ss = nx
        return ss

    # ------------------------------------------------------------ attributes
    def class_lookup(self, clsatom, name, st, seen=None):
        """look name up along the bases; returns (V, owner ClassInfo) or None"""
        if clsatom.__class__ is R:
            o = st.heap.get(clsatom.addr)
            if o is None or o.kind != "cls":
                return None
            if name in o.attrs:
                return o.attrs[name], o.cls
            for b in o.cls.bases:
                r = self.class_lookup(b, name, st)
                if r is not None:
                    return r
            return None
        return None

    def builtin_base(self, ci, st):
        for b in ci.bases:
            if b.__class__ is X:
                return b.path
            if b.__class__ is R:
                o = st.heap.get(b.addr)
                if o is not None and o.kind == "cls":
                    r = self.builtin_base(o.cls, st)
                    if r:
                        return r
        return None

    def bind(self, x, selfv, clsv, st, n):
        """bind attribute x found on a class to an instance"""
        out = BOT
        props = []
        for a in x.a:
            if a.__class__ is F:
                out = join(out, v(BM(a, selfv), labels=x.l))
            elif a.__class__ is XV and a.path == "property":
                props.append(a)
            elif a.__class__ is XV and a.path == "staticmethod":
                out = join(out, a.data[0])
            elif a.__class__ is XV and a.path == "classmethod":
                out = join(out, v(BM(a.data[0].one(), clsv)))
            elif a.__class__ is XV and a.path == "cached":
                out = join(out, v(P(v(a), (selfv,), {})))
            elif a.__class__ is XV and a.path == "ctxmgr":
                out = join(out, v(P(v(a), (selfv,), {})))
            else:
                out = join(out, v(a, labels=x.l))
        res = []
        if out.a:
            res.append((st, out))
        for p in props:
            if len(p.data) > 2:
                self.emit("cached-call", n, fn=p.data[2], args=self.arg_summary([selfv], {}, st))
            res += self.call(p.data[0], [selfv], {}, st if not res else st.fork(), n)
        return res

    def getattr(self, ov, name, st, n):
        out = []
        plain = BOT
        for a in ov.a:
            c = a.__class__
            if c is R:
                o = st.heap.get(a.addr)
                if o is None:
                    plain = join(plain, self.lose("dangling"))
                    continue
                if o.kind == "module":
                    if name in o.attrs:
                        plain = join(plain, self.strip_undef(o.attrs[name], name, n))
                    elif self.modfile(str(o.cls) + "." + name) and self.is_repo_module(str(o.cls)):
                        plain = join(plain, self.lose("submodule attr"))
                    else:
                        self.raise_exc(st.fork(), "AttributeError", n, implicit=True)
                    continue
                if o.kind == "cls":
                    r = self.class_lookup(a, name, st)
                    if r is not None:
                        for s2, x in self.bind_cls(r[0], v(a), st, n):
                            plain = join(plain, x)
                    else:
                        plain = join(plain, self.models.class_attr(self, a, o, name, st, n))
                    continue
                if name in o.attrs and o.kind in ("inst", "ext") or (o.cls is not None and name in o.attrs and o.kind not in ("frame",)):
                    x = self.strip_undef(o.attrs[name], name, n)
                    plain = join(plain, x.lab(ov.l))
                    continue
                if isinstance(o.cls, ClassInfo):
                    r = self.class_lookup(R(o.cls.addr), name, st)
                    if r is not None:
                        bs = self.bind(r[0], v(a, labels=ov.l), v(R(o.cls.addr)), st, n)
                        if len(bs) == 1 and bs[0][0] is st:
                            plain = join(plain, bs[0][1])
                        else:
                            out += bs
                        continue
                    if name == "__class__":
                        plain = join(plain, v(R(o.cls.addr)))
                        continue
                    if o.kind == "inst":
                        r = self.class_lookup(R(o.cls.addr), "__getattr__", st)
                        bb = self.builtin_base(o.cls, st)
                        if name == "__dict__":
                            plain = join(plain, self.lose("__dict__"))
                        elif bb is None:
                            self.raise_exc(st.fork(), "AttributeError", n, implicit=True)
                        else:
                            plain = join(plain, v(X(bb + "." + name)))
                        continue
                x = self.models.obj_attr(self, a, o, name, st, n, ov.l)
                plain = join(plain, x)
            elif c is X:
                plain = join(plain, self.models.external_attr(self, a.path, name))
            elif c is F:
                da = st.heap.get(("dflt", a.info.uid, a.frame or ""))
                if da is not None and "@" + name in da.attrs:
                    plain = join(plain, da.attrs["@" + name])
                elif name in ("__name__", "__qualname__"):
                    plain = join(plain, const(a.info.node.name if hasattr(a.info.node, "name") else "<lambda>"))
                else:
                    plain = join(plain, STR if name == "__doc__" else self.lose("func attr"))
            elif c is TOP:
                plain = join(plain, v(a, labels=ov.l))
            else:
                plain = join(plain, self.models.value_attr(self, a, name, st, n, ov.l))
        if plain.a or not out:
            if plain.a:
                out.append((st, plain.lab(ov.l)))
        return out

    def bind_cls(self, x, clsv, st, n):
        out = BOT
        for a in x.a:
            if a.__class__ is XV and a.path == "staticmethod":
                out = join(out, a.data[0])
            elif a.__class__ is XV and a.path == "classmethod":
                out = join(out, v(BM(a.data[0].one(), clsv)))
            else:
                out = join(out, v(a, labels=x.l))
        return [(st, out)]

    def setattr(self, ov, name, x, st, n):
        x = x.lab(st.pc)
        single = len(ov.a) == 1
        for a in ov.a:
            if a.__class__ is R:
                o = st.heap.get(a.addr)
                if o is None:
                    continue
                if isinstance(o.cls, ClassInfo) and o.kind != "cls":
                    r = self.class_lookup(R(o.cls.addr), name, st)
                    if r is not None:
                        pa = r[0].one()
                        if pa.__class__ is XV and pa.path == "property":
                            if pa.data[1] != NONE:
                                res = []
                                for s2, _ in self.call(pa.data[1], [v(a), x], {}, st, n):
                                    res.append(s2)
                                return res
                            self.raise_exc(st.fork(), "AttributeError", n, implicit=True)
                            continue
                if o.kind == "ext":
                    self.models.ext_setattr(self, a, o, name, x, st, n)
                    o = st.heap[a.addr]
                at = dict(o.attrs)
                if single and a.addr[2] != "s":
                    at[name] = x
                else:
                    at[name] = join(at[name], x) if name in at else x
                if o.kind == "module" and self.phase == "call":
                    self.emit("global-write", n, module=str(o.cls), name=name)
                    st.heap[a.addr] = o.rep(attrs=at)
                    continue
                self.put(st, a.addr, o.rep(attrs=at), n, "set attribute %s" % name)
            elif a.__class__ is F:
                da = ("dflt", a.info.uid, a.frame or "")
                o = st.heap.get(da)
                if o is not None:
                    at = dict(o.attrs)
                    at["@" + name] = x
                    self.put(st, da, o.rep(attrs=at), n, "set function attribute %s" % name)
            elif a.__class__ is XV:
                self.models.setattr_xv(self, a, name, x, st, n)
            elif a.__class__ is X:
                if self.phase == "call":
                    self.emit("external-write", n, target=a.path, name=name)
        return [st]

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kw, st, n):
        """returns list of (st, V)"""
        out = []
        atoms = list(fv.a)
        for i, a in enumerate(atoms):
            s = st if i == len(atoms) - 1 else st.fork()
            out += self.call_atom(a, args, kw, s, n, fv.l)
        if len(atoms) > 1 and len(out) > 1:
            out = self.merge_rets(out)
        return out

    def call_atom(self, a, args, kw, st, n, labels=NOLAB):
        c = a.__class__
        if c is F:
            return self.call_func(a, args, kw, st, n)
        if c is BM:
            if a.fn.__class__ is F:
                return self.call_func(a.fn, [a.self_] + list(args), kw, st, n)
            if isinstance(a.fn, str):
                return self.models.call_method(self, a.fn, a.self_, args, kw, st, n)
            return self.call_atom(a.fn, [a.self_] + list(args), kw, st, n)
        if c is P:
            k2 = dict(a.kw)
            k2.update(kw)
            return self.call(a.fn, list(a.args) + list(args), k2, st, n)
        if c is X:
            h = self.hooks.get(a.path)
            if h is not None:
                return h(self, st, args, kw, n)
            return self.models.call_external(self, a.path, args, kw, st, n)
        if c is XV:
            if a.path == "cached":
                f = a.data[0]
                self.emit("cached-call", n, fn=a.data[1], args=self.arg_summary(args, kw, st))
                return self.call(f, args, kw, st, n)
            if a.path == "ctxmgr":
                return [(st, v(XV("ctxcall", (a.data[0], tuple(args), tuple(sorted(kw.items()))))))]
            if a.path == "extmethod":
                return self.models.call_ext_method(self, a.data[0], a.data[1], [x if x.__class__ is V else x[1] for x in args], kw, st, n)
            return self.models.call_xv(self, a, args, kw, st, n)
        if c is R:
            o = st.heap.get(a.addr)
            if o is not None and o.kind == "cls":
                return self.instantiate(a, o, args, kw, st, n)
            if o is not None and isinstance(o.cls, ClassInfo):
                out = []
                for s2, m in self.getattr(v(a), "__call__", st, n):
                    out += self.call(m, args, kw, s2, n)
                return out
            if o is not None and o.kind == "ext":
                return self.models.call_extobj(self, a, o, args, kw, st, n)
        if c is TOP:
            return [(st, v(a, labels=labels))]
        if c is C and a.v is None:
            self.raise_exc(st, "TypeError", n, implicit=True)
            return []
        return [(st, self.lose("call of %r" % (a,)))]

    def arg_summary(self, args, kw, st):
        res = []
        for x in list(args) + list(kw.values()):
            for a in x.a:
                if a.__class__ is R:
                    o = st.heap.get(a.addr)
                    if o is not None:
                        res.append("%s:%s" % (o.kind, getattr(o.cls, "name", o.cls)))
        return tuple(sorted(set(res)))

    def instantiate(self, a, o, args, kw, st, n):
        ci = o.cls
        bb = self.builtin_base(ci, st)
        kind = "inst"
        if bb in ("builtins.set", "builtins.frozenset", "builtins.list", "builtins.dict", "builtins.tuple",
                  "collections.OrderedDict", "collections.defaultdict", "collections.UserDict", "collections.UserList"):
            kind = bb.split(".")[1]
            kind = {"tuple": "list", "OrderedDict": "dict", "defaultdict": "dict", "UserDict": "dict", "UserList": "list"}.get(kind, kind)
        self.called.add((ci.module, ci.name))
        obj = Obj(kind, cls=ci)
        isexc = bb is not None and bb.startswith("builtins.") and isinstance(getattr(_pybuiltins, bb[9:], None), type) and issubclass(getattr(_pybuiltins, bb[9:]), BaseException)
        me = self.alloc(st, n, obj, "new" + ci.name)
        dc = o.attrs.get("__dataclass__")
        r = self.class_lookup(a, "__new__", st)
        r = self.class_lookup(a, "__init__", st)
        if r is None:
            if dc is not None:
                return self.models.dataclass_init(self, a, o, me, args, kw, st, n)
            if kind != "inst":
                out = self.models.container_init(self, me, kind, args, kw, st, n)
                return [(s, me) for s in out]
            return [(st, me)]
        out = []
        for s2, _ in self.call(v(BM(r[0].one(), me)) if r[0].one().__class__ is F else r[0], args, kw, st, n):
            out.append((s2, me))
        return out

    def call_func(self, f, args, kw, st, n, yield_hook=None):
        info = f.info
        h = self.hooks.get(info.qualname)
        if h is not None:
            r = h(self, st, args, kw, n)
            if r is not None:
                return r
        if len(self.stack) > self.MAXDEPTH:
            return [(st, self.lose("call depth"))]
        rec = sum(1 for c in self.stack if c.info is info)
        if rec >= 3:
            return [(st, self.lose("recursion %s" % info.qualname))]
        cur = self.stack[-1]
        self.called.add((info.module, info.qualname))
        cid = self.ctxid(cur.ctxid, n, info.uid)
        # ---- bind parameters
        at = {}
        pos = list(info.pos)
        extra = []
        for i, x in enumerate(args):
            if x.__class__ is tuple and x[0] == "*":
                # unknown-length star argument: spread over remaining positionals
                for p in pos[i:]:
                    if p not in kw:
                        at[p] = join(at.get(p, BOT), x[1])
                if info.vararg:
                    extra.append(x)
                continue
            if i < len(pos):
                at[pos[i]] = x
            else:
                extra.append(x)
        if extra and not info.vararg:
            self.raise_exc(st, "TypeError", n, implicit=True)
            return []
        kwextra = {}
        for k, x in kw.items():
            if k == "**":
                for p in pos + info.kwonly:
                    if p not in at:
                        at[p] = x
                continue
            if k in pos or k in info.kwonly:
                if k in at and k in pos[: len(args)]:
                    self.raise_exc(st, "TypeError", n, implicit=True)
                    return []
                at[k] = x
            elif info.kwarg:
                kwextra[k] = x
            else:
                self.raise_exc(st, "TypeError", n, implicit=True)
                return []
        dobj = st.heap.get(("dflt", info.uid, f.frame or ""))
        for p in pos + info.kwonly:
            if p not in at:
                if dobj is not None and p in dobj.attrs:
                    at[p] = dobj.attrs[p]
                else:
                    self.raise_exc(st, "TypeError", n, implicit=True)
                    return []
        ctx = Ctx(info, ("frame", cid, info.uid), cid, info.module, cur, n)
        if info.vararg:
            at[info.vararg] = v(T([x for x in extra if x.__class__ is V])) if all(x.__class__ is V for x in extra) else top("star")
        self.stack.append(ctx)
        try:
            if info.kwarg:
                at[info.kwarg] = self.alloc(st, info.node, Obj("dict", ents=tuple((const(k), x, True) for k, x in kwextra.items()), lens=(L.iconst(len(kwextra)),)), "kwargs")
            frame = ctx.frame
            if st.pc:
                at = {k: x.lab(st.pc) for k, x in at.items()}
            # the frame object: cls = (info, parent frame)
            st.heap[frame] = Obj("frame", cls=(info, f.frame), attrs=at)
            pc0 = st.pc
            if info.is_gen and yield_hook is None:
                y = self.alloc(st, info.node, Obj("iter", lens=(L.iconst(0),)), "yields")
                ctx.yields = y
            ctx.yield_hook = yield_hook
            body = info.node.body
            if isinstance(body, list):
                nexts = self.exec_block(body, [st])
                rets = ctx.rets + [(s, NONE) for s in nexts]
            else:
                rets = self.ev(body, st)
            if info.is_gen and yield_hook is None:
                rets = [(s, ctx.yields) for s, _ in rets]
            if yield_hook is not None:
                rets = [(s, s.heap[frame].attrs.get("<withtag>", NONE)) for s, _ in rets]
        finally:
            self.stack.pop()
        if ctx.excs:
            for s, x, y in ctx.excs:
                s.pc = pc0
            cur.excs.extend(ctx.excs)
        out = []
        keep_frame = None
        for s, x in rets:
            x = x.lab(s.pc)
            s.pc = pc0
            out.append((s, x))
        out = self.merge_rets(out)
        for s, x in out:
            # drop the frame unless captured by a closure that survives
            self.gc_frame(s, ctx, x)
        return out

    def gc_frame(self, s, ctx, x):
        h = s.heap
        fr = ctx.frame
        if fr not in h:
            return
        rx = refs(x)
        if fr in rx:
            return
        for k, o in h.items():
            if k != fr and (fr in o.refs() or (o.kind == "frame" and o.cls[1] == fr)):
                # maybe only garbage references it: let the collector decide
                self.gc2(s, ctx, (x,))
                return
        del h[fr]
        self.gc(s, ctx, (x,))

    def gc2(self, s, ctx, roots):
        fr = ctx.frame
        self.gc(s, Ctx(None, None, ctx.ctxid, None, None, None), roots)

    def merge_rets(self, rets):
        if len(rets) <= 1:
            return rets
        groups = {}
        for s, x in rets:
            a = x.one()
            if a.__class__ is C and (a.v is None or isinstance(a.v, bool)):
                k = repr(a.v)
            elif a.__class__ is XV and a.path == "withtag":
                k = a.data[0]
            elif a.__class__ is T and len(a.items) <= 4:
                k = tuple(repr(y.one().v) if y.one().__class__ is C and isinstance(y.one().v, bool) else "*" for y in a.items)
            else:
                k = "*"
            groups.setdefault(k, []).append((s, x))
        if len(groups) > self.MAXSTATES:
            groups = {"*": rets}
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
            else:
                # returns under different control labels depend on them
                out.append((join_states([s for s, _ in g]), joins([x for _, x in g])))
        if len(out) > 1:
            labs = NOLAB
            for _, x in out:
                labs |= x.l
            # which return is taken is itself information
            if labs:
                out = [(s, x.lab(labs)) for s, x in out]
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.serial += 1
        self.serials[id(n)] = self.serial
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m is None:
            return [(st, self.lose("expr " + n.__class__.__name__))]
        return m(n, st)

    def ev_list(self, nodes, st):
        """evaluate left to right: list of (state, [values])"""
        res = [(st, [])]
        for nd in nodes:
            nx = []
            for s, vs in res:
                for s2, x in self.ev(nd, s):
                    nx.append((s2, vs + [x]))
            if len(nx) > 6:
                k = len(nx[0][1])
                nx = [(join_states([s for s, _ in nx]), [joins([vs[i] for _, vs in nx]) for i in range(k)])]
            res = nx
        return res

    def e_Constant(self, n, st):
        x = n.value
        if isinstance(x, float):
            return [(st, v(fl(x, None)))]
        return [(st, const(x))]

    def e_Name(self, n, st):
        return [(st, self.lookup(n.id, st, n))]

    def e_JoinedStr(self, n, st):
        parts = []
        res = [(st, [])]
        for p in n.values:
            nx = []
            for s, acc in res:
                if isinstance(p, ast.Constant):
                    nx.append((s, acc + [const(p.value)]))
                else:
                    for s2, x in self.ev(p.value, s):
                        for s3, y in self.models.to_str(self, x, s2, n, p.conversion):
                            if p.format_spec is not None:
                                for s4, fs in self.ev(p.format_spec, s3):
                                    fa = fs.one()
                                    if fa.__class__ is C and fa.v == "":
                                        nx.append((s4, acc + [y]))
                                    else:
                                        nx.append((s4, acc + [V(STR.a, y.l | x.l)]))
                            else:
                                nx.append((s3, acc + [y.lab(x.l)]))
            if len(nx) > 4:
                k = len(nx[0][1])
                nx = [(join_states([s for s, _ in nx]), [joins([a[i] for _, a in nx]) for i in range(k)])]
            res = nx
        out = []
        for s, acc in res:
            labs = NOLAB
            for x in acc:
                labs |= x.l
            if all(len(x.a) == 1 and x.one().__class__ is C and isinstance(x.one().v, str) for x in acc):
                out.append((s, V(const("".join(x.one().v for x in acc)).a, labs)))
            else:
                out.append((s, V(frozenset((S(self.models.fstr_tag(acc)),)), labs)))
        return out

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.copy_location(ast.JoinedStr([n]), n), st)

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for s, lv in self.e_List(n, st):
                o = s.heap[lv.one().addr]
                if o.items is not None:
                    out.append((s, v(T(o.items), labels=lv.l)))
                else:
                    out.append((s, v(TO(o.all_elem(), o.lens, o.fl), labels=lv.l | o.labels)))
            return out
        return [(s, v(T(vs))) for s, vs in self.ev_list(n.elts, st)]

    def e_List(self, n, st, kind="list"):
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for s, vs in self.ev_list(n.elts, st):
                out.append((s, self.models.make_list(self, kind, vs, s, n)))
            return out
        me = self.alloc(st, n, Obj("list" if kind == "list" else "set", items=() if kind == "list" else None))
        ss = [st]
        for e in n.elts:
            nx = []
            for s in ss:
                if isinstance(e, ast.Starred):
                    for s2, x in self.ev(e.value, s):
                        for s3, _ in self.models.call_method(self, "list.extend" if kind == "list" else "set.update", me, [x], {}, s2, n):
                            nx.append(s3)
                else:
                    for s2, x in self.ev(e, s):
                        for s3, _ in self.models.call_method(self, "list.append" if kind == "list" else "set.add", me, [x], {}, s2, n):
                            nx.append(s3)
            ss = nx
        return [(s, me) for s in ss]

    def e_Set(self, n, st):
        return self.e_List(n, st, "set")

    def e_Dict(self, n, st):
        me = self.alloc(st, n, Obj("dict"))
        ss = [st]
        for k, x in zip(n.keys, n.values):
            nx = []
            for s in ss:
                if k is None:
                    for s2, y in self.ev(x, s):
                        for s3, _ in self.models.call_method(self, "dict.update", me, [y], {}, s2, n):
                            nx.append(s3)
                else:
                    for s2, kv in self.ev(k, s):
                        for s3, y in self.ev(x, s2):
                            nx += self.models.setitem(self, me, kv, y, s3, n)
            ss = nx
        return [(s, me) for s in ss]

    def e_Lambda(self, n, st):
        return self.mkfunc(n, "<lambda>", st)

    def e_IfExp(self, n, st):
        outs = self.cond(n.test, st)
        labs = NOLAB
        for _, _, l in outs:
            labs |= l
        pc0 = st.pc
        res = []
        for truth, e in ((True, n.body), (False, n.orelse)):
            ss = [s for s, t, _ in outs if t is truth]
            if not ss:
                continue
            s = join_states(ss)
            s.pc = pc0 | labs
            for s2, x in self.ev(e, s):
                s2.pc = pc0
                res.append((s2, x.lab(labs)))
        return self.merge_vals(res)

    def merge_vals(self, res):
        if len(res) <= 1:
            return res
        groups = {}
        for s, x in res:
            a = x.one()
            k = repr(a.v) if a.__class__ is C and (a.v is None or isinstance(a.v, bool)) else "*"
            groups.setdefault(k, []).append((s, x))
        return [
            g[0] if len(g) == 1 else (join_states([s for s, _ in g]), joins([x for _, x in g]))
            for g in groups.values()
        ]

    def e_NamedExpr(self, n, st):
        out = []
        for s, x in self.ev(n.value, st):
            # walrus binds in the enclosing function scope
            c = self.stack[-1]
            comp, c.comp = c.comp, []
            for s2 in self.assign_name(n.target.id, x, s):
                out.append((s2, x))
            c.comp = comp
        return out

    def e_Attribute(self, n, st):
        out = []
        for s, ov in self.ev(n.value, st):
            out += self.getattr(ov, n.attr, s, n)
        return out

    def e_Subscript(self, n, st):
        out = []
        for s, ov in self.ev(n.value, st):
            for s2, ix in self.ev(n.slice, s):
                out += self.models.getitem(self, ov, ix, s2, n)
        return out

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Slice(self, n, st):
        parts = [n.lower, n.upper, n.step]
        res = [(st, [])]
        for p in parts:
            nx = []
            for s, acc in res:
                if p is None:
                    nx.append((s, acc + [NONE]))
                else:
                    for s2, x in self.ev(p, s):
                        nx.append((s2, acc + [x]))
            res = nx
        return [(s, v(XV("slice", tuple(a)))) for s, a in res]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        c = self.stack[-1]
        src = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        for s, x in src:
            if c.yield_hook is not None:
                for s2, r, kind, val in c.yield_hook(s, x):
                    o = s2.heap[c.frame]
                    at = dict(o.attrs)
                    at["<withtag>"] = v(XV("withtag", (kind, val if val is not None else NONE)))
                    s2.heap[c.frame] = o.rep(attrs=at)
                    out.append((s2, r))
                continue
            if c.yields is not None:
                for s2, _ in self.models.call_method(self, "list.append", c.yields, [x], {}, s, n):
                    out.append((s2, NONE))
            else:
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        c = self.stack[-1]
        for s, x in self.ev(n.value, st):
            if c.yields is not None:
                for s2, _ in self.models.call_method(self, "list.extend", c.yields, [x], {}, s, n):
                    out.append((s2, NONE))
            else:
                out.append((s, NONE))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, a in self.ev(n.left, st):
            for s2, b in self.ev(n.right, s):
                out += self.binop(n.op, a, b, s2, n)
        return out

    def binop(self, op, a, b, st, n):
        return self.models.binop(self, op, a, b, st, n)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.ev_cond_value(n, st)
        out = []
        for s, x in self.ev(n.operand, st):
            out.append((s, self.models.unary(self, n.op, x, s, n)))
        return out

    def e_Compare(self, n, st):
        r = self.models.compare_value(self, n, st)
        if r is not None:
            return r
        return self.ev_cond_value(n, st)

    def e_BoolOp(self, n, st):
        # value semantics: evaluate operands in order
        if all(self.is_boolish(x) for x in n.values):
            return self.ev_cond_value(n, st)
        isand = isinstance(n.op, ast.And)
        res = []
        cur = [st]
        for i, e in enumerate(n.values):
            nx = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, x in self.ev(e, s):
                    if last:
                        res.append((s2, x))
                        continue
                    t, f = self.models.truth_split(self, x, s2)
                    stop, go = (f, t) if isand else (t, f)
                    if stop.a:
                        res.append((s2.fork() if go.a else s2, stop))
                    if go.a:
                        nx.append(s2)
            cur = nx
        return self.merge_vals(res)

    def is_boolish(self, n):
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return True
        if isinstance(n, ast.BoolOp):
            return all(self.is_boolish(x) for x in n.values)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "any", "all", "bool", "hasattr", "callable"):
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            return True
        return False

    def e_Call(self, n, st):
        f = n.func
        out = []
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            c = self.stack[-1]
            selfv = self.lookup(c.info.pos[0], st) if c.info and c.info.pos else top("super")
            ci = c.info.cls if c.info else None
            return [(st, v(XV("super", (selfv, ci.addr if ci else None))))]
        if isinstance(f, ast.Name) and f.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            b = self.lookup(f.id, st, n)
            if b.one().__class__ is X and b.one().path.startswith("builtins."):
                return self.ev_cond_value(n, st)
        for s, fv in self.ev(f, st):
            for s2, args, kw in self.ev_args(n, s):
                self.stack[-1].curcall = n
                out += self.call(fv, args, kw, s2, n)
        if len(out) > 1:
            out = self.merge_vals(out) if len(out) > 3 else out
        return out

    def ev_args(self, n, st):
        res = [(st, [], {})]
        for a in n.args:
            nx = []
            for s, args, kw in res:
                if isinstance(a, ast.Starred):
                    for s2, x in self.ev(a.value, s):
                        for s3, it in self.models.iterate(self, x, s2, n):
                            if it.items is not None:
                                nx.append((s3, args + list(it.items), kw))
                            else:
                                for s4, e in it.elem(s3, None):
                                    nx.append((s4, args + [("*", e)], kw))
                else:
                    for s2, x in self.ev(a, s):
                        nx.append((s2, args + [x], kw))
            res = nx
        for k in n.keywords:
            nx = []
            for s, args, kw in res:
                for s2, x in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is None:
                        ok = False
                        for a in x.a:
                            if a.__class__ is R:
                                o = s2.heap.get(a.addr)
                                if o is not None and o.kind == "dict":
                                    ok = True
                                    for kk, y, p in o.ents:
                                        ka = kk.one()
                                        if ka.__class__ is C and isinstance(ka.v, str):
                                            kw2[ka.v] = y
                                    if o.key.a:
                                        kw2["**"] = o.elem
                        if not ok:
                            kw2["**"] = self.lose("star-star")
                    else:
                        kw2[k.arg] = x
                    nx.append((s2, args, kw2))
            res = nx
        if len(res) > 4:
            s = join_states([r[0] for r in res])
            k0 = res[0]
            if all(len(r[1]) == len(k0[1]) and r[2].keys() == k0[2].keys() and all(x.__class__ is V for x in r[1]) for r in res):
                res = [(s, [joins([r[1][i] for r in res]) for i in range(len(k0[1]))], {k: joins([r[2][k] for r in res]) for k in k0[2]})]
        return res

    # comprehensions ------------------------------------------------
    def comp(self, n, st, kind, emit_elem):
        """generic comprehension: runs generators as loops; emit_elem(state) -> list of states"""
        c = self.stack[-1]
        names = {}

        def tnames(t):
            if isinstance(t, ast.Name):
                names[t.id] = "%s#%d:%d" % (t.id, n.lineno, n.col_offset)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tnames(e)
            elif isinstance(t, ast.Starred):
                tnames(t.value)

        for g in n.generators:
            tnames(g.target)
        gens = n.generators

        def level(i, s):
            if i == len(gens):
                return emit_elem(s)
            g = gens[i]
            out = []

            def body(s1):
                cur = [s1]
                pc0 = s1.pc
                for t in g.ifs:
                    nx = []
                    for s2 in cur:
                        r = self.cond(t, s2)
                        labs = NOLAB
                        if len({x for _, x, _ in r}) > 1:
                            for _, _, l in r:
                                labs |= l
                        for s3, tr, _ in r:
                            s3.pc = s3.pc | labs
                            if tr:
                                nx.append(s3)
                            else:
                                s3.pc = pc0
                                c.conts.append(s3)
                    cur = nx
                if not cur:
                    return []
                res = level(i + 1, join_states(cur))
                for s2 in res:
                    s2.pc = pc0
                return res

            if i == 0:
                # the first iterable is evaluated in the enclosing scope
                sc = c.comp.pop() if c.comp and c.comp[-1] is names else None
                itvs = self.ev(g.iter, s)
                if sc is not None:
                    c.comp.append(sc)
            else:
                itvs = self.ev(g.iter, s)
            for s2, itv in itvs:
                out += self.for_loop(g.iter if not hasattr(g, "lineno") else g, itv, s2, g.target, body, [])
            return out

        c.comp.append(names)
        try:
            res = level(0, st)
        finally:
            c.comp.pop()
        # remove comprehension variables
        for s in res:
            o = s.heap[c.frame]
            if any(m in o.attrs for m in names.values()):
                at = {k: x for k, x in o.attrs.items() if k not in names.values()}
                s.heap[c.frame] = o.rep(attrs=at)
        return res

    def e_ListComp(self, n, st, kind="list"):
        me = self.alloc(st, n, Obj(kind, items=() if kind in ("list", "iter") else None))
        meth = "set.add" if kind == "set" else "list.append"

        def emit_elem(s):
            out = []
            r = self.ev(n.elt, s)
            if len(r) > 1:
                r = [(join_states([x for x, _ in r]), joins([y for _, y in r]))]
            for s2, x in r:
                for s3, _ in self.models.call_method(self, meth, me, [x], {}, s2, n):
                    out.append(s3)
            return out

        res = self.comp(n, st, kind, emit_elem)
        out = []
        for s in res:
            self.models.comp_flags(self, me, n, s)
            out.append((s, me))
        return out

    def e_SetComp(self, n, st):
        return self.e_ListComp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st, "iter")

    def e_DictComp(self, n, st):
        me = self.alloc(st, n, Obj("dict"))

        def emit_elem(s):
            out = []
            for s2, k in self.ev(n.key, s):
                for s3, x in self.ev(n.value, s2):
                    out += self.models.setitem(self, me, k, x, s3, n)
            return [join_states(out)] if len(out) > 1 else out

        return [(s, me) for s in self.comp(n, st, "dict", emit_elem)]

    # ------------------------------------------------------------ conditions
    def cond(self, n, st):
        """list of (state, truth, labels)"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not t, l) for s, t, l in self.cond(n.operand, st)]
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            res = []
            cur = [(st, NOLAB)]
            for i, e in enumerate(n.values):
                nx = []
                last = i == len(n.values) - 1
                for s, l0 in cur:
                    for s2, t, l in self.cond(e, s):
                        if last or t is (not isand):
                            res.append((s2, t, l | l0))
                        else:
                            nx.append((s2, l | l0))
                if len(nx) > 2:
                    labs = NOLAB
                    for _, l in nx:
                        labs |= l
                    nx = [(join_states([s for s, _ in nx]), labs)]
                cur = nx
            return self.merge_cond(res)
        if isinstance(n, ast.Compare):
            return self.models.compare(self, n, st)
        if isinstance(n, ast.Constant):
            return [(st, bool(n.value), NOLAB)]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            b = self.lookup(n.func.id, st, n).one()
            if b.__class__ is X:
                if b.path in ("builtins.any", "builtins.all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                    return self.models.anyall(self, b.path[9:], n.args[0], st, n)
                if b.path == "builtins.isinstance" and len(n.args) == 2:
                    return self.models.isinstance_cond(self, n, st)
                if b.path == "builtins.bool" and len(n.args) == 1:
                    return self.cond(n.args[0], st)
        if isinstance(n, ast.NamedExpr):
            out = []
            for s, x in self.ev(n, st):
                out += self.truth_states(n.target, x, s)
            return out
        out = []
        for s, x in self.ev(n, st):
            out += self.truth_states(n, x, s)
        return self.merge_cond(out)

    def truth_states(self, n, x, s):
        t, f = self.models.truth_split(self, x, s)
        out = []
        both = bool(t.a) and bool(f.a)
        if t.a:
            s1 = s.fork() if both else s
            if both:
                self.models.refine_path(self, n, x, t, s1)
            out.append((s1, True, x.l))
        if f.a:
            if both:
                self.models.refine_path(self, n, x, f, s)
            out.append((s, False, x.l))
        return out

    def merge_cond(self, res):
        tr = [r for r in res if r[1]]
        fa = [r for r in res if not r[1]]
        out = []
        for g in (tr, fa):
            if len(g) > 2:
                labs = NOLAB
                for r in g:
                    labs |= r[2]
                out.append((join_states([r[0] for r in g]), g[0][1], labs))
            else:
                out += g
        return out
