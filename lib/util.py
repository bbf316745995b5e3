"""Helpers shared by the checks: findings from abstract events, exits and results."""
from engine.values import *
from . import base, shape as SH


def evpath(e):
    return ["%s (called at line %s)" % (f, l) for f, l in e.stack]


def hit(rule, file, line, func, msg, path=(), name=""):
    """a violation found in one configuration; the key is independent of line numbers and configurations"""
    return dict(key=("%s|%s|%s" % (rule, file, func)).replace(" ", ""), where=base.where(file, line, func), msg=msg,
                path=list(path), name=name)


def evhit(rule, e, msg, name=""):
    return hit(rule, e.file, e.line, e.func, msg, evpath(e), name)


def events(res, *kinds):
    return [e for e in res.I.events.values() if e.kind in kinds]


def exc_classes(res, st, exc):
    """[(name, ancestors)] of an exception value"""
    return res.I.exc_names(exc, st)


def deep_labels(v, st, seen=None):
    """labels of a value and of everything reachable from it (contents, attributes, lengths)"""
    if seen is None:
        seen = set()
    out = set(v.l)
    for a in v.a:
        c = a.__class__
        if c is R:
            if a.addr in seen:
                continue
            seen.add(a.addr)
            o = st.heap.get(a.addr)
            if o is None:
                continue
            out |= set(o.labels)
            for x in [o.key, o.elem] + list(o.items or ()) + list(o.attrs.values()):
                out |= deep_labels(x, st, seen)
            for k, x, p in o.ents:
                out |= deep_labels(x, st, seen)
        elif c is T:
            for x in a.items:
                out |= deep_labels(x, st, seen)
        elif c is TO:
            out |= deep_labels(a.elem, st, seen)
        elif c is N and a.src:
            pass
    return out


def result_labels(res, name="r"):
    out = set()
    for st in res.outs:
        out |= set(st.pc)
        out |= deep_labels(res.value(st, name), st)
    return out


def lossy_result(res, name="r"):
    """the analysis lost track of (part of) the result"""
    if res.I.lossy:
        return True
    for st in res.outs:
        if any(a.__class__ is TOP for a in res.value(st, name).a):
            return True
    return False


def exits(res):
    """normal and exceptional exits: (state, None | (exception value, (loc, implicit, stack)))"""
    for st in res.outs:
        yield st, None
    for st, exc, info in res.excs:
        yield st, (exc, info)


def definite_exc(res):
    """no normal exit although the analysis kept full precision"""
    return not res.outs and not res.I.lossy


def collect(results, show=3):
    """merge per-configuration hits into findings, one per key"""
    byk = {}
    for name, r in sorted(results.items()):
        for h in r.get("hits", ()):
            byk.setdefault(h["key"], []).append((name, h))
    out = []
    for k, xs in byk.items():
        name, h = xs[0]
        msg = h["msg"]
        ns = [n for n, _ in xs]
        out.append(base.Finding(k, h["where"], "%s  [%s%s]" % (msg, ", ".join(ns[:show]), " and %d more" % (len(ns) - show) if len(ns) > show else ""),
                                h["path"]))
    return out


def total(results, k):
    return sum(r.get(k, 0) for r in results.values())


def simple_finish(explanation, assumptions=(), extra=None):
    def finish(results, tier):
        cov = dict(explanation=explanation, configurations=len(results), obligations=total(results, "n"))
        cov["functions_analysed"] = len({f for r in results.values() for f in r.get("funcs", ())})
        if extra:
            cov.update(extra(results))
        return collect(results), cov, list(assumptions)

    return finish
