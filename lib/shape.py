"""Abstract shape of a value returned by compute(): list of committees."""
from engine import lin as L
from engine.values import *

K = L.sym("k")
N_ = L.sym("n")
M_ = L.sym("m")


def elem_of(o):
    return o.elem if o.items is None else joins(list(o.items)) if o.items else BOT


def committees(val, st):
    """yield (list address, list object, committee address, committee object | None, atom)"""
    for a in val.a:
        if a.__class__ is not R:
            yield None, None, None, None, a
            continue
        o = st.heap.get(a.addr)
        if o is None:
            continue
        els = elem_of(o)
        if not els.a:
            yield a.addr, o, None, None, None
        for y in els.a:
            if y.__class__ is R:
                yield a.addr, o, y.addr, st.heap.get(y.addr), y
            else:
                yield a.addr, o, None, None, y


def site(addr):
    """(file, line) of an allocation site"""
    s = str(addr[0]).split("#")[0].rsplit(":", 2)
    try:
        return s[0], int(s[1])
    except Exception:
        return s[0], 0


def interval_class(i, e):
    """relation of interval i to the linear expression e:
    exact / off (never equal) / tight (finite, contains e and other values) / loose"""
    x = L.exact(i)
    if x is not None and x == e:
        return "exact"
    lo, hi = i
    if any(L.le(e, z) for z in lo) and any(L.le(z, e) for z in hi):
        return "exact"
    if any(L.lt(z, e) for z in hi) or any(L.lt(e, z) for z in lo):
        return "off"
    if hi and any(L.le(z, e) for z in hi):
        return "below"  # at most e, maybe less
    if any(L.has_def(z) for z in lo + hi):
        return "loose"  # only bounded through the unknown length of another container
    if any(L.le(e, z) for z in lo):
        return "above" if any(L.sub(z, e).is_const() for z in hi) else "loose"
    return "loose"
