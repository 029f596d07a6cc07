"""Walks of one function once for each kind of property: `isinstance` tests on, and method calls
of, elements of a property table are resolved for that kind."""
from .util import *


def kinds(cx):
    return cx.prog.subclasses('Property')


def about_entries(cx, t):
    """the iteration goes through a table of properties"""
    return contains(t, lambda s: s[0] == 'a' and s[2] in ('property_entries',) or s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'properties')


def full(cx, p):
    """every loop over a property table was entered, and there is one"""
    ev = p.ev
    n = 0
    for i, e in enumerate(ev):
        if e.kind == 'iter' and about_entries(cx, e.a):
            nxt = [x for x in ev[i + 1:] if x.kind in ('loop', 'loopexit', 'iter')][:1]
            if not nxt or nxt[0].kind != 'loop':
                return False
            n += 1
        elif e.kind == 'compiter' and about_entries(cx, e.a):
            n += 1
    return n > 0


def everykind(cx, rule, q, method, msg, skip=(), args=None):
    """for each kind that has `method`, a walk over a property of that kind calls it"""
    f = cx.prog.func(q)
    n = 0
    for k in kinds(cx):
        if k.method(method) is None or k.name in skip:
            continue
        ps = [p for p in cx.paths(f, assume=True, kind=k, args=args) if not p.raised and full(cx, p)]
        if not ps:
            cx.unk(rule, '%s %s' % (q, k.name), 'no path over the properties was recognised')
            continue
        n += 1
        hit = [p for p in ps if any(e.kind == 'call' and e.name.split('.')[-1] == method and (e.recv is None or cx.types.is_entry(e.recv)) for e in p.ev)]
        if len(hit) == len(ps):
            cx.ok(rule, '%s of %s' % (method, k.name))
            continue
        bad = [p for p in ps if p not in hit]
        cond = [p for p in bad if any(e.kind == 'assume' and contains(e.a, cx.types.is_entry) for e in p.ev)]
        # not called on any path, or a path without a test on the property leaves it out
        if not hit or any(p not in cond for p in bad):
            p = bad[0]
            cx.bad(rule, '%s of %s in %s' % (method, k.name, f.name), f.where, msg % k.name, p)
        else:
            cx.unk(rule, '%s of %s in %s' % (method, k.name, f.name), 'depends on a test on the property')
    return n


