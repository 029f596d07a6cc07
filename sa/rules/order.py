"""Terms over a finite abstract domain: every leaf is given an abstract value and the term is
folded.  Used where a function touches its inputs only through comparisons or fixed
selections, so that finitely many abstract cases cover all inputs."""
import operator
from ..terms import *


class Unk(Exception):
    pass


CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
       'is': operator.is_, 'is not': operator.is_not, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod,
       '<<': operator.lshift, '>>': operator.rshift, '&': operator.and_, '|': operator.or_, '^': operator.xor, '**': operator.pow}
FUN = {'len': len, 'int': int, 'bool': bool, 'min': min, 'max': max, 'abs': abs, 'tuple': tuple, 'list': list, 'str': str,
       'reversed': lambda x: tuple(reversed(x)), 'sorted': sorted, 'sum': sum, 'divmod': divmod, 'bytes': bytes, 'bytearray': bytearray,
       'range': range, 'ord': ord, 'chr': chr, 'hex': hex}


def ev(t, leaf):
    r = leaf(t)
    if r is not None:
        return r[0]
    if not isinstance(t, tuple) or not t:
        raise Unk(t)
    k = t[0]
    if k == 'c':
        return t[2]
    if k == 'cmp' and t[1] in CMP:
        return CMP[t[1]](ev(t[2], leaf), ev(t[3], leaf))
    if k == 'bin' and t[1] in BIN:
        try:
            return BIN[t[1]](ev(t[2], leaf), ev(t[3], leaf))
        except (TypeError, ZeroDivisionError, ValueError):
            raise Unk(t)
    if k == 'un':
        v = ev(t[2], leaf)
        if t[1] == 'not':
            return not v
        if t[1] == '-':
            return -v
        if t[1] == '~':
            return ~v
        raise Unk(t)
    if k in ('tuple', 'list', 'members'):
        return tuple(ev(x, leaf) for x in t[1])
    if k == 'set':
        return frozenset(ev(x, leaf) for x in t[1])
    if k in ('bool', 'and', 'or') and isinstance(t[1], tuple):
        raise Unk(t)
    if k == 'poly':
        s = 0
        for mono, co in t[1]:
            m = co
            for a in mono:
                m *= ev(a, leaf)
            s += m
        return s
    if k in ('floordiv', 'mod'):
        a, b = ev(t[1], leaf), ev(t[2], leaf)
        return a // b if k == 'floordiv' else a % b
    if k == 'or' and len(t) == 3:
        return ev(t[1], leaf) | ev(t[2], leaf)
    if k == 'i':
        b = ev(t[1], leaf)
        if t[2][0] == 'slice':
            lo, hi = ev(t[2][1], leaf), ev(t[2][2], leaf)
            st = ev(t[2][3], leaf) if len(t[2]) > 3 else None
            return b[slice(lo, hi, st)]
        try:
            return b[ev(t[2], leaf)]
        except (IndexError, KeyError, TypeError):
            raise Unk(t)
    if k == 'call' and t[1][0] == 'b' and t[1][1] in FUN and not t[3]:
        try:
            return FUN[t[1][1]](*[ev(x, leaf) for x in t[2]])
        except (TypeError, ValueError):
            raise Unk(t)
    raise Unk(t)


def cases(paths, leaf, skip=()):
    """paths whose recorded conditions agree with the abstract values; conditions that cannot
    be folded are taken to hold"""
    out = []
    for p in paths:
        ok = True
        for e in p.ev:
            if e.kind != 'assume':
                continue
            try:
                v = bool(ev(e.a, leaf))
            except Unk:
                continue
            if v != e.b:
                ok = False
                break
        if ok:
            out.append(p)
    return out
