"""Sequences of fields that a function reads from or writes to a byte stream."""
from .util import *
from .layout import *
from .cfb_header import packed, fields, flat_concat, UTW


class Tok(object):
    """one field: width (int, or a term), value/data term, inside a loop?"""
    def __init__(self, width, v, ev, loop=None, order='<'):
        self.width, self.v, self.ev, self.loop, self.order = width, v, ev, loop, order

    def __repr__(self):
        return '%s%s:%s' % ('*' if self.loop else '', self.width if isinstance(self.width, int) else show(self.width)[:30], show(self.v)[:60])


def order_of(fmt):
    o = fmt[:1]
    return {'>': '>', '!': '>'}.get(o, '<')


def width_of(t):
    """width of a data term: int, a term, or None"""
    t = strip_bytes(t)
    if is_c(t) and isinstance(cval(t), (bytes, str)):
        return len(cval(t))
    pk = packed(t)
    if pk and pk[0] not in (None, '?'):
        return fsize(pk[0])
    return None


def writes(p, skip=()):
    """[Tok] in order; whole-buffer copies are left out"""
    out = []
    loops = []
    for e in p.ev:
        if e.kind == 'iter':
            loops.append([e.a, False])
        elif e.kind == 'loop' and loops:
            loops[-1][1] = True
        elif e.kind == 'loopexit' and loops:
            loops.pop()
        d = None
        if e.kind == 'call' and e.name == 'write' and e.args and e.recv is not None:
            d = e.args[0]
        elif e.kind == 'call' and e.name == 'extend' and e.args and e.recv is not None and (packed(e.args[0]) or e.args[0][0] == 'a' and e.args[0][2] == 'bytes_le'):
            d = e.args[0]
        if d is None:
            continue
        for x in flat_concat(d):
            if x[0] == 'call' and x[1][0] == 'a' and x[1][2] in ('getvalue', 'getbuffer') or x[0] == 'call' and x[1][0] == 'b':
                if x[0] == 'call' and x[1][0] == 'b' and x[1][1] in ('bytes', 'bytearray'):
                    pass
                else:
                    continue
            pk = packed(x)
            lp = loops[-1][0] if loops and loops[-1][1] else None
            if pk and pk[0] not in (None, '?') and not any(a[0] == 'star' for a in pk[1]):
                fl = fields(pk[0])
                vals = list(pk[1])
                if fl is not None and len(fl) <= 32:
                    for w, rep in fl:
                        out.append(Tok(w, vals.pop(0) if rep and vals else NONE, e, lp, order_of(pk[0])))
                    continue
            out.append(Tok(width_of(x), x, e, lp))
    return out


# -- formats built at run time ------------------------------------------------------------------

def fmt_parts(t):
    """symbolic struct format -> [(code or ('s', size term), repeat term or None)] / None"""
    if t[0] == 'call' and t[1] == ('b', 'str') and len(t[2]) == 1:
        return fmt_parts(t[2][0])
    if is_c(t):
        v = cval(t)
        v = v.decode('ascii', 'replace') if isinstance(v, bytes) else v
        if not isinstance(v, str):
            return None
        import re
        out = []
        for n, ch in re.findall(r'(\d*)([a-zA-Z?])', v):
            if ch == 's':
                out.append((('s', c(int(n or 1))), None))
            else:
                out.append((ch, c(int(n)) if n else None))
        return out
    if t[0] == 'bin' and t[1] == '+':
        a, b = fmt_parts(t[2]), fmt_parts(t[3])
        return None if a is None or b is None else a + b
    if t[0] == 'bin' and t[1] == '*':
        for x, n in ((t[2], t[3]), (t[3], t[2])):
            a = fmt_parts(x)
            if a:
                return [('rep', a, n)]
        return None
    if t[0] == 'bin' and t[1] == '%' and is_c(t[2]) and isinstance(cval(t[2]), str):
        v, arg = cval(t[2]), t[3]
        args = list(arg[1]) if arg[0] == 'tuple' else [arg]
        import re
        out = []
        for n, ch in re.findall(r'(%d|%s|%i|\d*)([a-zA-Z?])', v):
            if n.startswith('%'):
                if not args:
                    return None
                a = args.pop(0)
                out.append((('s', a), None) if ch == 's' else (ch, a))
            elif ch == 's':
                out.append((('s', c(int(n or 1))), None))
            else:
                out.append((ch, c(int(n)) if n else None))
        return out
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'join' and t[1][1] in (c(''), c(b'')) and t[2] and t[2][0][0] in ('list', 'tuple'):
        out = []
        for x in t[2][0][1]:
            a = fmt_parts(x)
            if a is None:
                return None
            out += a
        return out
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'format' and is_c(t[1][1]):
        import re
        v = cval(t[1][1])
        args = list(t[2])
        out = []
        for n, ch in re.findall(r'(\{\d*\}|\d*)([a-zA-Z?])', v):
            if n.startswith('{'):
                if not args:
                    return None
                a = args.pop(0)
                out.append((('s', a), None) if ch == 's' else (ch, a))
            else:
                out.append((ch, c(int(n)) if n else None))
        return out
    if t[0] == 'fstr' or t[0] == 'joined':
        return None
    return None


def fmt_order(t):
    """leading byte order of a symbolic format"""
    while True:
        if t[0] == 'call' and t[1] == ('b', 'str') and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'bin':
            t = t[2]
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'join' and t[2] and t[2][0][0] in ('list', 'tuple') and t[2][0][1]:
            t = t[2][0][1][0]
        elif is_c(t):
            v = cval(t)
            v = v.decode('ascii', 'replace') if isinstance(v, bytes) else v
            return v[:1] if isinstance(v, str) else ''
        else:
            return ''


SZ = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}


def all_terms(p):
    for e in p.ev:
        for x in (e.a, e.b, e.v):
            if isinstance(x, tuple):
                yield x
        for x in e.args or ():
            if isinstance(x, tuple):
                yield x


def unpacks(p):
    """{read term: (unpack term, fmt term)}"""
    out = {}
    for t in all_terms(p):
        for s in subterms(t):
            if s[0] == 'call':
                if s[1] == ('ext', 'struct.unpack') and len(s[2]) == 2:
                    out[strip_bytes(s[2][1])] = (s, s[2][0])
                elif s[1][0] == 'a' and s[1][2] == 'unpack' and s[1][1][0] == 'call' and s[1][1][1] == ('ext', 'struct.Struct') and s[2]:
                    out[strip_bytes(s[2][0])] = (s, s[1][1][2][0])
    return out


def arrays(p):
    """{read term: (array term, typecode)} from array.frombytes/fromstring"""
    out = {}
    for e in p.ev:
        if e.kind == 'call' and e.name in ('frombytes', 'fromstring') and e.args and e.recv is not None:
            r = e.recv
            code = None
            for s in subterms(r):
                if s[0] == 'call' and s[1] == ('ext', 'array.array') and s[2]:
                    code = fmt_of(s[2][0])
            if code:
                out[strip_bytes(e.args[0])] = (r, code)
    return out


def reads(p):
    """[Tok] in order; v is the value term of the field"""
    up, ar = unpacks(p), arrays(p)
    out = []
    loops = []
    for e in p.ev:
        if e.kind in ('iter', 'compiter'):
            loops.append([e.a, e.kind == 'compiter'])
        elif e.kind == 'loop' and loops:
            loops[-1][1] = True
        elif e.kind in ('loopexit', 'compend') and loops:
            loops.pop()
        if not (e.kind == 'call' and e.name == 'read' and e.recv is not None):
            continue
        r = e.v
        if contains_ctx(p, r):
            continue            # the whole stream is read into a buffer
        lp = loops[-1][0] if loops and loops[-1][1] else None
        if r in up:
            t, f = up[r]
            parts = fmt_parts(f)
            o = '>' if fmt_order(f) in ('>', '!') else '<'
            if parts is None:
                out.append(Tok(None, r, e, lp, o))
                continue
            k = 0
            for x in parts:
                if x[0] == 'rep':
                    for y in x[1]:
                        w = y[0][1] if isinstance(y[0], tuple) else SZ.get(y[0])
                        out.append(Tok(int_of(w) if isinstance(w, tuple) and int_of(w) is not None else w, ('bulk', t, len(x[1]), k), e, ('bulk', x[2]), o))
                        k += 1
                elif x[1] is not None and int_of(x[1]) is None:
                    out.append(Tok(SZ.get(x[0]), ('bulk', t, 1, k), e, ('bulk', x[1]), o))
                    k += 1
                else:
                    w = x[0][1] if isinstance(x[0], tuple) else SZ.get(x[0])
                    if isinstance(w, tuple) and int_of(w) is not None:
                        w = int_of(w)
                    for _ in range(int_of(x[1]) if x[1] is not None else 1):
                        out.append(Tok(w, ('i', t, c(k)), e, lp, o))
                        k += 1
            continue
        if r in ar:
            a, code = ar[r]
            out.append(Tok(SZ.get(code), ('bulk', a, 1, 0), e, ('bulk', e.args[0] if e.args else NONE), '<'))
            continue
        w = norm(e.args[0]) if e.args else None
        if w is not None and int_of(w) is not None:
            w = int_of(w)
        out.append(Tok(w, r, e, lp))
    return out


def contains_ctx(p, r):
    """the read's result becomes a buffer that is read in turn"""
    for e in p.ev:
        if e.kind == 'call' and e.name.split('.')[-1] == 'BytesIO' and e.args and strip_bytes(e.args[0]) == r:
            return True
    return False


def field_name(p, tok, me):
    """what a read field becomes: attribute of me, 'count', or None"""
    v = tok.v
    nv = norm(v)
    def has(t):
        return contains(t, lambda s: s == v) or contains(norm(t), lambda s: s == nv)
    for e in p.ev:
        if e.kind == 'set' and e.a == me and isinstance(e.v, tuple) and e.v[0] != 'c':
            if e.v == v or norm(e.v) == nv:
                return e.b
    for e in p.ev:
        if e.kind == 'set' and e.a == me and e.v[0] in ('call', 'new') and has(e.v) and not (e.v[0] == 'call' and e.v[1] == ('b', 'list')):
            return e.b
        if e.kind in ('set',) and e.a == me and e.v[0] == 'new':
            for x in p.ev:
                if x.kind == 'new' and x.v == e.v and any(has(a) for a in list(x.args) + [b for _, b in (x.kw or ())]):
                    return e.b
    for e in p.ev:
        if e.kind in ('iter', 'compiter') and e.a[0] == 'call' and e.a[1] == ('b', 'range') and has(e.a):
            return 'count'
    for t in all_terms(p):
        for s in subterms(t):
            if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'read' and s[2] and has(s[2][0]):
                return 'count'
            if s[0] == 'bin' and s[1] in ('%', '*') and has(s[3] if s[1] == '%' else s) and fmt_parts(s) is not None:
                return 'count'
    return None


def value_name(t, me, elems=()):
    """what a written field holds"""
    if t[0] == 'a' and t[1] == me:
        return t[2]
    if t[0] == 'call' and t[1] == ('b', 'len') and len(t[2]) == 1:
        return 'count'
    return None
