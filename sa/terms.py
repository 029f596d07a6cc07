"""Terms (hashable tuples) and their normal forms."""


def c(v):
    return ('c', type(v).__name__, v)


def is_c(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'c'


def cval(t):
    return t[2]


NONE = c(None)
TRUE = c(True)
FALSE = c(False)


def attr_path(t):
    """('a',('a',('p','self'),'x'),'y') -> 'self.x.y' (None when not a pure path)"""
    if t[0] == 'p':
        return t[1]
    if t[0] == 'a':
        b = attr_path(t[1])
        return None if b is None else b + '.' + t[2]
    if t[0] == 'g':
        return t[1]
    return None


def subterms(t):
    yield t
    if isinstance(t, tuple):
        if t and t[0] == 'c':
            return
        for x in t[1:]:
            if isinstance(x, tuple):
                for s in subterms_any(x):
                    yield s


def subterms_any(x):
    if x and isinstance(x[0], str):
        for s in subterms(x):
            yield s
    else:
        for y in x:
            if isinstance(y, tuple):
                for s in subterms_any(y):
                    yield s


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def show(t):
    """Readable rendering for reports."""
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k in ('p', 'b'):
        return t[1]
    if k in ('g', 'ext', 'mod'):
        return str(t[1])
    if k == 'a':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'i':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'slice':
        return ':'.join('' if x == NONE else show(x) for x in t[1:3])
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'un':
        return '%s(%s)' % (t[1], show(t[2]))
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join([show(x) for x in t[2]] + ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k == 'elem':
        return 'each(%s)' % show(t[1])
    if k == 'idx':
        return 'index-in(%s)' % show(t[1])
    if k == 'new':
        return '%s(...)' % t[1]
    if k in ('tuple', 'list', 'set'):
        return '[%s]' % ', '.join(show(x) for x in t[1])
    if k == 'poly':
        return ' + '.join('%s*%s' % (co, '*'.join(show(a) for a in mono) or '1') for mono, co in t[1]) or '0'
    if k in ('floordiv', 'mod'):
        return '(%s %s %s)' % (show(t[1]), '//' if k == 'floordiv' else '%', show(t[2]))
    return '<%s>' % (k,) if len(t) < 2 else '<%s %s>' % (k, ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:] if not (isinstance(x, tuple) and x and not isinstance(x[0], str))))


# -- polynomial normal form -------------------------------------------------

def _add(a, b, k=1):
    r = dict(a)
    for m, co in b.items():
        r[m] = r.get(m, 0) + k * co
        if r[m] == 0:
            del r[m]
    return r


def _mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def poly(t):
    """Polynomial over atoms: {monomial(tuple of atoms): int coefficient}."""
    k = t[0]
    if k == 'c' and isinstance(t[2], bool):
        return {(): int(t[2])} if t[2] else {}
    if k == 'c' and isinstance(t[2], int):
        return {(): t[2]} if t[2] else {}
    if k == 'poly':
        return dict(t[1])
    if k == 'bin':
        op = t[1]
        if op in ('+', '-'):
            return _add(poly(t[2]), poly(t[3]), 1 if op == '+' else -1)
        if op == '*':
            return _mul(poly(t[2]), poly(t[3]))
        if op == '<<' and is_c(t[3]) and isinstance(cval(t[3]), int):
            return _mul(poly(t[2]), {(): 2 ** cval(t[3])})
        if op in ('//', '%'):
            a, b = norm(t[2]), norm(t[3])
            # (k*q) // q , (k*q) % q
            pa, pb = poly(a), poly(b)
            if pa == {}:
                return {}
            if len(pb) == 1:
                (bm, bc), = pb.items()
                q, r = {}, {}
                ok = True
                for m, co in pa.items():
                    mm = list(m)
                    good = co % bc == 0
                    for at in bm:
                        if at in mm:
                            mm.remove(at)
                        else:
                            good = False
                            break
                    if good:
                        q[tuple(mm)] = co // bc
                    else:
                        r[m] = co
                if not r:
                    return q if op == '//' else {}
                if q and bm:
                    # (q*b + r) // b = q + r//b ;  % drops q
                    ra = from_poly(r)
                    if op == '//':
                        return _add(q, {(('floordiv', ra, b),): 1})
                    return {(('mod', ra, b),): 1}
            if pa and pb and all(m == () for m in pa) and all(m == () for m in pb):
                x, y = pa.get((), 0), pb.get((), 0)
                v = x // y if op == '//' else x % y
                return {(): v} if v else {}
            return {(('floordiv' if op == '//' else 'mod', a, b),): 1}
        if op == '>>' and is_c(t[3]) and isinstance(cval(t[3]), int):
            return {(('floordiv', norm(t[2]), c(2 ** cval(t[3]))),): 1}
        if op == '|':
            # bytes assembled with disjoint shifts: treated as sum (see rules using it)
            return {(('or', norm(t[2]), norm(t[3])),): 1}
        return {(('bin', op, norm(t[2]), norm(t[3])),): 1}
    if k == 'un' and t[1] == '-':
        return _mul(poly(t[2]), {(): -1})
    if k == 'un' and t[1] == '+':
        return poly(t[2])
    if k == 'i' and is_c(t[2]) and t[1][0] == 'call' and t[1][1] == ('b', 'divmod') and len(t[1][2]) == 2:
        return poly(('bin', '//' if cval(t[2]) == 0 else '%', t[1][2][0], t[1][2][1]))
    if k == 'call' and t[1] == ('b', 'int') and len(t[2]) == 1:
        inner = t[2][0]
        if inner[0] == 'bin' and inner[1] == '/':
            return {(('floordiv', norm(inner[2]), norm(inner[3])),): 1}
        return poly(inner)
    if k in ('floordiv', 'mod'):
        return poly(('bin', '//' if k == 'floordiv' else '%', t[1], t[2]))
    return {(norm(t),): 1}


def from_poly(p):
    if not p:
        return c(0)
    if len(p) == 1:
        (m, co), = p.items()
        if m == ():
            return c(co)
        if co == 1 and len(m) == 1:
            return m[0]
    return ('poly', tuple(sorted(p.items(), key=repr)))


ARITH = ('+', '-', '*', '//', '%', '<<', '>>')


def norm(t):
    """Canonical form: integer arithmetic is put in polynomial form, everything else is
    rebuilt from canonical parts."""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if not isinstance(k, str):
        return tuple(norm(x) for x in t)
    if k in ('c', 'p', 'b', 'g', 'ext', 'mod', 'poly', 'floordiv'):
        return t
    if k == 'bin' and t[1] in ARITH:
        if any(is_c(x) and isinstance(cval(x), (str, bytes, tuple)) for x in t[2:4]):
            return ('bin', t[1], norm(t[2]), norm(t[3]))
        return from_poly(poly(t))
    if k == 'un' and t[1] in '+-':
        return from_poly(poly(t))
    if k == 'i' and is_c(t[2]) and t[1][0] == 'call' and t[1][1] == ('b', 'divmod'):
        return from_poly(poly(t))
    if k == 'call' and t[1] == ('b', 'int') and len(t[2]) == 1:
        return from_poly(poly(t))
    if k == 'call' and t[1] in (('b', 'min'), ('b', 'max')):
        return ('call', t[1], tuple(sorted((norm(x) for x in t[2]), key=repr)), t[3], t[4])
    out = [k]
    for x in t[1:]:
        out.append(norm(x) if isinstance(x, tuple) else x)
    return tuple(out)


def equal(a, b):
    return norm(a) == norm(b)
