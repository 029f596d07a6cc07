"""C23: identifiers keep one byte order; equality, hashing and ordering agree."""
from ..prov import *
from ..model import AnalysisBroken

PERM = Machine.PERM
AUID_FIELDS = {'data1': (0, 4), 'data2': (4, 6), 'data3': (6, 8)}
MOB_INT = {'length': (12, 13), 'instanceHigh': (13, 14), 'instanceMid': (14, 15), 'instanceLow': (15, 16),
           'Data1': (16, 20), 'Data2': (20, 22), 'Data3': (22, 24)}
MOB_BYTES = {'SMPTELabel': (0, 12), 'Data4': (24, 32)}
SWAP = const_bytes(bytes(bytearray([6, 0x0e, 0x2b, 0x34, 0x7f, 0x7f])))
LABEL = bytes(bytearray([0x06, 0x0a, 0x2b, 0x34, 0x01, 0x01, 0x01, 0x05, 0x01, 0x01]))


def le_int(by, a, b):
    return mk(sum(by.v[a:b], ()))


def be_int(by):
    return mk(sum(by.v[::-1], ()))


def same(m, a, b):
    """structurally equal under what the path assumed"""
    def r(x):
        if isinstance(x, N):
            b = m.resb(x.b)
            if x.signed and not (isinstance(b[-1], int) and b[-1] == 0):
                while len(b) > 1 and b[-1] == b[-2]:
                    b = b[:-1]
                return ('N', b, True)
            return ('N', trim(b), False)
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return ('N', trim(tuple((x >> i) & 1 for i in range(max(x.bit_length(), 0)))), False) if x >= 0 else x
        if isinstance(x, By):
            return ('By', tuple(m.resb(y) if len(y) == 8 else ('enc', y[1], tuple(rc(q) for q in y[2])) for y in x.v))
        if isinstance(x, (T, str)):
            return ('T', tuple(rc(y) for y in chars(x)))
        if isinstance(x, (list, tuple)):
            return ('seq', tuple(r(y) for y in x))
        if isinstance(x, D):
            return ('D', tuple(sorted(((repr(r(k)), repr(r(v))) for k, v in x.p))))
        if isinstance(x, S):
            return ('S', tuple(sorted(repr(r(k)) for k in x.p)))
        if isinstance(x, Obj):
            return ('Obj', x.cls if isinstance(x.cls, str) else x.cls.name, tuple(sorted((k, repr(r(v))) for k, v in x.at.items())))
        return x

    def rc(y):
        if isinstance(y, str):
            return y
        if y[0] == 'hx':
            return digit(m.resb(y[1]))
        if y[0] == 'ch':
            return ('ch', m.resb(y[1]))
        return y
    return r(a) == r(b)


class Judge(object):
    """runs one obligation: every path of fn(m) must satisfy accept(m, value)"""
    def __init__(self, cx, rule, stubs=None):
        self.cx, self.rule = cx, rule
        self.m = Machine(cx.prog, stubs)

    def run(self, construct, where, fn, accept, msg, raises=None, skip=None):
        cx, m = self.cx, self.m
        n = [0]

        def go(mm):
            v = fn(mm)
            n[0] += 1
            if skip is not None and skip(mm):
                return ('ok', None)
            ok = accept(mm, v)
            if ok is None:
                raise Unk('result')
            return ('ok' if ok else 'bad', v)
        out = []
        try:
            ps = m.explore(go, unk=out)
        except Unk as e:
            cx.unk(self.rule, construct, 'outside the domain: %s' % e)
            return None
        except AnalysisBroken as e:
            cx.unk(self.rule, construct, str(e))
            return None
        except (IndexError, KeyError, AttributeError, TypeError, ValueError, RecursionError) as e:
            cx.unk(self.rule, construct, 'outside the domain: %s' % type(e).__name__)
            return None
        cx.npaths += len(ps)
        cx.funcs |= m.funcs
        unsure = None
        for p in ps:
            if p.exc == '?':
                continue
            if p.exc is not None:
                good = raises is not None and (raises is True or p.exc in raises)
                why = 'it fails with %s' % p.exc
            else:
                good = p.ret[0] == 'ok' and raises is None
                why = 'the result is %s' % (str(p.ret[1])[:220],)
                if raises is not None:
                    why = 'it is accepted'
            if good:
                continue
            if p.fuzzy:
                unsure = why
                continue
            given = ''
            if p.bind:
                given = ' (for an input where %s)' % ', '.join('%s bit %d is %s' % (k[0], k[1], v if isinstance(v, int) else '%s bit %d' % v) for k, v in sorted(p.bind.items(), key=repr)[:6])
            cx.bad(self.rule, construct, where, '%s: %s%s' % (msg, why, given))
            return False
        if out:
            cx.unk(self.rule, construct, 'outside the domain: %s' % out[0])
            return None
        if unsure:
            cx.unk(self.rule, construct, 'depends on a comparison the domain does not express: ' + unsure)
            return None
        cx.ok(self.rule, construct)
        return True


def where_of(prog, cls, name, kind='getters'):
    f = cls.find(kind, name) or cls.find('methods', name)
    return f.where if f is not None else '%s:%d' % (cls.module.rel, cls.node.lineno)


def auid(cx):
    prog = cx.prog
    A = prog.cls('AUID')
    J = Judge(cx, 'auid')
    le = sym_bytes('b', 16)

    def obj(name='b'):
        return Obj(A, {'bytes_le': sym_bytes(name, 16, True)})

    def stored(m, o):
        if not isinstance(o, Obj) or 'bytes_le' not in o.at:
            raise Unk('the identifier does not keep its bytes in bytes_le')
        return o.at['bytes_le']
    W = lambda n, k='getters': where_of(prog, A, n, k)
    init = W('__init__', 'methods')
    be = By([le.v[i] for i in PERM])

    def get(n, want, msg, construct=None):
        J.run(construct or 'AUID.%s' % n, W(n), lambda m: m.getattr(obj(), n), lambda m, v: same(m, v, want), msg)
    get('bytes_be', be, 'the big endian bytes do not hold the same value as the stored bytes')
    get('int', be_int(be), 'the integer is not the identifier read big endian')
    get('hex', Machine(prog).hex_text(be), 'the 32 digits are not those of the identifier in order')
    for n, (a, b) in AUID_FIELDS.items():
        if A.getter(n):
            get(n, le_int(le, a, b), 'the field is not bytes %d to %d little endian' % (a, b))
    if A.getter('data4'):
        get('data4', By(le.v[8:]), 'the field is not bytes 8 to 16')
    if A.getter('uuid'):
        J.run('AUID.uuid', W('uuid'), lambda m: m.getattr(obj(), 'uuid'),
              lambda m, v: isinstance(v, Obj) and v.cls == 'uuid.UUID' and same(m, v.at['be'], be), 'the standard library UUID is not the same identifier')

    def viasetter(m):
        o = obj()
        m.setattr(o, 'bytes_be', sym_bytes('v', 16))
        return stored(m, o)
    v = sym_bytes('v', 16)
    if A.setter('bytes_be'):
        J.run('AUID.bytes_be:setter', W('bytes_be', 'setters'), viasetter, lambda m, r: same(m, r, By([v.v[i] for i in PERM])),
              'setting the big endian bytes stores another value than the getter gives back')

    def built(kw, args=()):
        return lambda m: stored(m, m.instantiate(A, [x(m) if callable(x) else x for x in args], dict((k, x(m) if callable(x) else x) for k, x in kw.items())))
    vb = By([v.v[i] for i in PERM])
    J.run('AUID(bytes_le=)', init, built({'bytes_le': lambda m: sym_bytes('v', 16)}), lambda m, r: same(m, r, v), 'the bytes given are not the bytes kept')

    def shared(m):
        x = sym_bytes('v', 16, True)
        return (stored(m, m.instantiate(A, [], {'bytes_le': x})), x)
    J.run('AUID(bytes_le=)-own-copy', init, shared, lambda m, r: r[0] is not r[1], 'the identifier shares the caller\'s buffer and changes with it')
    J.run('AUID(bytes_be=)', init, built({'bytes_be': lambda m: sym_bytes('v', 16)}), lambda m, r: same(m, r, vb), 'big endian bytes are stored in another order')
    J.run('AUID(int=)', init, built({'int': lambda m: sym_int('n', 128)}),
          lambda m, r: same(m, be_int(By([r.v[i] for i in PERM])), sym_int('n', 128)), 'the identifier built from an integer has another integer value')
    J.run('AUID(int=0)', init, built({'int': 0}), lambda m, r: same(m, r, By([(0,) * 8] * 16)), 'the integer 0 does not give the null identifier')
    J.run('AUID(UUID)', init, built({}, (lambda m: Obj('uuid.UUID', {'be': sym_bytes('v', 16)}),)), lambda m, r: same(m, r, vb), 'built from a UUID it holds another value')
    J.run('AUID(AUID)', init, built({}, (lambda m: obj('v'),)), lambda m, r: same(m, r, v), 'built from another AUID it holds another value')

    def sharing(m):
        o = obj('v')
        return (stored(m, m.instantiate(A, [o], {})), o.at['bytes_le'])
    J.run('AUID(AUID)-own-copy', init, sharing, lambda m, r: r[0] is not r[1], 'the copy shares its bytes with the original')
    hx = sym_hex('h', 32)
    ds = [x[1] for x in hx.v]
    hb = By([ds[i + 1] + ds[i] for i in range(0, 32, 2)])
    want = By([hb.v[i] for i in PERM])
    h = list(hx.v)
    dashed = h[:8] + ['-'] + h[8:12] + ['-'] + h[12:16] + ['-'] + h[16:20] + ['-'] + h[20:]
    for nm, cs in (('32 digits', h), ('dashed', dashed), ('{dashed}', ['{'] + dashed + ['}']), ('urn:uuid:', list('urn:uuid:') + dashed)):
        J.run('AUID(%s)' % nm, init, built({}, (text(cs),)), lambda m, r: same(m, r, want), 'the identifier built from text holds other bytes than the text says')
    J.run('AUID(31 digits)', init, built({}, (text(h[:31]),)), lambda m, r: False, 'text of the wrong length is not refused', raises=True)
    J.run('AUID(30 digits)', init, built({}, (text(h[:30]),)), lambda m, r: False, 'text of the wrong length is not refused', raises=True)
    J.run('AUID(33 digits)', init, built({}, (text(h + ['0']),)), lambda m, r: False, 'text of the wrong length is not refused', raises=True)
    J.run('AUID()', init, built({}), lambda m, r: False, 'an identifier can be built from nothing', raises=True)
    J.run('str(AUID)', W('__repr__', 'methods'), lambda m: m.to_str(obj()),
          lambda m, r: same(m, r, m.to_str(Obj('uuid.UUID', {'be': be}))), 'the text form is not that of the identifier')
    J.run('AUID(str(AUID))', init, lambda m: stored(m, m.instantiate(A, [m.to_str(obj())], {})), lambda m, r: same(m, r, le), 'reading its own text form gives another identifier')
    compare(cx, J, A, obj, 16, W)
    # a standard library UUID that equals the identifier must find it in a table
    ef = A.method('__eq__')
    if ef is not None:
        def eqh(m):
            u = Obj('uuid.UUID', {'be': be})
            r = m.call_func(ef, [obj(), u], {})
            t = False if isinstance(r, NI) else m.truth(r)
            return (t, m.builtin('hash', [obj()], {}), m.builtin('hash', [u], {}))

        def acc(m, r):
            return not r[0] or isinstance(r[1], H) and hsame(m, r[1], r[2])
        J.run('AUID.__hash__-of-equal-UUID', W('__hash__', 'methods'), eqh, acc, 'an AUID equals the UUID of the same value but has another hash, so a table keyed by one does not find the other')


def hsame(m, a, b):
    """hash values of the same kind of the same value"""
    if not isinstance(b, H):
        return None
    x, y = a.v, b.v
    kind = lambda z: 'int' if isinstance(z, (int, N)) else 'bytes' if isinstance(z, By) else 'other'
    if 'other' in (kind(x), kind(y)):
        return None if kind(x) == kind(y) else False
    return kind(x) == kind(y) and same(m, x, y)


def compare(cx, J, C, obj, size, W):
    """equality, hash and ordering of identifiers"""
    nm = C.name
    ef, hf = C.method('__eq__'), C.method('__hash__')
    if ef is None:
        cx.bad('equality', '%s.__eq__' % nm, '%s:%d' % (C.module.rel, C.node.lineno), 'identifiers are compared by object identity, not by value')
        return
    we = W('__eq__', 'methods')
    if hf is None or not any('__hash__' in c.methods for c in C.mro()[:C.mro().index(ef.cls) + 1]):
        cx.bad('hash', '%s.__hash__' % nm, we, 'a class that defines __eq__ without __hash__ is unhashable')
        return

    def t(m, r):
        if isinstance(r, NI):
            return False
        return m.truth(r)
    J.run('%s.__eq__-equal' % nm, we, lambda m: t(m, m.call_func(ef, [obj('a'), obj('a')], {})), lambda m, r: r is True, 'two identifiers with the same bytes are not equal')

    def diff(m):
        a, b = obj('a'), obj('b')
        return (t(m, m.call_func(ef, [a, b], {})), a, b)
    J.run('%s.__eq__-different' % nm, we, diff, lambda m, r: (not r[0]) or same(m, r[1].at['bytes_le'], r[2].at['bytes_le']), 'two identifiers with different bytes are equal')
    nf = C.method('__ne__')
    if nf is not None:
        J.run('%s.__ne__' % nm, W('__ne__', 'methods'), lambda m: t(m, m.call_func(nf, [obj('a'), obj('a')], {})), lambda m, r: r is False, 'identifiers with the same bytes are called different')

        def ndiff(m):
            a, b = obj('a'), obj('b')
            return (t(m, m.call_func(nf, [a, b], {})), a, b)
        J.run('%s.__ne__-different' % nm, W('__ne__', 'methods'), ndiff, lambda m, r: r[0] or same(m, r[1].at['bytes_le'], r[2].at['bytes_le']), 'identifiers with different bytes are not called different')
    hw = W('__hash__', 'methods')

    def hh(m):
        return (m.call_func(hf, [obj('a')], {}), m.call_func(hf, [obj('a')], {}))
    J.run('%s.__hash__' % nm, hw, hh, lambda m, r: hsame(m, r[0], r[1]) if isinstance(r[0], H) else (True if isinstance(r[0], int) else None), 'identifiers with the same bytes have different hashes')
    keys = {}
    for n, op in (('__lt__', '<'), ('__le__', '<='), ('__gt__', '>'), ('__ge__', '>=')):
        f = C.method(n)
        if f is None:
            continue

        def acc(m, r, op=op, n=n):
            if not isinstance(r, Cmp):
                return None
            o, x, y = r.op, r.a, r.b
            if r.neg:
                o = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}.get(o)
            who = lambda z: set(q[0] for q in (sum(z.v, ()) if isinstance(z, By) else z.b if isinstance(z, N) else ()) if isinstance(q, tuple))
            if o not in ('<', '<=', '>', '>=') or len(who(x)) != 1 or len(who(y)) != 1:
                return None
            if who(x) == {'b'} and who(y) == {'a'}:
                o, x, y = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o], y, x
            if who(x) != {'a'} or who(y) != {'b'}:
                return False
            seq = lambda z: [q[1] if isinstance(q, tuple) else q for q in (sum(z.v[::-1], ()) if isinstance(z, By) else z.b)]
            if o != op or seq(x) != seq(y) or sorted(map(str, seq(x))) != sorted(str(i) for i in range(8 * size)):
                return False
            keys.setdefault(tuple(seq(x)), n)
            return True
        J.run('%s.%s' % (nm, n), W(n, 'methods'), lambda m, f=f: m.call_func(f, [obj('a'), obj('b')], {}), acc,
              'the ordering does not compare the two identifiers by one and the same order of their bytes with this operator')
    if len(keys) > 1:
        cx.bad('%s-order' % nm, nm, W('__lt__', 'methods'), 'the ordering operators order by different keys (%s)' % ', '.join(sorted(keys.values())))


def mobid(cx):
    prog = cx.prog
    C = prog.cls('MobID')
    J = Judge(cx, 'mobid')
    le = sym_bytes('b', 32)
    W = lambda n, k='getters': where_of(prog, C, n, k)
    init = W('__init__', 'methods')

    def obj(name='b'):
        return Obj(C, {'bytes_le': sym_bytes(name, 32, True)})

    def zero():
        return Obj(C, {'bytes_le': By([(0,) * 8] * 32, True)})

    def stored(o):
        if not isinstance(o, Obj) or 'bytes_le' not in o.at:
            raise Unk('the identifier does not keep its bytes in bytes_le')
        return o.at['bytes_le']

    def setf(n, val):
        def go(m):
            o = obj()
            m.setattr(o, n, val(m))
            return stored(o)
        return go
    for n, (a, b) in sorted(MOB_INT.items()):
        J.run('MobID.%s' % n, W(n), lambda m, n=n: m.getattr(obj(), n), lambda m, v, a=a, b=b: same(m, v, le_int(le, a, b)), 'the field is not bytes %d to %d little endian' % (a, b))
        val = sym_int('v', 8 * (b - a))
        want = By(le.v[:a] + [atom_bits('v', 8 * i, 8) for i in range(b - a)] + le.v[b:])
        J.run('MobID.%s:setter' % n, W(n, 'setters'), setf(n, lambda m, val=val: val), lambda m, v, want=want: same(m, v, want), 'setting the field does not change bytes %d to %d, and only them' % (a, b))
    for n, (a, b) in sorted(MOB_BYTES.items()):
        J.run('MobID.%s' % n, W(n), lambda m, n=n: m.getattr(obj(), n), lambda m, v, a=a, b=b: same(m, By(m.to_bytes([v], False).v), By(le.v[a:b])), 'the field is not bytes %d to %d' % (a, b))
        for kind, val in (('bytes', lambda m, a=a, b=b: sym_bytes('v', b - a)), ('list', lambda m, a=a, b=b: [mk(x) for x in sym_bytes('v', b - a).v])):
            want = By(le.v[:a] + sym_bytes('v', b - a).v + le.v[b:])
            J.run('MobID.%s:setter-%s' % (n, kind), W(n, 'setters'), setf(n, val), lambda m, v, want=want: same(m, v, want), 'setting the field does not change bytes %d to %d, and only them' % (a, b))
    A = prog.cls('AUID')
    J.run('MobID.material', W('material'), lambda m: m.getattr(obj(), 'material'), lambda m, v: isinstance(v, Obj) and v.cls is A and same(m, v.at['bytes_le'], By(le.v[16:])) if isinstance(v, Obj) and v.cls is A else (None if isinstance(v, Obj) else False),
          'the material number is not bytes 16 to 32')
    for kind, val in (('AUID', lambda m: Obj(A, {'bytes_le': sym_bytes('v', 16, True)})), ('UUID', lambda m: Obj('uuid.UUID', {'be': By([sym_bytes('v', 16).v[i] for i in PERM])}))):
        J.run('MobID.material:setter-%s' % kind, W('material', 'setters'), setf('material', val), lambda m, v: same(m, v, By(le.v[:16] + sym_bytes('v', 16).v)), 'setting the material number does not set bytes 16 to 32, and only them')
    J.run('MobID.int', W('int'), lambda m: m.getattr(obj(), 'int'), lambda m, v: same(m, v, be_int(le)), 'the integer is not the 32 bytes read big endian')
    J.run('MobID.int:setter', W('int', 'setters'), setf('int', lambda m: sym_int('n', 256)), lambda m, v: same(m, be_int(v), sym_int('n', 256)) and len(v.v) == 32, 'the identifier set from an integer has another integer value')
    if C.method('__int__'):
        J.run('int(MobID)', W('__int__', 'methods'), lambda m: m.call_func(C.method('__int__'), [obj()], {}), lambda m, v: same(m, v, be_int(le)), 'the integer is not the 32 bytes read big endian')

    def build(args, kw):
        return lambda m: m.instantiate(C, [x(m) for x in args], dict((k, x(m)) for k, x in kw.items()))
    J.run('MobID(bytes_le=)', init, lambda m: stored(build([], {'bytes_le': lambda m: sym_bytes('v', 32)})(m)), lambda m, v: same(m, v, sym_bytes('v', 32)), 'the bytes given are not the bytes kept')

    def shared(m):
        x = sym_bytes('v', 32, True)
        return (stored(m.instantiate(C, [], {'bytes_le': x})), x)
    J.run('MobID(bytes_le=)-own-copy', init, shared, lambda m, r: r[0] is not r[1], 'the identifier shares the caller\'s buffer: setting a field of one changes the other')
    J.run('MobID(int=)', init, lambda m: stored(build([], {'int': lambda m: sym_int('n', 256)})(m)), lambda m, v: same(m, be_int(v), sym_int('n', 256)) and len(v.v) == 32, 'the identifier built from an integer has another integer value')
    J.run('MobID()', init, lambda m: stored(build([], {})(m)), lambda m, v: same(m, v, By([(0,) * 8] * 32)), 'an identifier built from nothing is not the null identifier of 32 bytes')
    # text form
    hx = list(sym_hex('h', 64).v)
    dotted = []
    for i in range(8):
        dotted += (['.'] if i else []) + hx[8 * i:8 * i + 8]
    urn = text(list('urn:smpte:umid:') + dotted)
    gw, sw = W('urn'), W('urn', 'setters')
    ds = [x[1] for x in hx]
    tb = By([ds[i + 1] + ds[i] for i in range(0, 64, 2)])

    def parse(m, t):
        o = zero()
        m.setattr(o, 'urn', t)
        return o
    J.run('MobID.urn-label', sw, lambda m: stored(parse(m, urn)), lambda m, v: len(v.v) == 32 and same(m, By(v.v[:16]), By(tb.v[:16])), 'label, length and instance bytes are not those of the text')

    def flat(m, t):
        cs = chars(t)
        return text([x for x in cs if x != '.'])
    J.run('MobID.urn-text-id-text', gw, lambda m: m.getattr(parse(m, urn), 'urn'), lambda m, v: same(m, flat(m, v), flat(m, urn)), 'the text form of an identifier read from text is another text',
          # the same identifier has a second, half swapped text, which is the one given back
          skip=lambda m: same(m, By(tb.v[24:30]), SWAP) and m.resb(tb.v[11]) == (0,) * 8)

    def mat(m, v):
        """the two documented layouts of the material number"""
        straight = By([tb.v[16 + i] for i in PERM])
        swapped = By([tb.v[24 + i] for i in PERM[:8]] + tb.v[16:24])
        mid = By(v.v[16:])
        special = all(isinstance(q, int) for x in tb.v[16:22] for q in m.resb(x)) and same(m, By(tb.v[16:22]), SWAP) and m.resb(tb.v[11]) == (0,) * 8
        return same(m, mid, swapped if special else straight)
    J.run('MobID.urn-material', sw, lambda m: stored(parse(m, urn)), mat, 'the material number is not that of the text (its fields little endian; the swapped layout only for labels ending in 0 with 060e2b347f7f)')

    def there(m):
        o = obj()
        return stored(parse(m, m.getattr(o, 'urn')))
    amb = const_bytes(bytes(bytearray([0x34, 0x2b, 0x0e, 0x06, 0x7f, 0x7f])))

    def skip(m):
        # the text of these identifiers is also the text of a half swapped one
        return all(isinstance(q, int) for x in le.v[16:22] for q in m.resb(x)) and same(m, By(le.v[16:22]), amb) and m.resb(le.v[11]) == (0,) * 8
    J.run('MobID.urn-id-text-id', sw, there, lambda m, v: same(m, v, le), 'reading the text form of an identifier gives another identifier', skip=skip)
    J.run('MobID(text)', init, lambda m: (stored(build([lambda m: urn], {})(m)), stored(parse(m, urn))), lambda m, v: same(m, v[0], v[1]), 'the constructor reads the text differently than the urn attribute')
    if C.method('__repr__') or C.method('__str__'):
        J.run('str(MobID)', W('__repr__', 'methods'), lambda m: (m.to_str(obj()), m.getattr(obj(), 'urn')), lambda m, v: same(m, v[0], v[1]), 'the printed form is not the text form')
    J.run('MobID(short text)', sw, lambda m: parse(m, text(hx[:62])), lambda m, v: False, 'text of the wrong length is not refused', raises=True)
    # dictionary form
    if C.method('to_dict') and C.method('from_dict'):
        def dic(m):
            d = m.call_func(C.method('to_dict'), [obj()], {})
            o = Obj(C, {'bytes_le': sym_bytes('junk', 32, True)})
            m.call_func(C.method('from_dict'), [o, d], {})
            return stored(o)
        J.run('MobID.to_dict-from_dict', W('from_dict', 'methods'), dic, lambda m, v: same(m, v, le), 'the dictionary form does not give back the identifier')

        def names(m):
            d = m.call_func(C.method('to_dict'), [obj()], {})
            out = []
            for n in ('length', 'instanceHigh', 'instanceMid', 'instanceLow'):
                out.append(m.index(d, n))
            mt = m.index(d, 'material')
            for n in ('Data1', 'Data2', 'Data3'):
                out.append(m.index(mt, n))
            return out
        wantf = [le_int(le, *MOB_INT[n]) for n in ('length', 'instanceHigh', 'instanceMid', 'instanceLow', 'Data1', 'Data2', 'Data3')]
        J.run('MobID.to_dict', W('to_dict', 'methods'), names, lambda m, v: same(m, v, wantf), 'a key of the dictionary form does not hold the field it names')
    compare(cx, J, C, obj, 32, W)
    # new identifiers
    f = prog.maybe_func('mobid.UniqueMobID')
    if f is not None:
        def two(m):
            return (stored(m.call_func(f, [], {})), stored(m.call_func(f, [], {})))

        def acc(m, r):
            a, b = r
            if len(a.v) != 32 or not same(m, By(a.v[:10]), const_bytes(LABEL)) or not same(m, By(a.v[12:13]), const_bytes(b'\x13')):
                return False
            return all(isinstance(q, tuple) for x in a.v[16:] for q in x) and not same(m, a, b)
        J.run('UniqueMobID', f.where, two, acc, 'a new mob id is not a basic UMID (label, length 13h) with a fresh random material number')
    nf = C.method('new')
    if nf is not None and f is not None:
        J.run('MobID.new', W('new', 'methods'), lambda m: stored(m.call_func(nf, [], {})), lambda m, a: len(a.v) == 32 and same(m, By(a.v[:10]), const_bytes(LABEL)) and any(isinstance(q, tuple) and q[0].startswith('fresh') for x in a.v for q in x),
              'a new mob id is not a basic UMID with a fresh random material number')


def helpers(cx):
    """conversions of identifiers and integers outside the two classes"""
    prog = cx.prog
    A = prog.cls('AUID')
    J = Judge(cx, 'conversion')

    def f(q):
        return prog.maybe_func(q)
    for q, order in (('utils.int_from_bytes', None), ('utils.bytes_from_int', None)):
        g = f(q)
        if g is None:
            continue
        for o in ('big', 'little'):
            if q.endswith('int_from_bytes'):
                b = sym_bytes('b', 5)
                J.run('%s-%s' % (q, o), g.where, lambda m, g=g, o=o: m.call_func(g, [sym_bytes('b', 5)], {'byte_order': o}),
                      lambda m, v, o=o, b=b: same(m, v, mk(sum(b.v if o == 'little' else b.v[::-1], ()))), 'the bytes are not read in %s endian order' % o)
            else:
                n = sym_int('n', 40)
                w = [n.b[i:i + 8] for i in range(0, 40, 8)]
                J.run('%s-%s' % (q, o), g.where, lambda m, g=g, o=o, n=n: m.call_func(g, [n, 5], {'byte_order': o}),
                      lambda m, v, o=o, w=w: same(m, v, By(w if o == 'little' else w[::-1])), 'the integer is not written in %s endian order' % o)
    g = f('utils.str2auid')
    if g is not None:
        h = list(sym_hex('h', 32).v)
        dashed = h[:8] + ['-'] + h[8:12] + ['-'] + h[12:16] + ['-'] + h[16:20] + ['-'] + h[20:]
        ds = [x[1] for x in h]
        hb = By([ds[i + 1] + ds[i] for i in range(0, 32, 2)])
        want = By([hb.v[i] for i in PERM])
        w = g.where
        J.run('utils.str2auid-text', w, lambda m: m.call_func(g, [text(dashed)], {}), lambda m, v: isinstance(v, Obj) and v.cls is A and same(m, v.at['bytes_le'], want), 'text of an identifier is not turned into that identifier')
        J.run('utils.str2auid-name', w, lambda m: m.call_func(g, ['Picture'], {}), lambda m, v: v == 'Picture', 'a name is not left alone')
        J.run('utils.str2auid-long-name', w, lambda m: m.call_func(g, ['AVeryLongDefinitionNameWithoutAnyDigitsInIt'], {}), lambda m, v: v == 'AVeryLongDefinitionNameWithoutAnyDigitsInIt', 'a long name is not left alone')
        J.run('utils.str2auid-auid', w, lambda m: m.call_func(g, [Obj(A, {'bytes_le': sym_bytes('b', 16, True)})], {}), lambda m, v: isinstance(v, Obj) and v.cls is A and same(m, v.at['bytes_le'], sym_bytes('b', 16)), 'an identifier is not left alone')
    e, d = f('utils.encode_auid_array'), f('types.iter_auid_array')
    if e is not None:
        def enc(m):
            return m.call_func(e, [[Obj(A, {'bytes_le': sym_bytes('x', 16, True)}), Obj('uuid.UUID', {'be': By([sym_bytes('y', 16).v[i] for i in PERM])})]], {})
        J.run('utils.encode_auid_array', e.where, enc, lambda m, v: same(m, By(v.v), By(sym_bytes('x', 16).v + sym_bytes('y', 16).v)), 'the array is not the stored bytes of each identifier one after another')
    if d is not None:
        def dec(m):
            return [x.at['bytes_le'] for x in m.iterate(m.call_func(d, [sym_bytes('z', 48)], {}))]
        J.run('types.iter_auid_array', d.where, dec, lambda m, v: len(v) == 3 and same(m, By(v[0].v + v[1].v + v[2].v), sym_bytes('z', 48)), 'the identifiers read are not the 16 byte groups of the data')


def C23(cx):
    auid(cx)
    mobid(cx)
    helpers(cx)
    cx.need('identifier conversions decided', len([r for r in cx.done if r[0] in ('auid', 'mobid', 'conversion')]), 40)
