"""C26: values decode to what was encoded, at the width and in the byte order of their type.

Type definitions are built from their stored properties alone (no file, no model data); their
encode and decode are then followed over inputs of named bits."""
from ..prov import *
from ..model import AnalysisBroken
from .ident import Judge, same, PERM, le_int
import uuid as _uuid

PID_AUID, PID_NAME = 0x0005, 0x0006
BOOLEAN = '01040100-0000-0000-060e-2b3401040101'
CHARACTER = '01100100-0000-0000-060e-2b3401040101'
STRING = '01100200-0000-0000-060e-2b3401040101'
RATIONAL = '03010100-0000-0000-060e-2b3401040101'
INT32 = '01010700-0000-0000-060e-2b3401040101'
MOBID = '01030200-0000-0000-060e-2b3401040101'
AUID_ = '01030100-0000-0000-060e-2b3401040101'
TIME = '03010600-0000-0000-060e-2b3401040101'
DATE = '03010500-0000-0000-060e-2b3401040101'
STAMP = '03010700-0000-0000-060e-2b3401040101'


def le16(v):
    return const_bytes(v.to_bytes(2, 'little'))


def utf16(*names):
    return const_bytes(b''.join(n.encode('utf-16-le') + b'\0\0' for n in names))


class World(object):
    """a dictionary of type definitions, each known by its stored properties"""

    def __init__(self, prog):
        self.prog = prog
        self.n = 0
        self.by_auid, self.by_name = {}, {}
        md = Obj('metadict', {'lookup_typedef': Py(self.lookup), 'lookup_classdef': Py(lambda m, a, k: None)})
        md.at['typedefs_by_name'] = Obj('table', {'__getitem__': Py(self.lookup), 'get': Py(self.lookup)})
        md.at['typedefs_by_auid'] = Obj('table', {'__getitem__': Py(self.lookup), 'get': Py(self.lookup)})
        self.root = Obj('root', {'metadict': md})

    def lookup(self, m, a, kw):
        k = a[0]
        if isinstance(k, str):
            return self.by_name.get(k)
        if isinstance(k, Obj) and not isinstance(k.cls, str) and 'bytes_le' in k.at:
            for b, t in self.by_auid.items():
                if m.truth(m.eq(By(k.at['bytes_le'].v), const_bytes(b))):
                    return t
            return None
        if isinstance(k, Obj) and k.cls == 'uuid.UUID':
            raise Unk('lookup')
        return None

    def auid(self, text_):
        return Obj(self.prog.cls('AUID'), {'bytes_le': const_bytes(_uuid.UUID(text_).bytes_le, True)})

    def prop(self, data=None, **kw):
        at = {'data': data, 'mark_modified': Py(lambda m, a, k: None)}
        at.update(kw)
        return Obj('prop', at)

    def make(self, cls, props, auid=None, name=None, items=None):
        self.n += 1
        auid = auid or '%08x-1111-2222-3333-444444444444' % self.n
        name = name or 'Type%d' % self.n
        pe = [(PID_AUID, self.prop(const_bytes(_uuid.UUID(auid).bytes_le))), (PID_NAME, self.prop(utf16(name)))]
        pe += [(p, v) for p, v in props.items()]
        o = Obj(self.prog.cls(cls), {'root': self.root, '_auid': None, 'property_entries': D(pe)})
        if items is not None:
            o.at['__getitem__'] = Py(lambda m, a, k: items[a[0]])
            o.at['_fields'] = None
        o.key = _uuid.UUID(auid).bytes_le
        self.by_auid[o.key] = o
        self.by_name[name] = o
        return o

    def ref(self, t):
        return self.prop(ref=Obj(self.prog.cls('AUID'), {'bytes_le': const_bytes(t.key, True)}))

    def int_(self, size, signed, **kw):
        return self.make('TypeDefInt', {0x000F: self.prop(const_bytes(bytes(bytearray([size])))), 0x0010: self.prop(const_bytes(b'\x01' if signed else b'\x00'))}, **kw)

    def enum(self, base, elements, **kw):
        vals = const_bytes(b''.join(v.to_bytes(8, 'little', signed=True) for v, n in elements))
        return self.make('TypeDefEnum', {0x0014: self.ref(base), 0x0015: self.prop(utf16(*[n for v, n in elements])), 0x0016: self.prop(vals)}, **kw)

    def extenum(self, elements, **kw):
        vals = const_bytes(b''.join(_uuid.UUID(v).bytes_le for v, n in elements))
        return self.make('TypeDefExtEnum', {0x001f: self.prop(utf16(*[n for v, n in elements])), 0x0020: self.prop(vals)}, **kw)

    def fixed(self, el, n, **kw):
        return self.make('TypeDefFixedArray', {0x0017: self.ref(el), 0x0018: self.prop(const_bytes(n.to_bytes(4, 'little')))}, **kw)

    def var(self, el, **kw):
        return self.make('TypeDefVarArray', {0x0019: self.ref(el)}, **kw)

    def set_(self, el, **kw):
        return self.make('TypeDefSet', {0x001A: self.ref(el)}, **kw)

    def string(self, el, **kw):
        return self.make('TypeDefString', {0x001B: self.ref(el)}, **kw)

    def rename(self, t, **kw):
        return self.make('TypeDefRename', {0x001E: self.ref(t)}, **kw)

    def record(self, fields, **kw):
        vec = Obj('vector', {'iter': [t for n, t in fields]})
        names = self.prop(utf16(*[n for n, t in fields]))
        types = self.prop(value=vec, iter=[t for n, t in fields])
        refs = Obj('prop', {'iter': [t for n, t in fields], 'value': vec})
        return self.make('TypeDefRecord', {0x001D: names, 0x001C: refs}, items={'MemberNames': names, 'MemberTypes': types}, **kw)


def call(m, o, name, *a):
    return m.call(m.getattr(o, name), list(a), {})


def sint(by, a, b, signed):
    return mk(sum(by.v[a:b], ()), signed)


class Codec(object):
    def __init__(self, cx):
        self.cx, self.prog = cx, cx.prog
        self.J = Judge(cx, 'value-codec')

    def where(self, cls, name):
        c = self.prog.cls(cls)
        f = c.method(name) or c.getter(name)
        return f.where if f is not None else '%s:%d' % (c.module.rel, c.node.lineno)

    def has(self, cls, *names):
        if not self.prog.has_cls(cls):
            return False
        c = self.prog.cls(cls)
        return all(c.method(n) is not None for n in names)

    def there_and_back(self, name, cls, make, n, pre=None, accept=None):
        """decode n input bytes, encode the result: the same bytes"""
        def go(m):
            t = make()
            if pre:
                pre(m)
            v = call(m, t, 'decode', sym_bytes('d', n))
            return call(m, t, 'encode', v)
        self.J.run(name + ' decode-encode', self.where(cls, 'encode'), go,
                   accept or (lambda m, v: same(m, By(v.v), sym_bytes('d', n))), 'encoding the value that was read does not give back its bytes')

    def size(self, name, cls, make, n):
        self.J.run(name + ' byte_size', self.where(cls, 'byte_size'), lambda m: m.getattr(make(), 'byte_size'), lambda m, v: v == n, 'the size of the type is not the number of bytes its values take (%d)' % n)


def nonzero(m, name, lo, hi):
    m.neq.append([((name, i), 0) for i in range(lo, hi)])


ENUM = [(0, 'First'), (1, 'Second'), (2, 'Third'), (100, 'Firs')]
BACK = ENUM + [(-5, 'Negative')]
EXT = [('0d010101-0101-2100-060e-2b3402060101', 'Alpha'), ('0d010101-0101-2300-060e-2b3402060101', 'Alphabet'), ('0d010101-0101-2200-060e-2b3402060101', 'Beta')]


def elements(W):
    """element types by description: (maker, width)"""
    out = []
    for size in (1, 2, 4, 8):
        for sg in (False, True):
            out.append(('%sint%d' % ('' if sg else 'u', 8 * size), (lambda w, size=size, sg=sg: w.int_(size, sg)), size))
    out.append(('renamed uint16', lambda w: w.rename(w.int_(2, False)), 2))
    out.append(('record of int16, uint8', lambda w: w.record([('A', w.int_(2, True)), ('B', w.int_(1, False))]), 3))
    out.append(('array of 2 uint8', lambda w: w.fixed(w.int_(1, False), 2), 2))
    return out


def ints(C):
    for size in (1, 2, 4, 8):
        for sg in (False, True):
            nm = '%sint%d' % ('' if sg else 'u', 8 * size)
            mkt = lambda size=size, sg=sg: World(C.prog).int_(size, sg)
            C.J.run('%s decode' % nm, C.where('TypeDefInt', 'decode'), lambda m: call(m, mkt(), 'decode', sym_bytes('d', size)),
                    lambda m, v: same(m, v, sint(sym_bytes('d', size), 0, size, sg)), 'the value read is not the little endian %s integer of %d bytes' % ('signed' if sg else 'unsigned', size))
            C.there_and_back(nm, 'TypeDefInt', mkt, size)
            C.size(nm, 'TypeDefInt', mkt, size)


def enums(C):
    for size in (1, 2, 4, 8):
        def mkt(size=size):
            w = World(C.prog)
            return w.enum(w.int_(size, size != 1), ENUM if size == 1 else BACK)
        els = ENUM if size == 1 else BACK
        nm = 'enumeration of %d bytes' % size
        for v, n in els:
            for given in (n, v):
                C.J.run('%s encode %r' % (nm, given), C.where('TypeDefEnum', 'encode'), lambda m: call(m, mkt(), 'encode', given),
                        lambda m, r: same(m, By(r.v), const_bytes(v.to_bytes(size, 'little', signed=v < 0))), 'the element is not stored as its number')
        C.J.run('%s encode unknown' % nm, C.where('TypeDefEnum', 'encode'), lambda m: call(m, mkt(), 'encode', 'Nothing'), lambda m, r: False, 'a name that is no element is not refused', raises=True)

        def known(m):
            t = mkt()
            return [call(m, t, 'decode', const_bytes(v.to_bytes(size, 'little', signed=v < 0))) for v, n in els]
        C.J.run('%s decode' % nm, C.where('TypeDefEnum', 'decode'), known, lambda m, r: r == [n for v, n in els], 'a stored number is not read as its element')
        C.size(nm, 'TypeDefEnum', mkt, size)

    def boolean():
        w = World(C.prog)
        return w.enum(w.int_(1, False), [(0, 'False'), (1, 'True')], auid=BOOLEAN, name='Boolean')
    for v in (True, False):
        C.J.run('Boolean %s' % v, C.where('TypeDefEnum', 'encode'), lambda m: (call(m, boolean(), 'encode', v), m.truth(call(m, boolean(), 'decode', call(m, boolean(), 'encode', v)))),
                lambda m, r: same(m, By(r[0].v), const_bytes(b'\x01' if v else b'\x00')) and r[1] is v, 'a truth value is not stored as one byte 1 or 0, or reads back as another')

    def grown():
        w = World(C.prog)
        return w.enum(w.int_(1, False), ENUM)

    def grow(m):
        t = grown()
        call(m, t, 'register_element', 'Fourth', 9)
        return call(m, t, 'encode', 'Fourth'), call(m, t, 'decode', const_bytes(b'\x09')), [call(m, t, 'decode', const_bytes(bytes(bytearray([v])))) for v, n in ENUM]
    if C.has('TypeDefEnum', 'register_element'):
        C.J.run('enumeration register_element', C.where('TypeDefEnum', 'register_element'), grow,
                lambda m, r: same(m, By(r[0].v), const_bytes(b'\x09')) and r[1] == 'Fourth' and r[2] == [n for v, n in ENUM], 'an added element cannot be encoded and decoded, or displaces the others')


def extenums(C):
    if not C.has('TypeDefExtEnum', 'encode', 'decode'):
        return
    mkt = lambda: World(C.prog).extenum(EXT)
    for a, n in EXT:
        b = const_bytes(_uuid.UUID(a).bytes_le)
        for what, given in (('name', lambda w: n), ('lower case name', lambda w: n.lower()), ('AUID', lambda w: w.auid(a)), ('UUID', lambda w: Obj('uuid.UUID', {'be': const_bytes(_uuid.UUID(a).bytes)}))):
            C.J.run('extensible enumeration encode %s %s' % (n, what), C.where('TypeDefExtEnum', 'encode'), lambda m: call(m, mkt(), 'encode', given(World(C.prog))),
                    lambda m, r: same(m, By(r.v), b), 'the element is not stored as its identifier')
        C.J.run('extensible enumeration decode %s' % n, C.where('TypeDefExtEnum', 'decode'), lambda m: call(m, mkt(), 'decode', b), lambda m, r: r == n, 'the stored identifier is not read as its element')

    def unknown(m):
        t = mkt()
        v = call(m, t, 'decode', sym_bytes('d', 16))
        if isinstance(v, str):
            return call(m, t, 'encode', v)
        return v.at['bytes_le']
    C.J.run('extensible enumeration decode', C.where('TypeDefExtEnum', 'decode'), unknown, lambda m, v: same(m, By(v.v), sym_bytes('d', 16)), 'the value read does not stand for the identifier that is stored')
    C.J.run('extensible enumeration encode unknown', C.where('TypeDefExtEnum', 'encode'), lambda m: call(m, mkt(), 'encode', 'Nothing'), lambda m, r: False, 'a name that is no element is not refused', raises=True)
    C.size('extensible enumeration', 'TypeDefExtEnum', mkt, 16)


def arrays(C):
    for nm, mke, w in elements(None):
        def fx(n=3):
            W = World(C.prog)
            return W.fixed(mke(W), n)
        name = 'array of 3 %s' % nm
        C.there_and_back(name, 'TypeDefFixedArray', fx, 3 * w)
        C.size(name, 'TypeDefFixedArray', fx, 3 * w)

        def short(m):
            t = fx(1)
            v = m.iterate(call(m, t, 'decode', sym_bytes('d', w)))
            return call(m, fx(3), 'encode', v)
        C.J.run(name + ' of 1 value', C.where('TypeDefFixedArray', 'encode'), short, lambda m, r: same(m, By(r.v), By(sym_bytes('d', w).v + [(0,) * 8] * (2 * w))), 'a shorter list is not filled up with zeros to exactly the size of the type')
        C.J.run(name + ' of no value', C.where('TypeDefFixedArray', 'encode'), lambda m: call(m, fx(3), 'encode', []), lambda m, r: same(m, By(r.v), By([(0,) * 8] * (3 * w))), 'an empty list is not filled up with zeros to exactly the size of the type')

        def long_(m):
            v = m.iterate(call(m, fx(4), 'decode', sym_bytes('d', 4 * w)))
            return call(m, fx(3), 'encode', v)
        C.J.run(name + ' of 4 values', C.where('TypeDefFixedArray', 'encode'), long_, lambda m, r: False, 'a list too long for the type is not refused', raises=True)

        def va():
            W = World(C.prog)
            return W.var(mke(W))
        for k in (0, 1, 3) + ((300,) if w <= 2 else ()):
            C.there_and_back('list of %d %s' % (k, nm), 'TypeDefVarArray', va, k * w)

        def count(m):
            return len(m.iterate(call(m, va(), 'decode', sym_bytes('d', 3 * w))))
        C.J.run('list of %s length' % nm, C.where('TypeDefVarArray', 'decode'), count, lambda m, r: r == 3, 'the number of values read is not the number stored')

        def st():
            W = World(C.prog)
            return W.set_(mke(W))
        if 'record' in nm or 'array' in nm:
            continue        # their values cannot be members of a set

        def perm(m, v, k=2):
            g = [tuple(v.v[i * w:(i + 1) * w]) for i in range(k)]
            d = sym_bytes('d', k * w).v
            return len(v.v) == k * w and sorted(map(repr, g)) == sorted(repr(tuple(d[i * w:(i + 1) * w])) for i in range(k))
        C.there_and_back('set of 2 %s' % nm, 'TypeDefSet', st, 2 * w, accept=perm)


def texts(C):
    def mks():
        W = World(C.prog)
        return W.string(W.make('TypeDefCharacter', {}, auid=CHARACTER, name='Character'))
    C.J.run('String', C.where('TypeDefString', 'encode'), lambda m: (call(m, mks(), 'encode', sym_text('s')), call(m, mks(), 'decode', call(m, mks(), 'encode', sym_text('s')))),
            lambda m, r: same(m, r[1], sym_text('s')) and same(m, r[0], By([('enc', 'utf-16-le', (('txt', 's'),))] + [(0,) * 8] * 2)), 'text is not stored as UTF-16 little endian ended by a zero character, or does not read back')
    C.J.run('String empty', C.where('TypeDefString', 'encode'), lambda m: call(m, mks(), 'decode', call(m, mks(), 'encode', '')), lambda m, r: r == '', 'the empty text does not read back')

    def mkl():
        W = World(C.prog)
        return W.var(W.make('TypeDefCharacter', {}, auid=CHARACTER, name='Character'))

    def go(m):
        for n in ('s', 't'):
            for i in range(2):
                nonzero(m, n, 16 * i, 16 * i + 16)
        v = [sym_chars('s', 2), sym_chars('t', 1)]
        return call(m, mkl(), 'decode', call(m, mkl(), 'encode', v))
    C.J.run('list of texts', C.where('TypeDefVarArray', 'decode'), go, lambda m, r: same(m, r, [sym_chars('s', 2), sym_chars('t', 1)]), 'a list of texts does not read back')


def records(C):
    prog = C.prog

    def plain():
        W = World(prog)
        return W.record([('A', W.int_(2, True)), ('B', W.int_(1, False)), ('C', W.rename(W.int_(4, False)))])
    d = sym_bytes('d', 7)
    C.J.run('record decode', C.where('TypeDefRecord', 'decode'), lambda m: call(m, plain(), 'decode', d),
            lambda m, v: same(m, v, D([('A', sint(d, 0, 2, True)), ('B', sint(d, 2, 3, False)), ('C', sint(d, 3, 7, False))])), 'the fields are not read one after another, each at the width of its type')
    C.there_and_back('record', 'TypeDefRecord', plain, 7)
    C.size('record', 'TypeDefRecord', plain, 7)

    def nested():
        W = World(prog)
        return W.record([('X', W.record([('A', W.int_(2, True)), ('B', W.int_(1, False))])), ('Y', W.fixed(W.int_(2, False), 2))])
    C.there_and_back('record of records', 'TypeDefRecord', nested, 7)
    C.size('record of records', 'TypeDefRecord', nested, 7)

    def special(name, auid, fields, n, pre=None, accept=None):
        def mkt():
            W = World(prog)
            return W.record([(f, mk_(W)) for f, mk_ in fields], auid=auid, name=name)
        C.there_and_back(name, 'TypeDefRecord', mkt, n, pre, accept)
        return mkt
    u8 = lambda W: W.int_(1, False)
    au = special('AUID', AUID_, [('Data1', lambda W: W.int_(4, False)), ('Data2', lambda W: W.int_(2, False)), ('Data3', lambda W: W.int_(2, False)), ('Data4', lambda W: W.fixed(W.int_(1, False), 8))], 16)
    mo = special('MobID', MOBID, [('SMPTELabel', lambda W: W.fixed(W.int_(1, False), 12)), ('length', u8), ('instanceHigh', u8), ('instanceMid', u8), ('instanceLow', u8), ('material', lambda W: W.fixed(W.int_(1, False), 16))], 32)
    for nm, mkt, cls, n in (('AUID', au, 'AUID', 16), ('MobID', mo, 'MobID', 32)):
        C.J.run('%s decode' % nm, C.where('TypeDefRecord', 'decode'), lambda m: call(m, mkt(), 'decode', sym_bytes('d', n)),
                lambda m, v: isinstance(v, Obj) and v.cls is prog.cls(cls) and same(m, v.at['bytes_le'], sym_bytes('d', n)), 'the value read is not the identifier stored')
        C.size(nm, 'TypeDefRecord', mkt, n)
    i32 = lambda W: W.int_(4, True)
    ra = special('Rational', RATIONAL, [('Numerator', i32), ('Denominator', i32)], 8, pre=lambda m: nonzero(m, 'd', 32, 64))
    r8 = sym_bytes('d', 8)

    def rdec(m):
        nonzero(m, 'd', 32, 64)
        v = call(m, ra(), 'decode', r8)
        return (m.getattr(v, 'numerator'), m.getattr(v, 'denominator'))
    C.J.run('Rational decode', C.where('TypeDefRecord', 'decode'), rdec, lambda m, v: same(m, v, (sint(r8, 0, 4, True), sint(r8, 4, 8, True))), 'numerator and denominator are not the two stored integers, unreduced')
    i16 = lambda W: W.int_(2, True)
    date = [('year', i16), ('month', u8), ('day', u8)]
    time = [('hour', u8), ('minute', u8), ('second', u8), ('fraction', u8)]
    da = special('DateStruct', DATE, date, 4)
    d4 = sym_bytes('d', 4)

    def fields(v, names):
        if isinstance(v, D):
            return dict((k, x) for k, x in v.p)
        return v.at
    C.J.run('DateStruct decode', C.where('TypeDefRecord', 'decode'), lambda m: call(m, da(), 'decode', d4),
            lambda m, v: all(same(m, fields(v, None).get(n), w) for n, w in (('year', sint(d4, 0, 2, True)), ('month', sint(d4, 2, 3, False)), ('day', sint(d4, 3, 4, False)))), 'year, month and day are not the stored fields')
    def tmake():
        W = World(prog)
        return W.record([(f, k(W)) for f, k in time], auid=TIME, name='TimeStruct')
    C.size('TimeStruct', 'TypeDefRecord', tmake, 4)

    def stamp():
        W = World(prog)
        return W.record([('date', W.record([(f, k(W)) for f, k in date], auid=DATE, name='DateStruct')), ('time', W.record([(f, k(W)) for f, k in time], auid=TIME, name='TimeStruct'))], auid=STAMP, name='TimeStamp')
    w = C.where('TypeDefRecord', 'encode')

    def hms(m, v):
        return all(same(m, fields(v, None).get(n), x) for n, x in (('hour', sint(d4, 0, 1, False)), ('minute', sint(d4, 1, 2, False)), ('second', sint(d4, 2, 3, False))))

    def when(m, v):
        if isinstance(v, D):
            return True
        return v.cls == 'datetime.datetime' and all(same(m, v.at.get(n), w) for n, w in (('year', sint(d8, 0, 2, True)), ('month', sint(d8, 2, 3, False)), ('day', sint(d8, 3, 4, False)),
                                                                                    ('hour', sint(d8, 4, 5, False)), ('minute', sint(d8, 5, 6, False)), ('second', sint(d8, 6, 7, False))))
    # hundred and twenty-fifths of two seconds: the rest of the fields are any bits
    for fr in (0, 1, 124, 249, 250, 255):
        last = const_bytes(bytes(bytearray([fr]))).v
        d4 = By(sym_bytes('d', 3).v + last)
        d8 = By(sym_bytes('d', 7).v + last)

        def tgo(m, t, d):
            v = call(m, t, 'decode', d)
            return v, call(m, t, 'encode', v)
        C.J.run('TimeStruct decode, fraction %d' % fr, w, lambda m: call(m, tmake(), 'decode', d4), hms, 'hour, minute and second are not the stored fields')
        C.J.run('TimeStruct decode-encode, fraction %d' % fr, w, lambda m: tgo(m, tmake(), d4), lambda m, v: same(m, By(v[1].v), d4), 'encoding the value that was read does not give back its bytes')
        C.J.run('TimeStamp decode, fraction %d' % fr, w, lambda m: call(m, stamp(), 'decode', d8), when, 'the date and time read are not the stored fields')
        C.J.run('TimeStamp decode-encode, fraction %d' % fr, w, lambda m: tgo(m, stamp(), d8), lambda m, v: same(m, By(v[1].v), d8), 'encoding the value that was read does not give back its bytes')
    for us in (0, 1, 4000, 999999):
        t = lambda: Obj('datetime.time', {'hour': sym_int('h', 8), 'minute': sym_int('i', 8), 'second': sym_int('s', 8), 'microsecond': us})
        C.J.run('TimeStruct encode, %d microseconds' % us, w, lambda m: call(m, tmake(), 'encode', t()),
                lambda m, v: len(v.v) == 4 and same(m, By(v.v[:3]), By([sym_int('h', 8).b, sym_int('i', 8).b, sym_int('s', 8).b])), 'hour, minute and second are not stored as the first three bytes')
    C.size('TimeStamp', 'TypeDefRecord', stamp, 8)


def renames(C):
    def mkt():
        W = World(C.prog)
        return W.rename(W.rename(W.int_(2, True)))
    C.there_and_back('renamed type', 'TypeDefRename', mkt, 2)
    C.size('renamed type', 'TypeDefRename', mkt, 2)
    C.J.run('renamed type decode', C.where('TypeDefRename', 'decode'), lambda m: call(m, mkt(), 'decode', sym_bytes('d', 2)), lambda m, v: same(m, v, sint(sym_bytes('d', 2), 0, 2, True)), 'the value read is not that of the type that is renamed')


def indirect(C):
    prog = C.prog

    def world():
        W = World(prog)
        ch = W.make('TypeDefCharacter', {}, auid=CHARACTER, name='Character')
        W.string(ch, auid=STRING, name='aafString')
        i32 = W.int_(4, True, auid=INT32, name='aafInt32')
        W.record([('Numerator', i32), ('Denominator', i32)], auid=RATIONAL, name='Rational')
        W.int_(8, True, name='Length')
        return W, W.make('TypeDefIndirect', {})
    LE = const_bytes(b'\x4c')

    def rat(m):
        nonzero(m, 'q', 0, 32)
        return m.instantiate(prog.cls('AAFRational'), [sym_int('p', 32, True), sym_int('q', 32, True)], {})

    def shape(auid, payload):
        return By(LE.v + const_bytes(_uuid.UUID(auid).bytes_le).v + payload)
    cases = [('text', lambda m: sym_text('s'), STRING, lambda: [('enc', 'utf-16-le', (('txt', 's'),))] + [(0,) * 8] * 2),
             ('integer', lambda m: sym_int('n', 32, True), INT32, lambda: sym_bytes('n', 4).v),
             ('rational', rat, RATIONAL, lambda: sym_bytes('p', 4).v + sym_bytes('q', 4).v)]
    for nm, val, auid, pay in cases:
        def go(m):
            W, t = world()
            e = call(m, t, 'encode', val(m))
            return e, call(m, t, 'decode', e), val(m), W
        C.J.run('indirect %s encode' % nm, C.where('TypeDefIndirect', 'encode'), go, lambda m, r: same(m, By(r[0].v), shape(auid, pay())),
                'a value of any type is not stored as byte order mark, type identifier and encoded value')
        C.J.run('indirect %s decode' % nm, C.where('TypeDefIndirect', 'decode'), go, lambda m, r: same(m, r[1], r[2]), 'the value read is not the value stored')

    def typed(m):
        W, t = world()
        want = W.by_name['Length']
        e = m.call(m.getattr(t, 'encode'), [sym_int('n', 64, True), 'Length'], {})
        return e, call(m, t, 'decode', e), want
    C.J.run('indirect with a given type', C.where('TypeDefIndirect', 'encode'), typed,
            lambda m, r: same(m, By(r[0].v), By(LE.v + const_bytes(r[2].key).v + sym_bytes('n', 8).v)) and same(m, r[1], sym_int('n', 64, True)), 'the value is not stored with the type asked for, or does not read back')

    def missing(m):
        W, t = world()
        return m.call(m.getattr(t, 'encode'), [1, 'Nothing'], {})
    C.J.run('indirect with an unknown type', C.where('TypeDefIndirect', 'encode'), missing, lambda m, r: False, 'a type that does not exist is not refused', raises=True)

    def be(m):
        W, t = world()
        return call(m, t, 'decode', By(const_bytes(b'\x42').v + const_bytes(_uuid.UUID(INT32).bytes_le).v + sym_bytes('n', 4).v))
    C.J.run('indirect big endian', C.where('TypeDefIndirect', 'decode'), be, lambda m, r: False, 'big endian data is read as if it were little endian', raises=True)


def rational(C):
    if not C.prog.has_cls('AAFRational'):
        return
    K = C.prog.cls('AAFRational')
    f = K.method('__new__')
    if f is None:
        return

    def nd(m, o):
        return (m.getattr(o, 'numerator'), m.getattr(o, 'denominator'))

    def two(m):
        nonzero(m, 'q', 0, 32)
        return nd(m, m.instantiate(K, [sym_int('p', 32, True), sym_int('q', 32, True)], {}))
    pq = (sym_int('p', 32, True), sym_int('q', 32, True))
    C.J.run('AAFRational(numerator, denominator)', f.where, two, lambda m, v: same(m, v, pq), 'the two numbers given are not kept as they are')

    def again(m):
        nonzero(m, 'q', 0, 32)
        return nd(m, m.instantiate(K, [m.instantiate(K, [sym_int('p', 32, True), sym_int('q', 32, True)], {})], {}))
    C.J.run('AAFRational(rational)', f.where, again, lambda m, v: same(m, v, pq), 'a rational made from a rational has other numbers')
    C.J.run('AAFRational(integer)', f.where, lambda m: nd(m, m.instantiate(K, [sym_int('p', 32, True)], {})), lambda m, v: same(m, v, (pq[0], 1)), 'a whole number is not itself over 1')

    def zero(m):
        nonzero(m, 'p', 0, 32)
        return m.instantiate(K, [sym_int('p', 32, True), 0], {})
    C.J.run('AAFRational(n, 0)', f.where, zero, lambda m, v: False, 'a denominator of 0 is not refused', raises=True)


def streams(C):
    """helpers that read and write single values"""
    prog = C.prog
    kinds = [('u8', 1, False, '<'), ('u16le', 2, False, '<'), ('u16be', 2, False, '>'), ('u32le', 4, False, '<'), ('u32be', 4, False, '>'), ('s32be', 4, True, '>'),
             ('u64le', 8, False, '<'), ('u64be', 8, False, '>'), ('s64be', 8, True, '>'), ('filetime', 8, False, '<')]
    for k, n, sg, order in kinds:
        r, w = prog.maybe_func('utils.read_' + k), prog.maybe_func('utils.write_' + k)
        d = sym_bytes('d', n)
        v = mk(sum(d.v if order == '<' else d.v[::-1], ()), sg)
        if r is not None:
            def rd(m):
                f = m.ext_call('io.BytesIO', [By(d.v + sym_bytes('e', 3).v)], {})
                return m.call_func(r, [f], {}), f.at['pos']
            C.J.run('read_%s' % k, r.where, rd, lambda m, x: same(m, x[0], v) and x[1] == n, 'it does not read %d bytes %s endian, %s' % (n, 'little' if order == '<' else 'big', 'signed' if sg else 'unsigned'))
        if w is not None:
            def wr(m):
                f = m.ext_call('io.BytesIO', [], {})
                m.call_func(w, [f, v], {})
                return By(f.at['buf'].v)
            C.J.run('write_%s' % k, w.where, wr, lambda m, x: same(m, x, d), 'it does not write the %d bytes that reading expects' % n)
    for k, n, sg in (('encode_u8', 1, False), ('encode_u16le', 2, False), ('encode_u32le', 4, False), ('encode_s64le', 8, True)):
        f = prog.maybe_func('utils.' + k)
        if f is not None:
            C.J.run(k, f.where, lambda m: m.call_func(f, [mk(sum(sym_bytes('d', n).v, ()), sg)], {}), lambda m, x: same(m, By(x.v), sym_bytes('d', n)), 'the bytes are not the value little endian')
    for k, n in (('unpack_u16le_from', 2), ('unpack_u32le_from', 4), ('unpack_u64le_from', 8)):
        f = prog.maybe_func('utils.' + k)
        if f is not None:
            C.J.run(k, f.where, lambda m: m.call_func(f, [sym_bytes('d', 12), 3], {}), lambda m, x: same(m, x, sint(sym_bytes('d', 12), 3, 3 + n, False)), 'it does not read %d bytes little endian at the offset' % n)
    ds, es = prog.maybe_func('utils.decode_sid'), prog.maybe_func('utils.encode_sid')
    if ds is not None and es is not None:
        C.J.run('sid', ds.where, lambda m: m.call_func(es, [m.call_func(ds, [sym_int('n', 32)], {})], {}), lambda m, x: same(m, x, sym_int('n', 32)), 'a sector number read and written again is another number')
        C.J.run('sid none', ds.where, lambda m: (m.call_func(ds, [0xFFFFFFFF], {}), m.call_func(es, [None], {})), lambda m, x: x[0] is None and x[1] == 0xFFFFFFFF, 'the number for "none" is not read as none')
    e, d = prog.maybe_func('utils.encode_utf16le'), prog.maybe_func('utils.decode_utf16le')
    if e is not None and d is not None:
        C.J.run('utf16', e.where, lambda m: m.call_func(d, [m.call_func(e, [sym_text('s')], {})], {}), lambda m, x: same(m, x, sym_text('s')), 'text does not read back')
        C.J.run('utf16 with rest', d.where, lambda m: m.call_func(d, [By(m.call_func(e, [sym_text('s')], {}).v + const_bytes('xy'.encode('utf-16-le')).v)], {}), lambda m, x: same(m, x, sym_text('s')), 'text is not ended by the first zero character')
    ea, ia = prog.maybe_func('utils.encode_utf16_array'), prog.maybe_func('types.iter_utf16_array')
    if ea is not None and ia is not None:
        def arr(m):
            for n in ('s', 't'):
                for i in range(2):
                    nonzero(m, n, 16 * i, 16 * i + 16)
            return m.iterate(m.call_func(ia, [m.call_func(ea, [[sym_chars('s', 1), sym_chars('t', 2)]], {})], {}))
        C.J.run('utf16 array', ea.where, arr, lambda m, x: same(m, x, [sym_chars('s', 1), sym_chars('t', 2)]), 'an array of names does not read back')


def C26(cx):
    C = Codec(cx)
    for part in (ints, enums, extenums, arrays, texts, records, renames, indirect, rational, streams):
        part(C)
    cx.need('encodings decided', len(cx.done), 60)
