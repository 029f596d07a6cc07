"""The typed layer followed over an abstract storage: objects are changed in every way their
properties offer, saved, and read again; each rule compares what is there with what must be."""
from ..typed import *
from .ident import Judge, same
import time

BUDGET = 400


def where(cx, cls, name):
    if not cx.prog.has_cls(cls):
        return None
    c = cx.prog.cls(cls)
    f = c.method(name) or c.setter(name) or c.getter(name)
    return f.where if f is not None else '%s:%d' % (c.module.rel, c.node.lineno)


def key(m, x):
    """an identifier as comparable bytes"""
    if isinstance(x, Obj):
        b = m.getattr(x, 'bytes_le')
        return By(b.v)
    return x


def describe(m, f, o, seen=()):
    """what an object holds: ('obj', class id, [(pid, kind, content)])"""
    if o is None:
        return None
    if any(o is x for x in seen):
        raise Unk('cyclic objects')
    seen = seen + (o,)
    out = []
    for p in m.iterate(m.call(m.getattr(o, 'properties'), [], {})):
        fmt, pid = m.getattr(p, 'format'), m.getattr(p, 'pid')
        n = p.cls.name if isinstance(p, Obj) and not isinstance(p.cls, str) else '?'
        if n == 'StrongRefProperty':
            c = describe(m, f, m.getattr(p, 'value'), seen)
        elif n == 'StrongRefVectorProperty':
            c = [describe(m, f, x, seen) for x in m.iterate(m.getattr(p, 'value'))]
        elif n == 'StrongRefSetProperty':
            c = [(key(m, q[0]), describe(m, f, q[1], seen)) for q in [m.iterate(x) for x in m.iterate(m.call(m.getattr(p, 'items'), [], {}))]]
        elif n == 'WeakRefProperty':
            c = (key(m, m.getattr(p, 'ref')), target(m, f, p), m.getattr(p, 'key_pid'))
        elif n in ('WeakRefVectorProperty', 'WeakRefSetProperty'):
            c = ([key(m, x) for x in m.iterate(m.getattr(p, 'references'))], target(m, f, p), m.getattr(p, 'key_pid'))
        elif n == 'StreamProperty':
            s = m.call(m.getattr(p, 'open'), ['r'], {})
            c = m.call(m.getattr(s, 'read'), [], {})
        elif n == 'Property':
            c = m.getattr(p, 'data')
        else:
            raise Unk('kind of property')
        out.append((pid, n, fmt, c))
    return ('obj', key(m, m.getattr(o, 'class_id')), out)


def target(m, f, p):
    i = m.getattr(p, 'weakref_index')
    t = f.obj.at['weakref_table']
    if not isinstance(i, int) or not isinstance(t, list):
        raise Unk('weak reference')
    return t[i] if 0 <= i < len(t) else ('outside', i)


def equal(m, a, b, order=True):
    """None when alike, else where they differ"""
    if a is None or b is None:
        return None if a is b else 'one is missing'
    if isinstance(a, tuple) and a and a[0] == 'obj' and isinstance(a[0], str):
        if not (isinstance(b, tuple) and b and isinstance(b[0], str) and b[0] == 'obj'):
            return 'one is missing'
        if not m.truth(m.eq(a[1], b[1])):
            return 'the class'
        pa, pb = dict((x[0], x) for x in a[2]), dict((x[0], x) for x in b[2])
        if len(pa) != len(a[2]) or len(pb) != len(b[2]):
            return 'a property is there twice'
        for pid in pa:
            if pid not in pb:
                return 'property 0x%04x is missing' % pid
        for pid in pb:
            if pid not in pa:
                return 'property 0x%04x is still there' % pid
        for pid in pa:
            x, y = pa[pid], pb[pid]
            if x[1:3] != y[1:3]:
                return 'the kind of property 0x%04x' % pid
            if x[1] == 'StrongRefSetProperty':
                r = as_set(m, x[3], y[3])
            else:
                r = equal(m, x[3], y[3])
            if r:
                return 'property 0x%04x: %s' % (pid, r)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%d elements for %d' % (len(b), len(a))
        for x, y in zip(a, b):
            r = equal(m, x, y)
            if r:
                return r
        return None
    return None if m.truth(m.eq(a, b)) else 'the value'


def as_set(m, a, b):
    if len(a) != len(b):
        return '%d elements for %d' % (len(b), len(a))
    for k, x in a:
        for k2, y in b:
            if m.truth(m.eq(k, k2)):
                r = equal(m, x, y)
                if r:
                    return 'an element: %s' % r
                break
        else:
            return 'an element is not found by its key'
    return None


class W(File):
    """a file with one object of each kind of property, attached below the top"""

    def __init__(self, m, storage=None, mode='wb+'):
        File.__init__(self, m, storage, mode)
        self.top = self.storage.top.child('top')
        if self.top is None:
            self.top = self.storage.top.add('top', True)
            self.dictionary = self.new('Dictionary')
            self.obj.at['root'] = self.new('Root')
            self.call_setup()
        else:
            self.call(self.obj, 'read_reference_properties')
            self.obj.at['root'] = self.read(self.storage.top.child('root'))
        self.content = None

    def call_setup(self):
        r = self.obj.at['root']
        h = self.new('Header')
        self.put(r, 'Header', h)
        self.put(h, 'Dictionary', self.dictionary)
        for i in range(2):
            d = self.new('DataDef', self.auid(0x50 + i), ('Picture', 'Sound')[i], 'd')
            self.call(self.prop(self.dictionary, 'DataDefinitions'), 'append', d)
            d = self.new('ParameterDef', self.auid(0x60 + i), 'Par%d' % i, 'd')
            self.put(d, 'Type', self.m.call(self.m.getattr(self.md, 'lookup_typedef'), ['aafString'], {}))
            self.call(self.prop(self.dictionary, 'ParameterDefinitions'), 'append', d)
        d = self.storage.top.add('root', True)
        self.call(r, 'attach', d.obj)

    def auid(self, n):
        return Obj(self.prog.cls('AUID'), {'bytes_le': const_bytes(bytes(bytearray([n] * 16)), True)})

    def mobid(self, n):
        return Obj(self.prog.cls('MobID'), {'bytes_le': const_bytes(bytes(bytearray([n] * 32)), True)})

    def read(self, d):
        return self.call(self.obj.at['manager'], 'read_object', d.obj)

    def defs(self, name):
        d = self.get(self.get(self.obj.at['root'], 'Header'), 'Dictionary')
        return self.m.iterate(self.get(d, name))

    def attach(self, o, name='o'):
        d = self.top.add(name, True)
        self.call(o, 'attach', d.obj)
        return o

    def length(self, n):
        return N(tuple(('len%d' % n, i) for i in range(63)) + (0,), True) if n else 0

    def filler(self, n=1):
        o = self.new('Filler')
        self.put(o, 'Length', self.length(n))
        self.put(o, 'DataDefinition', self.defs('DataDefinitions')[0])
        return o

    def sequence(self, *n):
        o = self.new('Sequence')
        self.put(o, 'DataDefinition', self.defs('DataDefinitions')[0])
        self.call(self.prop(o, 'Components'), 'extend', [self.filler(i) for i in n])
        return o

    def slot(self, n, seg=None):
        o = self.new('TimelineMobSlot')
        self.put(o, 'SlotID', n)
        self.put(o, 'EditRate', 25)
        self.put(o, 'Origin', 0)
        if seg is not None:
            self.put(o, 'Segment', seg)
        return o

    def mob(self, n, *slots):
        o = self.new('MasterMob', 'mob')
        self.put(o, 'MobID', self.mobid(n))
        self.put(o, 'Slots', list(slots))
        return o

    def essence(self, n):
        o = self.new('EssenceData')
        self.put(o, 'MobID', self.mobid(n))
        s = self.call(self.prop(o, 'Data'), 'open', 'w')
        self.call(s, 'write', By(sum(([tuple(('e%d.%d' % (n, j), i) for i in range(8))] for j in range(3)), [])))
        return o

    def operation(self, n):
        o = self.new('OperationDef', self.auid(n), 'Op', 'd')
        self.put(o, 'DataDefinition', self.defs('DataDefinitions')[1])
        self.put(o, 'NumberInputs', 1)
        self.call(self.prop(o, 'ParametersDefined'), 'extend', self.defs('ParameterDefinitions')[:1])
        return o

    def tree(self):
        """content with mobs, slots, sequences and essence"""
        c = self.new('ContentStorage')
        for n in (1, 2):
            seq = self.sequence(1, 2, 3)
            self.call(self.prop(c, 'Mobs'), 'append', self.mob(n, self.slot(1, seq), self.slot(2, self.filler(4))))
        self.call(self.prop(c, 'EssenceData'), 'append', self.essence(1))
        return c

    def modified(self):
        return self.obj.at['manager'].at['modified']

    def save(self):
        r = self.obj.at['root']
        h = self.get(r, 'Header')
        own = [q for q in self.modified().p if q[1] is r or q[1] is h]
        self.modified().p[:] = [q for q in self.modified().p if q not in own]
        for q in own:
            self.call(q[1], 'write_properties', validate=False)
        self.call(self.obj, 'write_reference_properties')
        self.call(self.obj.at['manager'], 'write_objects')

    def reopen(self, mode='rb+'):
        return W(self.m, self.storage, mode)

    def again(self, name='o'):
        if name == 'o':
            return self.get(self.get(self.obj.at['root'], 'Header'), 'Content')
        return self.read(self.top.child(name))


def machine(cx):
    m = getattr(cx, 'typed_machine', None)
    J = Judge(cx, '?', stubs())
    if m is None:
        m = cx.typed_machine = J.m
        m.MAXSTEPS = 4000000
        m.snaps = {}
    J.m = m
    cx.typed_start = time.time()
    return J


def base(m, kind):
    """a private copy of a prepared file: 'live' still has its objects in memory, 'read' was reopened"""
    if isinstance(m.snaps.get(kind), Exception):
        raise m.snaps[kind]
    if kind not in m.snaps:
        prepared(m, kind, lambda: prepare(m, kind))
    return clone(m.snaps[kind], {})


def prepared(m, kind, fn):
    """a file the obligations start from; where it cannot be made nothing is concluded"""
    n = m.pos
    try:
        fn()
        if m.pos != n:
            raise Unk('it depends on an unknown value')
    except Infeasible:
        raise
    except Exception as e:
        m.snaps[kind] = Unk('preparing a file: %s %s' % (type(e).__name__, e))
        raise m.snaps[kind]


def prepare(m, kind):
    if kind == 'new':
        w = W(m)
    elif kind == 'live':
        w = base(m, 'new')
        w.put(w.get(w.obj.at['root'], 'Header'), 'Content', w.tree())
        w.attach(w.operation(9), 'op')
        w.save()
    elif kind == 'read':
        w = base(m, 'live').reopen()
    elif kind == 'readonly':
        w = base(m, 'live').reopen('rb')
    m.snaps[kind] = w


def mark(w, o):
    """which filler (or nested sequence) this is"""
    if 'Components' in names(w, o):
        return marks(w, o)
    v = w.get(o, 'Length')
    if isinstance(v, N):
        return v.b[0][0]
    return v


def marks(w, seq):
    return [mark(w, x) for x in w.m.iterate(w.get(seq, 'Components'))]


def seq_of(w, n=1):
    return w.get(w.get(mob_of(w, n), 'Slots')[0], 'Segment')


def mob_of(w, n=1):
    return w.call(w.prop(w.again(), 'Mobs'), 'get', w.mobid(n))


def keys_of(w, c, name):
    """the numbers of the identifiers a set is keyed by, checked against its elements"""
    out = []
    for q in w.m.iterate(w.call(w.prop(c, name), 'items')):
        k, o = w.m.iterate(q)
        a, b = key(w.m, k), key(w.m, w.m.getattr(o, 'unique_key'))
        if not w.m.truth(w.m.eq(a, b)):
            return 'an element is filed under another key'
        n = sum(x << i for i, x in enumerate(a.v[0]) if x in (0, 1))
        out.append(n)
    return sorted(out)


def vector_ops():
    """(name, method, change, expected marks)"""
    def v(w):
        return w.prop(seq_of(w), 'Components')
    L = ['len1', 'len2', 'len3']
    return [
        ('append', 'append', lambda w: w.call(v(w), 'append', w.filler(5)), L + ['len5']),
        ('extend', 'extend', lambda w: w.call(v(w), 'extend', [w.filler(5), w.filler(6)]), L + ['len5', 'len6']),
        ('extend by a list of known length 0', 'extend', lambda w: w.call(v(w), 'extend', []), L),
        ('insert first', 'insert', lambda w: w.call(v(w), 'insert', 0, w.filler(5)), ['len5'] + L),
        ('insert second', 'insert', lambda w: w.call(v(w), 'insert', 1, w.filler(5)), ['len1', 'len5', 'len2', 'len3']),
        ('insert last', 'insert', lambda w: w.call(v(w), 'insert', 3, w.filler(5)), L + ['len5']),
        ('pop first', 'pop', lambda w: w.call(v(w), 'pop', 0), L[1:]),
        ('pop second', 'pop', lambda w: w.call(v(w), 'pop', 1), ['len1', 'len3']),
        ('pop last', 'pop', lambda w: w.call(v(w), 'pop', 2), L[:2]),
        ('pop from the end', 'pop', lambda w: w.call(v(w), 'pop', -1), L[:2]),
        ('pop twice', 'pop', lambda w: (w.call(v(w), 'pop', 0), w.call(v(w), 'pop', 0)), L[2:]),
        ('pop and append', 'append', lambda w: (w.call(v(w), 'pop', 0), w.call(v(w), 'append', w.filler(5))), L[1:] + ['len5']),
        ('pop and insert', 'insert', lambda w: (w.call(v(w), 'pop', 1), w.call(v(w), 'insert', 0, w.filler(5))), ['len5', 'len1', 'len3']),
        ('pop and put back', 'append', lambda w: (lambda x: w.call(v(w), 'append', x))(w.call(v(w), 'pop', 0)), ['len2', 'len3', 'len1']),
        ('clear', 'clear', lambda w: w.call(v(w), 'clear'), []),
        ('clear and append', 'clear', lambda w: (w.call(v(w), 'clear'), w.call(v(w), 'append', w.filler(5))), ['len5']),
        ('replace all', 'value', lambda w: w.put(seq_of(w), 'Components', [w.filler(5), w.filler(6)]), ['len5', 'len6']),
        ('reorder', 'value', lambda w: w.put(seq_of(w), 'Components', w.m.iterate(w.get(seq_of(w), 'Components'))[::-1]), L[::-1]),
        ('replace first', '__setitem__', lambda w: w.m.set_index(v(w), 0, w.filler(5)), ['len5', 'len2', 'len3']),
        ('replace last', '__setitem__', lambda w: w.m.set_index(v(w), 2, w.filler(5)), ['len1', 'len2', 'len5']),
        ('replace from the end', '__setitem__', lambda w: w.m.set_index(v(w), -1, w.filler(5)), ['len1', 'len2', 'len5']),
        ('nested', 'append', lambda w: w.call(v(w), 'append', w.sequence(5, 6)), L + [['len5', 'len6']]),
        ('nested, filled later', 'append', lambda w: (lambda s: (w.call(v(w), 'append', s), w.call(w.prop(s, 'Components'), 'append', w.filler(6))))(w.sequence(5)), L + [['len5', 'len6']]),
        ('replaced by nested', '__setitem__', lambda w: w.m.set_index(v(w), 1, w.sequence(5, 6)), ['len1', ['len5', 'len6'], 'len3']),
    ]


def set_ops():
    def s(w):
        return w.prop(w.again(), 'Mobs')
    return [
        ('append', 'append', lambda w: w.call(s(w), 'append', w.mob(3)), [1, 2, 3]),
        ('extend', 'extend', lambda w: w.call(s(w), 'extend', [w.mob(3), w.mob(4)]), [1, 2, 3, 4]),
        ('replace one', 'append', lambda w: w.call(s(w), 'append', w.mob(1)), [1, 2]),
        ('pop', 'pop', lambda w: w.call(s(w), 'pop', w.mobid(1)), [2]),
        ('pop and append', 'append', lambda w: (w.call(s(w), 'pop', w.mobid(1)), w.call(s(w), 'append', w.mob(3))), [2, 3]),
        ('pop and put back', 'append', lambda w: (lambda x: w.call(s(w), 'append', x))(w.call(s(w), 'pop', w.mobid(1))), [1, 2]),
        ('clear', 'clear', lambda w: w.call(s(w), 'clear'), []),
        ('clear and append', 'clear', lambda w: (w.call(s(w), 'clear'), w.call(s(w), 'append', w.mob(3))), [3]),
        ('replace all', 'value', lambda w: w.put(w.again(), 'Mobs', [w.mob(3), w.mob(4)]), [3, 4]),
        ('keep one', 'value', lambda w: w.put(w.again(), 'Mobs', [mob_of(w, 2), w.mob(4)]), [2, 4]),
        ('change key', 'swap_unique_key', lambda w: w.put(mob_of(w, 1), 'MobID', w.mobid(7)), [2, 7]),
        ('change key and append', 'swap_unique_key', lambda w: (w.put(mob_of(w, 1), 'MobID', w.mobid(7)), w.call(s(w), 'append', w.mob(1))), [1, 2, 7]),
        ('same key', 'swap_unique_key', lambda w: w.put(mob_of(w, 1), 'MobID', w.mobid(1)), [1, 2]),
    ]


def value_ops():
    """(name, class, method, change, what to read, expected)"""
    def fil(w, i=0):
        return w.m.iterate(w.get(seq_of(w), 'Components'))[i]

    def slot(w):
        return w.m.iterate(w.get(mob_of(w), 'Slots'))[0]

    def ess(w):
        return w.call(w.prop(w.again(), 'EssenceData'), 'get', w.mobid(1))

    def rewrite(w, n):
        s = w.call(w.prop(ess(w), 'Data'), 'open', 'w')
        w.call(s, 'write', By([tuple(('new%d' % j, i) for i in range(8)) for j in range(n)]))

    def data(w):
        return w.call(w.call(w.prop(ess(w), 'Data'), 'open', 'r'), 'read')

    def params(w):
        return [key(w.m, w.m.getattr(x, 'auid')) for x in w.m.iterate(w.get(w.again('op'), 'ParametersDefined'))]

    def par(n):
        return const_bytes(bytes(bytearray([n] * 16)))
    new = lambda n: By([tuple(('new%d' % j, i) for i in range(8)) for j in range(n)])
    return [
        ('number', 'Property', 'value', lambda w: w.put(slot(w), 'Origin', w.length(8)), lambda w: w.get(slot(w), 'Origin'), lambda w: w.length(8)),
        ('number of an element', 'Property', 'value', lambda w: w.put(fil(w), 'Length', w.length(8)), lambda w: mark(w, fil(w)), lambda w: 'len8'),
        ('optional value added', 'Property', 'value', lambda w: w.put(slot(w), 'SlotName', 'abc'), lambda w: w.get(slot(w), 'SlotName'), lambda w: 'abc'),
        ('shorter text', 'Property', 'value', lambda w: w.put(mob_of(w), 'Name', 'm'), lambda w: w.get(mob_of(w), 'Name'), lambda w: 'm'),
        ('value removed', 'Property', 'value', lambda w: w.put(fil(w), 'Length', None), lambda w: 'Length' in names(w, fil(w)), lambda w: False),
        ('property deleted', 'AAFObject', '__delitem__', lambda w: w.call(fil(w), '__delitem__', 'Length'), lambda w: 'Length' in names(w, fil(w)), lambda w: False),
        ('encoded data', 'Property', 'set_data', lambda w: w.call(w.prop(fil(w), 'Length'), 'set_data', By([tuple(('len8', 8 * j + i) for i in range(8)) for j in range(8)])), lambda w: mark(w, fil(w)), lambda w: 'len8'),
        ('strong reference', 'StrongRefProperty', 'value', lambda w: w.put(slot(w), 'Segment', w.filler(8)), lambda w: mark(w, w.get(slot(w), 'Segment')), lambda w: 'len8'),
        ('strong reference to a tree', 'StrongRefProperty', 'value', lambda w: w.put(slot(w), 'Segment', w.sequence(8, 9)), lambda w: marks(w, w.get(slot(w), 'Segment')), lambda w: ['len8', 'len9']),
        ('strong reference twice', 'StrongRefProperty', 'value', lambda w: (w.put(slot(w), 'Segment', w.sequence(5)), w.put(slot(w), 'Segment', w.sequence(8, 9))), lambda w: marks(w, w.get(slot(w), 'Segment')), lambda w: ['len8', 'len9']),
        ('strong reference removed and set', 'StrongRefProperty', 'value', lambda w: (w.put(slot(w), 'Segment', None), w.put(slot(w), 'Segment', w.filler(8))), lambda w: mark(w, w.get(slot(w), 'Segment')), lambda w: 'len8'),
        ('strong reference to itself', 'StrongRefProperty', 'value', lambda w: w.put(slot(w), 'Segment', seq_of(w)), lambda w: marks(w, seq_of(w)), lambda w: ['len1', 'len2', 'len3']),
        ('weak reference', 'WeakRefProperty', 'value', lambda w: w.put(fil(w), 'DataDefinition', w.defs('DataDefinitions')[1]), lambda w: w.m.getattr(w.get(fil(w), 'DataDefinition'), 'name'), lambda w: 'Sound'),
        ('weak references added', 'WeakRefArrayProperty', 'append', lambda w: w.call(w.prop(w.again('op'), 'ParametersDefined'), 'append', w.defs('ParameterDefinitions')[1]), params, lambda w: [par(0x60), par(0x61)]),
        ('weak references replaced', 'WeakRefArrayProperty', 'value', lambda w: w.put(w.again('op'), 'ParametersDefined', w.defs('ParameterDefinitions')[1:]), params, lambda w: [par(0x61)]),
        ('weak references cleared', 'WeakRefArrayProperty', 'clear', lambda w: w.call(w.prop(w.again('op'), 'ParametersDefined'), 'clear'), params, lambda w: []),
        ('stream rewritten', 'StreamProperty', 'open', lambda w: rewrite(w, 2), data, lambda w: new(2)),
        ('stream rewritten longer', 'StreamProperty', 'open', lambda w: rewrite(w, 5), data, lambda w: new(5)),
        ('identifier of essence', 'StrongRefSetProperty', 'swap_unique_key', lambda w: w.put(ess(w), 'MobID', w.mobid(6)), lambda w: keys_of(w, w.again(), 'EssenceData'), lambda w: [6]),
    ]


def names(w, o):
    return [w.m.getattr(p, 'name') for p in w.m.iterate(w.call(o, 'properties'))]


def alike(m, a, b):
    return equal(m, a, b) is None


def reread(m, w, where=('o', 'op')):
    """saved and opened again, the file holds what memory holds; what differs otherwise"""
    here = [describe(m, w, w.again(n)) for n in where]
    w.save()
    g = w.reopen()
    for n, a in zip(where, here):
        r = equal(m, a, describe(m, g, g.again(n)))
        if r:
            return 'after saving and reopening: ' + r
    return None



def judge(J, name, at, fn, msg):
    """fn(m) gives None when all is well, else what is wrong"""
    if at is None:
        return None
    if time.time() - J.cx.typed_start > BUDGET:
        J.cx.unk(J.rule, name, 'not reached in the time a check has')
        return None
    return J.run(name, at, fn, lambda m, v: v is None, msg)


def show(w, o):
    return describe(w.m, w, o)


def state(w, *objs):
    """everything an operation could change: contents, owners, storage and what is queued"""
    return ([show(w, w.again(n)) for n in ('o', 'op')], [o.at.get('dir') for o in objs], len(w.storage.log), [q[0] for q in w.modified().p], table(w))


def table(w):
    t = w.obj.at['weakref_table']
    return [list(x) for x in t] if isinstance(t, list) else t


def changed(w, a, objs):
    """what differs from the recorded state"""
    b = state(w, *objs)
    for x, y in zip(a[0], b[0]):
        r = equal(w.m, x, y)
        if r:
            return r
    for x, y in zip(a[1], b[1]):
        if x is not y:
            return 'the object has another place'
    if a[2] != b[2]:
        return 'the storage: %s of %s' % (w.storage.log[a[2]][0], w.storage.log[a[2]][1].where())
    if a[3] != b[3]:
        return 'what is queued for the next save'
    if a[4] != b[4]:
        return 'the table of weak references'
    return None


def refused(w, fn, *objs):
    """fn must fail and leave everything as it was"""
    a = state(w, *objs)
    try:
        fn()
    except AbsRaise:
        pass
    else:
        return 'it is accepted'
    r = changed(w, a, objs)
    return 'although refused it changes ' + r if r else None


def raises(fn):
    try:
        fn()
    except AbsRaise:
        return True
    return False


# -- C02: what is saved -----------------------------------------------------------------------------
def saved(m, kind, change, read=None, want=None):
    w = base(m, kind)
    change(w)
    r = reread(m, w)
    if r is None and read is not None:
        g = w.reopen()
        if not alike(m, want(g), read(g)):
            return 'after saving and reopening the value is another one'
    return r


def twice(m, kind, first, second):
    """a change, a save, another change, a save: the second one is in the file as well"""
    w = base(m, kind)
    first(w)
    w.save()
    second(w)
    return reread(m, w)


def C02(cx):
    J = machine(cx)
    J.rule = 'C02.saved'
    msg = 'the change is not in the file that was saved'
    ok = J.run('the objects of a new file', where(cx, 'AAFObject', 'write_properties'), lambda m: base(m, 'live') and None, lambda m, v: v is None, 'a file with mobs, slots and essence cannot be saved')
    if not ok:
        return
    ops = []
    for name, meth, change, want in vector_ops():
        ops.append(('vector ' + name, 'StrongRefVectorProperty', meth, change, lambda w: marks(w, seq_of(w)), lambda w, want=want: want))
    for name, meth, change, want in set_ops():
        ops.append(('set ' + name, 'StrongRefSetProperty', meth, change, lambda w: keys_of(w, w.again(), 'Mobs'), lambda w, want=want: want))
    for name, cls, meth, change, read, want in value_ops():
        ops.append((name, cls, meth, change, read, want))
    for kind in ('live', 'read'):
        for name, cls, meth, change, read, want in ops:
            judge(J, '%s, %s' % (name, kind), where(cx, cls, meth), lambda m: saved(m, kind, change, read, want), msg)
    J.rule = 'C02.saved-again'
    pick = [o for o in ops if o[0] in ('vector append', 'vector pop first', 'vector replace first', 'set append', 'set pop', 'number', 'strong reference to a tree', 'weak references added', 'stream rewritten')]
    for i, a in enumerate(pick):
        for b in (pick if cx.tier == 'thorough' else (a, pick[(i + 1) % len(pick)], pick[(i + 4) % len(pick)])):
            if not (a is b and a[0] in ('set append', 'weak references added')) and a[0] != 'set pop':
                judge(J, '%s, save, %s' % (a[0], b[0]), where(cx, b[1], b[2]), lambda m: twice(m, 'read', a[3], b[3]), 'the second change is not in the file that was saved')


# -- C12: owners and refusals -----------------------------------------------------------------------
def C12(cx):
    J = machine(cx)
    J.rule = 'C12.contents'
    for kind in ('live', 'read'):
        for name, meth, change, want in vector_ops():
            def fn(m):
                w = base(m, kind)
                change(w)
                got = marks(w, seq_of(w))
                return None if got == want else 'the elements are %s, not %s' % (got, want)
            judge(J, 'vector %s, %s' % (name, kind), where(cx, 'StrongRefVectorProperty', meth), fn, 'the collection does not hold what was asked for')
        for name, meth, change, want in set_ops():
            def fn(m):
                w = base(m, kind)
                change(w)
                got = keys_of(w, w.again(), 'Mobs')
                return None if got == want else 'the keys are %s, not %s' % (got, want)
            judge(J, 'set %s, %s' % (name, kind), where(cx, 'StrongRefSetProperty', meth), fn, 'the collection does not hold what was asked for')
    J.rule = 'C12.refused'
    for kind in ('live', 'read'):
        for name, cls, meth, fn in refusals(kind):
            judge(J, '%s, %s' % (name, kind), where(cx, cls, meth), fn, 'an object is taken over, or a refused operation leaves traces')
    J.rule = 'C12.removed'
    for kind in ('live', 'read'):
        for name, cls, meth, take, rest in removals():
            judge(J, '%s, %s' % (name, kind), where(cx, cls, meth), lambda m: removed(m, kind, take, rest), 'a removed object keeps its place')


def refusals(kind):
    """(name, class, method, obligation): operations that must be refused"""
    def op(change, other=False):
        def fn(m):
            w = base(m, kind)
            o = base(m, 'live') if other else w
            x, do = change(w, o)
            xs = x if isinstance(x, list) else [x]
            return refused(w, do, *[y for y in xs if isinstance(y, Obj)])
        return fn

    def vec(w):
        return w.prop(seq_of(w), 'Components')

    def mobs(w):
        return w.prop(w.again(), 'Mobs')

    def first(w):
        return w.get(mob_of(w), 'Slots')[0]

    def ref(w):
        return w.prop(first(w), 'Segment')
    V, S_, R, K = 'StrongRefVectorProperty', 'StrongRefSetProperty', 'StrongRefProperty', 'WeakRefArrayProperty'

    def two(f):
        return lambda w, o: (lambda x: (x, f(w, x)))
    out = []

    def add(name, cls, meth, make, do, other=False):
        def change(w, o):
            x = make(w, o)
            p = do(w)
            return x, lambda: p(x)
        out.append((name, cls, meth, op(change, other)))
    kinds = [('an attached object', lambda w, o: w.m.iterate(w.get(seq_of(w, 2), 'Components'))[0], False),
             ('an object of another file', lambda w, o: o.filler(5), True),
             ('an object of the wrong class', lambda w, o: w.mob(5), False)]
    for kn, make, other in kinds:
        add('vector append of ' + kn, V, 'append', make, lambda w: (lambda p: lambda x: w.call(p, 'append', x))(vec(w)), other)
        add('vector insert of ' + kn, V, 'insert', make, lambda w: (lambda p: lambda x: w.call(p, 'insert', 1, x))(vec(w)), other)
        add('vector item set to ' + kn, V, '__setitem__', make, lambda w: (lambda p: lambda x: w.m.set_index(p, 1, x))(vec(w)), other)
        add('vector set to a list with ' + kn, V, 'value', make, lambda w: (lambda p, n: lambda x: w.m.setattr(p, 'value', [n, x]))(vec(w), w.filler(7)), other)
        add('vector extended by ' + kn, V, 'extend', lambda w, o, make=make: [w.filler(7), make(w, o)], lambda w: (lambda p: lambda x: w.call(p, 'extend', x))(vec(w)), other)
        add('reference set to ' + kn, R, 'value', make, lambda w: (lambda p: lambda x: w.m.setattr(p, 'value', x))(ref(w)), other)
    skinds = [('an object of another file', lambda w, o: o.mob(5), True),
              ('an object of the wrong class', lambda w, o: w.essence(5), False),
              ('an object without a key', lambda w, o: w.new('ContentStorage'), False)]
    for kn, make, other in skinds:
        add('set append of ' + kn, S_, 'append', make, lambda w: (lambda p: lambda x: w.call(p, 'append', x))(mobs(w)), other)
        add('set extended by ' + kn, S_, 'extend', lambda w, o, make=make: [w.mob(7), make(w, o)], lambda w: (lambda p: lambda x: w.call(p, 'extend', x))(mobs(w)), other)
        add('set replaced by ' + kn, S_, 'value', lambda w, o, make=make: [w.mob(7), make(w, o)], lambda w: (lambda p: lambda x: w.m.setattr(p, 'value', x))(mobs(w)), other)
    wkinds = [('an object of another file', lambda w, o: o.defs('ParameterDefinitions')[1], True), ('an object of the wrong class', lambda w, o: w.defs('DataDefinitions')[1], False)]
    for kn, make, other in wkinds:
        add('weak references extended by ' + kn, K, 'extend', lambda w, o, make=make: [w.defs('ParameterDefinitions')[1], make(w, o)], lambda w: (lambda p: lambda x: w.call(p, 'extend', x))(w.prop(w.again('op'), 'ParametersDefined')), other)
        add('weak references replaced by ' + kn, K, 'value', lambda w, o, make=make: [w.defs('ParameterDefinitions')[1], make(w, o)], lambda w: (lambda p: lambda x: w.m.setattr(p, 'value', x))(w.prop(w.again('op'), 'ParametersDefined')), other)
    for kn, make, other in [('an object of another file', lambda w, o: o.defs('DataDefinitions')[1], True), ('an object of the wrong class', lambda w, o: w.defs('ParameterDefinitions')[1], False)]:
        add('weak reference set to ' + kn, 'WeakRefProperty', 'value', make, lambda w: (lambda p: lambda x: w.m.setattr(p, 'value', x))(w.prop(w.m.iterate(w.get(seq_of(w), 'Components'))[0], 'DataDefinition')), other)
    add('identifier set to one that is taken', S_, 'swap_unique_key', lambda w, o: w.mobid(2), lambda w: (lambda p: lambda x: w.m.setattr(p, 'value', x))(w.prop(mob_of(w), 'MobID')))
    add('pop of an index that is not there', V, 'pop', lambda w, o: 3, lambda w: (lambda p: lambda x: w.call(p, 'pop', x))(vec(w)))
    add('item set past the end', V, '__setitem__', lambda w, o: w.filler(5), lambda w: (lambda p: lambda x: w.m.set_index(p, 3, x))(vec(w)))
    add('pop of a key that is not there', S_, 'pop', lambda w, o: w.mobid(9), lambda w: (lambda p: lambda x: w.call(p, 'pop', x))(mobs(w)))
    return out


def removals():
    """(name, class, method, take(w) -> removed objects, [(object, where it can go again)])"""
    def comps(w):
        return w.m.iterate(w.get(seq_of(w), 'Components'))

    def vec(w):
        return w.prop(seq_of(w), 'Components')

    def took(f, after):
        def go(w):
            x = f(w)
            after(w)
            return x if isinstance(x, list) else [x]
        return go

    def slot(w):
        return w.get(mob_of(w), 'Slots')[0]

    def back(w, xs):
        w.call(w.prop(seq_of(w, 2), 'Components'), 'extend', xs)
        return marks(w, seq_of(w, 2))[3:], [mark(w, x) for x in xs]

    def mback(w, xs):
        w.call(w.prop(w.again(), 'Mobs'), 'extend', xs)
        k = keys_of(w, w.again(), 'Mobs')
        return [n for n in k if n in ids(w, xs)], sorted(ids(w, xs))

    def ids(w, xs):
        return [sum(b << i for i, b in enumerate(key(w.m, w.get(x, 'MobID')).v[0]) if b in (0, 1)) for x in xs]

    def eback(w, xs):
        w.call(w.prop(w.again(), 'EssenceData'), 'extend', xs)
        r = w.call(w.prop(xs[0], 'Data'), 'open', 'r')
        return len(w.call(r, 'read').v), 3

    def ess(w):
        return w.call(w.prop(w.again(), 'EssenceData'), 'get', w.mobid(1))

    def sback(w, xs):
        s = w.get(mob_of(w, 2), 'Slots')[1]
        w.put(s, 'Segment', xs[0])
        return marks(w, w.get(s, 'Segment')), marks(w, xs[0])
    V, S_, R = 'StrongRefVectorProperty', 'StrongRefSetProperty', 'StrongRefProperty'
    return [
        ('popped from a vector', V, 'pop', lambda w: [w.call(vec(w), 'pop', 1)], back),
        ('cleared out of a vector', V, 'clear', took(comps, lambda w: w.call(vec(w), 'clear')), back),
        ('replaced in a vector', V, '__setitem__', took(lambda w: comps(w)[0], lambda w: w.m.set_index(vec(w), 0, w.filler(7))), back),
        ('replaced by a new list', V, 'value', took(comps, lambda w: w.put(seq_of(w), 'Components', [w.filler(7)])), back),
        ('left out of a new list', V, 'value', took(lambda w: comps(w)[:2], lambda w: w.put(seq_of(w), 'Components', comps(w)[2:])), back),
        ('property of a vector removed', V, 'remove_pid_entry', took(comps, lambda w: w.put(seq_of(w), 'Components', None)), back),
        ('property of a vector deleted', 'AAFObject', '__delitem__', took(comps, lambda w: w.call(seq_of(w), '__delitem__', 'Components')), back),
        ('popped from a set', S_, 'pop', lambda w: [w.call(w.prop(w.again(), 'Mobs'), 'pop', w.mobid(1))], mback),
        ('cleared out of a set', S_, 'clear', took(lambda w: w.m.iterate(w.get(w.again(), 'Mobs')), lambda w: w.call(w.prop(w.again(), 'Mobs'), 'clear')), mback),
        ('replaced in a set', S_, 'append', took(lambda w: mob_of(w), lambda w: w.call(w.prop(w.again(), 'Mobs'), 'append', w.mob(1))), mback),
        ('left out of a new set', S_, 'value', took(lambda w: mob_of(w), lambda w: w.put(w.again(), 'Mobs', [mob_of(w, 2)])), mback),
        ('property of a set removed', S_, 'remove_pid_entry', took(lambda w: mob_of(w), lambda w: w.put(w.again(), 'Mobs', None)), mback),
        ('essence popped', S_, 'pop', lambda w: [w.call(w.prop(w.again(), 'EssenceData'), 'pop', w.mobid(1))], eback),
        ('essence replaced', S_, 'append', took(ess, lambda w: w.call(w.prop(w.again(), 'EssenceData'), 'append', w.essence(1))), eback),
        ('replaced reference', R, 'value', took(lambda w: w.get(slot(w), 'Segment'), lambda w: w.put(slot(w), 'Segment', w.filler(7))), sback),
        ('removed reference', R, 'remove_pid_entry', took(lambda w: w.get(slot(w), 'Segment'), lambda w: w.put(slot(w), 'Segment', None)), sback),
        ('deleted reference', 'AAFObject', '__delitem__', took(lambda w: w.get(slot(w), 'Segment'), lambda w: w.call(slot(w), '__delitem__', 'Segment')), sback),
    ]


def below(w, o):
    """the objects of a tree"""
    return [w.m.iterate(x)[0] for x in w.m.iterate(w.call(o, 'walk_references'))]


def removed(m, kind, take, rest):
    w = base(m, kind)
    xs = take(w)
    for x in xs:
        for y in below(w, x):
            if y.at.get('dir') is not None:
                return 'an object of the removed tree still has a place in the file'
    paths = [q[0] for q in w.modified().p]
    for x in xs:
        if any(q[1] is x for q in w.modified().p):
            return 'a removed object is still queued for the next save'
    before = [show(w, x) for x in xs]
    a, b = rest(w, xs)
    if a != b:
        return 'put in again it is not found'
    for x in xs:
        for y in below(w, x):
            if y.at.get('dir') is None:
                return 'put in again, an object of the tree has no place in the file'
    for x, d in zip(xs, before):
        r = equal(m, d, show(w, x))
        if r:
            return 'put in again it is different: ' + r
    fill(w)
    return reread(m, w)


def fill(w):
    """required properties an operation took away"""
    if w.call(w.prop(w.again(), 'Mobs'), 'get', w.mobid(1)) is None:
        return
    q = w.get(mob_of(w), 'Slots')[0]
    if 'Segment' not in names(w, q):
        w.put(q, 'Segment', w.sequence(8, 9))
    q = w.get(q, 'Segment')
    if q.cls.name == 'Sequence' and 'Components' not in names(w, q):
        w.put(q, 'Components', [w.filler(8)])


# -- C13: local keys and names ------------------------------------------------------------------------
def places(w, o):
    """[(collection, directory name, object)] of the elements of an object's strong collections"""
    out = []
    for p in w.m.iterate(w.call(o, 'properties')):
        if p.cls.name in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
            for x in w.m.iterate(w.m.getattr(p, 'value')):
                d = x.at.get('dir')
                out.append((p.at.get('pid'), d.dir.name if d is not None else None, x))
    return out


def C13(cx):
    J = machine(cx)
    J.rule = 'C13.names'
    A, I, P, R, E = 'append', 'insert', 'pop', 'replace', 'reopen'
    plans = [(A, A), (A, P, A), (P, A, P, A), (A, E, A), (P, E, A), (A, P, E, A, A), (I, I, A), (P, I, A), (R, A), (P, R, A), (I, P, E, I, R, A), (A, A, P, P, A), (P, P, P, A, A)]
    for what, cls in (('vector', 'StrongRefVectorProperty'), ('set', 'StrongRefSetProperty')):
        for plan in plans:
            if what == 'set' and I in plan:
                continue
            judge(J, '%s: %s' % (what, ', '.join(plan)), where(cx, cls, 'extend'), lambda m: history(m, what, plan), 'two elements of one collection get the same name')


def history(m, what, plan):
    w = base(m, 'read')
    used, live = {}, {}
    n = [0]

    def look():
        o = seq_of(w) if what == 'vector' else w.again()
        got = [(nm, x) for pid, nm, x in places(w, o) if x.cls.name != 'EssenceData']
        names_ = [nm for nm, x in got]
        if None in names_:
            return 'an element has no place in the file'
        if not all(isinstance(nm, str) for nm in names_):
            raise Unk('name of an element')
        if len(set(names_)) != len(names_):
            return 'two elements are stored as %s' % [nm for nm in names_ if names_.count(nm) > 1][0]
        now = {}
        for nm, x in got:
            k = ident(x)
            now[nm] = k
            if nm in used and used[nm] != k and repl.get(nm) != k:
                return 'the name %s of an element that was there before is given to another one' % nm
            used[nm] = k
        return None

    def ident(x):
        return mark(w, x) if what == 'vector' else keynum(w, x)
    repl = {}
    r = look()
    for step in plan:
        if r:
            return r
        n[0] += 1
        if what == 'vector':
            p = w.prop(seq_of(w), 'Components')
            if step == 'append':
                w.call(p, 'append', w.filler(10 + n[0]))
            elif step == 'insert':
                w.call(p, 'insert', 0, w.filler(10 + n[0]))
            elif step == 'pop':
                if len(w.m.iterate(w.m.getattr(p, 'value'))):
                    w.call(p, 'pop', 0)
            elif step == 'replace':
                d = w.m.iterate(w.m.getattr(p, 'value'))[0].at['dir'].dir.name
                repl[d] = 'len%d' % (10 + n[0])
                w.m.set_index(p, 0, w.filler(10 + n[0]))
        else:
            p = w.prop(w.again(), 'Mobs')
            ks = keys_of(w, w.again(), 'Mobs')
            if step == 'append':
                w.call(p, 'append', w.mob(10 + n[0]))
            elif step == 'pop' and ks:
                w.call(p, 'pop', w.mobid(ks[0]))
            elif step == 'replace' and ks:
                w.call(p, 'append', w.mob(ks[0]))
        if step == 'reopen':
            w.save()
            w = w.reopen()
        r = look()
    return r or reread(m, w)


def keynum(w, x):
    return sum(b << i for i, b in enumerate(key(w.m, w.m.getattr(x, 'unique_key')).v[0]) if b in (0, 1))


# -- C14: copies, detaching and attaching ---------------------------------------------------------------
def shared(w, a, b):
    """an object (or stream) both trees own"""
    xs = below(w, a)
    for y in below(w, b):
        if any(x is y for x in xs):
            return True
    return False


def C14(cx):
    J = machine(cx)
    J.rule = 'C14.copy'
    picks = [('mob', lambda w: mob_of(w)), ('sequence', seq_of), ('slot', lambda w: w.get(mob_of(w), 'Slots')[0]), ('essence', lambda w: w.call(w.prop(w.again(), 'EssenceData'), 'get', w.mobid(1))),
             ('operation definition', lambda w: w.again('op')), ('content', lambda w: w.again())]
    at = where(cx, 'AAFObject', 'copy')
    for kind in ('live', 'read', 'readonly'):
        for name, pick in picks:
            def same_root(m):
                w = base(m, kind)
                o = pick(w)
                a = show(w, o)
                c = w.call(o, 'copy')
                return compare(m, w, w, o, a, c)

            def other_root(m):
                w = base(m, kind)
                g = base(m, 'new')
                o = pick(w)
                a = show(w, o)
                c = w.call(o, 'copy', root=g.obj)
                return compare(m, w, g, o, a, c)
            if kind != 'readonly':
                judge(J, '%s, %s' % (name, kind), at, same_root, 'a copy is not what was copied')
            if name != 'operation definition':
                judge(J, '%s to another file, %s' % (name, kind), at, other_root, 'a copy is not what was copied')
    J.rule = 'C14.copy-attached'
    for name, put in (('mob', lambda w, g, c: w.call(w.prop(w.again(), 'Mobs'), 'append', c)),):
        for kind in ('live', 'read'):
            def fn(m):
                w = base(m, kind)
                c = w.call(mob_of(w), 'copy')
                w.put(c, 'MobID', w.mobid(8))
                a = show(w, c)
                put(w, w, c)
                r = equal(m, a, show(w, c))
                if r:
                    return 'attached it is different: ' + r
                b = show(w, mob_of(w))
                w.call(w.prop(w.get(w.get(c, 'Slots')[0], 'Segment'), 'Components'), 'pop', 0)
                r = equal(m, b, show(w, mob_of(w)))
                if r:
                    return 'a change of the copy changes the original: ' + r
                return reread(m, w)
            judge(J, '%s, %s' % (name, kind), at, fn, 'a copy cannot be saved in the file')
    for kind in ('live', 'read', 'readonly'):
        def fn(m):
            w = base(m, kind)
            g = base(m, 'new')
            h = g.get(g.obj.at['root'], 'Header')
            a = show(w, w.again())
            g.put(h, 'Content', w.call(w.again(), 'copy', root=g.obj))
            r = likeness(m, w, g, a, show(g, g.again()))
            if r:
                return 'attached in the other file it is different: ' + r
            b = show(g, g.again())
            g.save()
            k = g.reopen()
            r = equal(m, b, show(k, k.again()))
            return r and 'in the other file, saved and reopened: ' + r
        judge(J, 'content to another file and saved, %s' % kind, at, fn, 'a copy cannot be saved in the other file')
    J.rule = 'C14.detach-attach'
    for kind in ('live', 'read'):
        for name, pick in picks[:4]:
            def fn(m):
                w = base(m, kind)
                o = pick(w)
                a = show(w, o)
                w.call(o, 'detach')
                xs = below(w, o)
                if any(x.at.get('dir') is not None for x in xs):
                    return 'an object of the detached tree still has a place in the file'
                if any(q[1] is x for q in w.modified().p for x in xs):
                    return 'an object of the detached tree is still queued for the next save'
                r = equal(m, a, show(w, o)) if name != 'essence' else None
                if r:
                    return 'detached it is different: ' + r
                w.attach(o, 'again')
                if any(x.at.get('dir') is None for x in below(w, o)):
                    return 'attached again, an object of the tree has no place in the file'
                for x in below(w, o):
                    if not any(q[1] is x for q in w.modified().p):
                        return 'attached again, an object of the tree is not queued for the next save'
                r = equal(m, a, show(w, o))
                if r:
                    return 'attached again it is different: ' + r
                w.save()
                g = w.reopen()
                r = equal(m, a, show(g, g.again('again')))
                return r and 'attached again, saved and reopened it is different: ' + r
            judge(J, '%s, %s' % (name, kind), where(cx, 'AAFObject', 'detach'), fn, 'detaching and attaching loses something')


def likeness(m, w, g, a, b):
    """equal, with the tables of weak references and names of the two files taken into account"""
    return equal(m, a, b)


def compare(m, w, g, o, a, c):
    if c is o:
        return 'it is the object itself'
    r = equal(m, a, show(w, o))
    if r:
        return 'copying changes the original: ' + r
    if shared(w, o, c):
        return 'the copy shares an object with the original'
    if c.at.get('dir') is not None:
        return 'the copy claims a place in the file'
    for x in below(g, c):
        if x.at.get('root') is not g.obj:
            return 'an object of the copy belongs to another file'
    return likeness(m, w, g, a, show(g, c))


# -- C15, C19: definitions of another file ----------------------------------------------------------------
def xid(n, kind='0101'):
    return 'f0f1f2f3-%s-0000-060e-2b34010101%02x' % (kind, n)


def extension():
    """types of every category and a chain of classes that uses them: (types, classes)"""
    u8, u16, s64, ch = '01010100-0000-0000-060e-2b3401040101', '01010200-0000-0000-060e-2b3401040101', '01010800-0000-0000-060e-2b3401040101', '01100100-0000-0000-060e-2b3401040101'
    t = lambda n: xid(n, '0401')
    types_ = {
        'ints': D([['XInt', (t(1), 2, True)]]),
        'enums': D([['XEnum', (t(2), u8, D([[0, 'zero'], [3, 'three']]))]]),
        'records': D([['XRec', (t(3), (('a', u8), ('b', t(1)), ('c', t(2))))]]),
        'fixed_arrays': D([['XFix', (t(4), t(3), 3)]]),
        'var_arrays': D([['XVar', (t(5), t(2))], ['XRefs', (t(12), t(9))]]),
        'renames': D([['XRen', (t(6), t(3))]]),
        'strings': D([['XStr', (t(7), ch)]]),
        'extenums': D([['XExt', (t(8), D([[xid(0x31), 'one'], [xid(0x32), 'two']]))]]),
        'strongrefs': D([['XOwn', (t(9), xid(0x21, '0201'))]]),
        'weakrefs': D([['XWeak', (t(10), '0d010101-0101-1b00-060e-2b3402060101', ('0d010301-0102-0100-060e-2b3401010102', '06010104-0202-0000-060e-2b3401010102', '06010104-0502-0000-060e-2b3401010102'))]]),
        'sets': D([['XSet', (t(11), u16)]]),
    }
    p = lambda n: xid(n, '0301')
    classes = [
        ('XBase', (xid(0x20, '0201'), 'InterchangeObject', False, D([['First', (p(1), None, t(3), True, False)], ['Code', (p(2), None, t(2), True, False)], ['Fixed', (p(3), 0x7123, u8, True, False)]]))),
        ('XMid', (xid(0x21, '0201'), xid(0x20, '0201'), True, D([['Key', (p(4), None, '01030100-0000-0000-060e-2b3401040101', False, True)], ['Row', (p(5), None, t(4), True, False)]]))),
        ('XLeaf', (xid(0x22, '0201'), xid(0x21, '0201'), False, D([['Many', (p(6), None, t(5), True, False)], ['Alias', (p(7), None, t(6), True, False)], ['Text', (p(8), None, t(7), False, False)],
                                                                  ['Kind', (p(9), None, t(8), True, False)], ['Part', (p(10), None, t(9), True, False)], ['Parts', (p(11), None, t(12), True, False)],
                                                                  ['Data', (p(12), None, t(10), True, False)], ['Bag', (p(13), None, t(11), True, False)], ['Small', (p(14), None, t(1), True, False)]]))),
        ('XTop', (xid(0x23, '0201'), xid(0x22, '0201'), True, D([['Last', (p(15), None, u8, True, False)]]))),
    ]
    return types_, classes


def extended(m):
    """a file that knows the extension"""
    if isinstance(m.snaps.get('extended'), Exception):
        raise m.snaps['extended']

    def make():
        w = base(m, 'new')
        types_, classes = extension()
        w.call(w.md, 'register_typedef_model', D(types_.items()))
        for n, a in classes:
            w.call(w.md, 'register_classdef', n, *a)
        m.snaps['extended'] = w
    if 'extended' not in m.snaps:
        prepared(m, 'extended', make)
    return clone(m.snaps['extended'], {})


def crowded(m):
    """a file whose own numbers are the ones the extension uses elsewhere"""
    w = base(m, 'new')
    for i in range(3):
        w.call(w.md, 'register_classdef', 'YClass%d' % i, xid(0x40 + i, '0201'), 'InterchangeObject', True, D([['P%d%d' % (i, j), (xid(0x50 + 8 * i + j, '0301'), None, '01010100-0000-0000-060e-2b3401040101', True, False)] for j in range(2)]))
    return w


def classdef(w, n):
    return w.call(w.md, 'lookup_classdef', n)


def typedef(w, n):
    return w.call(w.md, 'lookup_typedef', n)


def attrs(w, o):
    """the stored properties of a definition, property numbers given by a file left out"""
    d = describe(w.m, w, o)
    return strip(d, o)


def strip(d, o=None):
    if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == 'obj':
        out = []
        for pid, n, fmt, c in d[2]:
            if pid == 0x0D and isinstance(c, By) and len(c.v) == 2 and const_of(c) is not None and const_of(c) >= 0x8000:
                c = 'dynamic'
            if n == 'StrongRefSetProperty':
                c = [(k, strip(x)) for k, x in c]
            elif n == 'StrongRefVectorProperty':
                c = [strip(x) for x in c]
            elif n == 'StrongRefProperty':
                c = strip(c)
            out.append((pid, n, fmt, c))
        return ('obj', d[1], out)
    return d


def const_of(b):
    bits = [i for x in b.v for i in x]
    if any(i not in (0, 1) for i in bits):
        return None
    return sum(i << k for k, i in enumerate(bits))


CHAIN = ('XBase', 'XMid', 'XLeaf', 'XTop')
XTYPES = ('XInt', 'XEnum', 'XRec', 'XFix', 'XVar', 'XRen', 'XStr', 'XExt', 'XOwn', 'XWeak', 'XSet', 'XRefs')


def dynamic(w):
    """[(number, property)] of all classes of a file"""
    out, seen = [], []
    for q in w.md.at['classdefs_by_auid'].p:
        c = q[1]
        if any(c is x for x in seen):
            continue
        seen.append(c)
        for p in w.m.iterate(w.m.getattr(c, 'propertydefs')):
            n = w.m.getattr(p, 'pid')
            if not isinstance(n, int):
                raise Unk('number')
            if n >= 0x8000:
                out.append((n, p))
    return out


def numbers(w):
    ns = [n for n, p in dynamic(w)]
    twice_ = [n for n in ns if ns.count(n) > 1]
    if twice_:
        return 'the number 0x%04X is given to two properties' % twice_[0]
    if any(n > 0xFFFF for n in ns):
        return 'a number is outside the dynamic range'
    return None


def counts(w):
    return [len(w.m.iterate(w.get(w.md, n))) for n in ('ClassDefinitions', 'TypeDefinitions')] + [len(dynamic(w))]


def external(m, make, what, first=None):
    """register a class of another file and compare everything it brings along"""
    w, g = extended(m), make(m)
    if first:
        w.call(g.md, 'register_external_classdef', classdef(w, first))
    src = classdef(w, what)
    a = [attrs(w, classdef(w, n)) for n in CHAIN]
    r = w.call(g.md, 'register_external_classdef', src)
    mine = CHAIN[:CHAIN.index(what) + 1]
    if r is not classdef(g, what):
        return 'the definition that is returned is not the one that is registered'
    for n, d in zip(CHAIN, a):
        c = classdef(g, n)
        if c is None:
            if n in mine:
                return 'class %s is not registered' % n
            continue
        if c.at.get('root') is not g.obj:
            return 'class %s belongs to the other file' % n
        if classdef(g, w.m.getattr(classdef(w, n), 'auid')) is not c:
            return 'class %s is not found by its identifier' % n
        q = equal(m, d, attrs(g, c))
        if q:
            return 'class %s is different: %s' % (n, q)
        ks = [key(m, w.m.getattr(x, 'auid')) for x in w.m.iterate(w.m.getattr(c, 'propertydefs'))]
        for x in w.m.iterate(w.m.getattr(c, 'propertydefs')):
            y = w.call(c, 'get_propertydef_from_pid', w.m.getattr(x, 'pid'))
            if y is not x:
                return 'a property of class %s is not found by its number' % n
            t, s = w.m.getattr(x, 'typedef'), None
            if t is None:
                return 'the type of a property of class %s is missing' % n
    for q in w.m.iterate(w.get(g.md, 'TypeDefinitions')):
        n = w.m.getattr(q, 'type_name')
        if n in XTYPES:
            if q.at.get('root') is not g.obj:
                return 'type %s belongs to the other file' % n
            if typedef(g, n) is not q or typedef(g, w.m.getattr(q, 'auid')) is not q:
                return 'type %s is not found by its name and identifier' % n
            if q.cls is not typedef(w, n).cls:
                return 'type %s is of another kind' % n
            e = equal(m, attrs(w, typedef(w, n)), attrs(g, q))
            if e:
                return 'type %s is different: %s' % (n, e)
    if what in ('XLeaf', 'XTop'):
        for n in XTYPES:
            if typedef(g, n) is None:
                return 'type %s is not registered' % n
    e = numbers(g)
    if e:
        return e
    k = counts(g)
    if w.call(g.md, 'register_external_classdef', src) is not r:
        return 'a second copy does not find the first'
    if counts(g) != k:
        return 'a second copy adds definitions'
    for n, d in zip(CHAIN, a):
        e = equal(m, d, attrs(w, classdef(w, n)))
        if e:
            return 'the original of class %s is changed: %s' % (n, e)
    return None


def translated(m, make):
    """an object with properties of the extension, copied to a file with other numbers"""
    w, g = extended(m), make(m)
    o = w.new('XTop') if False else w.call(w.obj.at['create'], 'from_name', 'XTop')
    w.put(o, 'Last', 7)
    w.put(o, 'Code', 'three')
    w.put(o, 'Small', -2)
    w.put(o, 'Text', 'abc')
    w.put(o, 'Fixed', 9)
    c = w.call(o, 'copy', root=g.obj)
    for n, v in (('Last', 7), ('Code', 'three'), ('Small', -2), ('Text', 'abc'), ('Fixed', 9)):
        if n not in names(g, c):
            return 'property %s is missing' % n
        x = g.get(c, n)
        if not w.m.truth(w.m.eq(x, v)):
            return 'property %s has another value' % n
        p = g.prop(c, n)
        d = w.m.getattr(p, 'propertydef')
        if d.at.get('root') is not g.obj or w.m.getattr(d, 'pid') != w.m.getattr(p, 'pid'):
            return 'property %s does not have the number of the other file' % n
    if len(names(g, c)) != 5:
        return 'there are other properties'
    return None


def C15(cx):
    J = machine(cx)
    J.rule = 'C15.external'
    at = where(cx, 'MetaDictionary', 'register_external_classdef')
    msg = 'a definition copied into another file is not complete'
    for what in CHAIN:
        judge(J, '%s to a new file' % what, at, lambda m: external(m, lambda mm: base(mm, 'new'), what), msg)
        judge(J, '%s to a file with other numbers' % what, at, lambda m: external(m, crowded, what), msg)
    for first, what in (('XBase', 'XTop'), ('XMid', 'XLeaf'), ('XLeaf', 'XTop'), ('XTop', 'XBase')):
        judge(J, '%s after %s' % (what, first), at, lambda m: external(m, crowded, what, first), msg)
    J.rule = 'C15.type'
    for n in XTYPES:
        def fn(m):
            w, g = extended(m), base(m, 'new')
            r = w.call(g.md, 'register_external_typedef', typedef(w, n))
            if r is not typedef(g, n) or r is None:
                return 'it is not registered'
            e = equal(m, attrs(w, typedef(w, n)), attrs(g, r))
            if e:
                return 'it is different: ' + e
            k = counts(g)
            if w.call(g.md, 'register_external_typedef', typedef(w, n)) is not r or counts(g) != k:
                return 'a second copy does not find the first'
            return None
        judge(J, n, where(cx, 'MetaDictionary', 'register_external_typedef'), fn, 'a type copied into another file is not complete')
    for n, more in (('XEnum', D([[5, 'five']])), ('XExt', D([[xid(0x33), 'more']]))):
        def fn(m):
            w, g = extended(m), base(m, 'new')
            w.call(g.md, 'register_external_typedef', typedef(w, n))
            v = more.p[0][0]
            v = v if isinstance(v, int) else m.instantiate(w.prog.cls('AUID'), [v], {})
            w.call(typedef(w, n), 'register_element', more.p[0][1], v)
            w.call(g.md, 'register_external_typedef', typedef(w, n))
            e = equal(m, attrs(w, typedef(w, n)), attrs(g, typedef(g, n)))
            return e and 'values added later are not: ' + e
        judge(J, '%s with a value added' % n, where(cx, 'MetaDictionary', 'register_external_typedef'), fn, 'a type copied into another file is not complete')
    J.rule = 'C15.translated'
    for name, make in (('the same numbers', lambda m: base(m, 'new')), ('other numbers', crowded)):
        judge(J, 'object to a file with ' + name, where(cx, 'AAFObject', 'copy'), lambda m: translated(m, make), 'a property of a copied object has lost its definition')


def C19(cx):
    J = machine(cx)
    J.rule = 'C19.history'
    at = where(cx, 'MetaDictionary', 'next_free_pid')
    N_ = None
    plans = [('fresh', [N_, N_, N_, N_]), ('one taken', [0xFFFF, N_, N_]), ('two taken', [0xFFFF, 0xFFFE, N_, N_]), ('three taken', [0xFFFF, 0xFFFE, 0xFFFD, N_, N_]), ('with holes', [0xFFFF, 0xFFFD, 0xFFFC, N_, N_, N_]),
             ('between', [N_, 0xFFFE, N_, 0xFFFC, N_, N_]), ('low', [0x8000, 0x8001, N_, N_]), ('taken later', [N_, N_, 0xFFFC, 0xFFFB, 0xFFFD, N_, N_]), ('ahead', [N_, 0xFFFD, 0xFFFC, 0xFFFB, N_, N_])]
    for name, plan in plans:
        def fn(m):
            w = base(m, 'new')
            had = [n for n, p in dynamic(w)]
            got = []
            top = min(had + [0x10000])
            cs = [w.call(w.md, 'register_classdef', 'Z%d' % i, xid(0x40 + i, '0201'), 'InterchangeObject', True) for i in range(2)]
            for i, n in enumerate(plan):
                want = None if n is None else n - (0x10000 - top) if n > 0xF000 else n
                p = w.call(cs[i % 2], 'register_propertydef', 'P%d' % i, xid(0x60 + i, '0301'), want, 'aafUInt8', True)
                x = w.m.getattr(p, 'pid')
                if not isinstance(x, int):
                    raise Unk('number')
                if want is not None and x != want:
                    return 'a property with the number 0x%04X gets 0x%04X' % (want, x)
                if x in got or x in had:
                    return 'the number 0x%04X is given twice' % x
                if not 0x8000 <= x <= 0xFFFF:
                    return 'the number 0x%04X is outside the dynamic range' % x
                got.append(x)
            return numbers(w)
        judge(J, name, at, fn, 'numbers of properties are not unique')
    for name, make in (('a new file', lambda m: base(m, 'new')), ('a file with other numbers', crowded)):
        def fn(m):
            w, g = extended(m), make(m)
            w.call(g.md, 'register_external_classdef', classdef(w, 'XTop'))
            return numbers(g)
        judge(J, 'classes of another file registered in ' + name, at, fn, 'numbers of properties are not unique')

    def again(m):
        w = extended(m)
        k = counts(w)
        types_, classes = extension()
        for n, a in classes:
            c = classdef(w, n)
            if w.call(w.md, 'register_classdef', n, *a) is not c:
                return 'class %s is defined twice' % n
            for q in a[3].p:
                p = w.call(c, 'lookup_propertydef', m.instantiate(w.prog.cls('AUID'), [q[1][0]], {}))
                if p is None or w.call(c, 'register_propertydef', q[0], *q[1]) is not p:
                    return 'property %s is defined twice' % q[0]
        if counts(w) != k:
            return 'definitions are added'
        return numbers(w)
    judge(J, 'known classes registered again', where(cx, 'MetaDictionary', 'register_classdef'), again, 'registering a known definition does not give the existing one')


# -- C01: files opened for reading --------------------------------------------------------------------------
class R(W):
    """a read-only file; new objects are made as if it were not, so that only the change itself is refused"""

    def filler(self, *a):
        return self.made(W.filler, *a)

    def sequence(self, *a):
        return self.made(W.sequence, *a)

    def mob(self, *a):
        return self.made(W.mob, *a)

    def essence(self, *a):
        return self.made(W.essence, *a)

    def made(self, f, *a):
        old, self.obj.at['mode'] = self.obj.at['mode'], 'rb+'
        try:
            return f(self, *a)
        finally:
            self.obj.at['mode'] = old


def readonly(m):
    w = base(m, 'readonly')
    w.__class__ = R
    return w


def C01(cx):
    J = machine(cx)
    J.rule = 'C01.readonly'
    ops = [('vector ' + o[0], 'StrongRefVectorProperty', o[1], o[2]) for o in vector_ops()] + [('set ' + o[0], 'StrongRefSetProperty', o[1], o[2]) for o in set_ops()] + [(o[0], o[1], o[2], o[3]) for o in value_ops()]
    ops += [('stream opened for update', 'StreamProperty', 'open', lambda w: w.call(w.prop(w.call(w.prop(w.again(), 'EssenceData'), 'get', w.mobid(1)), 'Data'), 'open', 'rw')),
            ('weak reference removed', 'WeakRefProperty', 'value', lambda w: w.put(w.m.iterate(w.get(seq_of(w), 'Components'))[0], 'DataDefinition', None)),
            ('vector removed', 'StrongRefVectorProperty', 'value', lambda w: w.put(seq_of(w), 'Components', None)),
            ('set removed', 'StrongRefSetProperty', 'value', lambda w: w.put(w.again(), 'Mobs', None)),
            ('reference removed', 'StrongRefProperty', 'value', lambda w: w.put(w.get(mob_of(w), 'Slots')[0], 'Segment', None)),
            ('vector deleted', 'AAFObject', '__delitem__', lambda w: w.call(seq_of(w), '__delitem__', 'Components'))]
    for name, cls, meth, change in ops:
        def fn(m):
            w = readonly(m)
            made = []
            a = state(w)
            n = len(w.storage.log)
            try:
                change(w)
            except AbsRaise:
                pass
            else:
                return 'it is accepted'
            b = [e for e in w.storage.log[n:] if not e[1].where().startswith('/tmp')]
            if b:
                return 'although refused it changes the storage: %s of %s' % (b[0][0], b[0][1].where())
            c = state(w)
            if a[3] != c[3]:
                return 'although refused something is queued for the next save'
            for x, y in zip(a[0], c[0]):
                r = equal(m, x, y)
                if r:
                    return 'although refused it changes ' + r
            return None
        judge(J, name, where(cx, cls, meth), fn, 'an object of a file opened for reading is changed')
    J.rule = 'C01.reading'

    def look(m):
        w = readonly(m)
        n = len(w.storage.log)
        for k in ('o', 'op'):
            show(w, w.again(k))
        for o in below(w, w.again()):
            w.call(o, 'allkeys')
            w.call(o, 'keys')
        if len(w.storage.log) != n:
            return 'the storage: %s of %s' % (w.storage.log[n][0], w.storage.log[n][1].where())
        if w.modified().p:
            return 'something is queued for the next save'
        return None
    judge(J, 'looking at every property', where(cx, 'AAFObject', 'read_properties'), look, 'reading changes something')

    def copied(m):
        w = readonly(m)
        g = base(m, 'new')
        n = len(w.storage.log)
        w.call(w.again(), 'copy', root=g.obj)
        if len(w.storage.log) != n:
            return 'the storage: %s of %s' % (w.storage.log[n][0], w.storage.log[n][1].where())
        return 'something is queued for the next save' if w.modified().p else None
    judge(J, 'copying to another file', where(cx, 'AAFObject', 'copy'), copied, 'copying out of a file opened for reading changes it')


# -- C21: the table of weak references ------------------------------------------------------------------------
def C21(cx):
    J = machine(cx)
    J.rule = 'C21.table'
    at = where(cx, 'AAFFile', 'weakref_index')

    def data(w, n):
        o = w.filler(n)
        w.attach(o, 'd%d' % n)

    def op(w, n):
        w.attach(w.operation(20 + n), 'd%d' % n)

    def par(w, n):
        w.call(w.prop(w.again('op'), 'ParametersDefined'), 'append', w.defs('ParameterDefinitions')[1])

    def swap(w, n):
        w.put(w.m.iterate(w.get(seq_of(w), 'Components'))[0], 'DataDefinition', w.defs('DataDefinitions')[1])

    def drop(w, n):
        w.put(w.again('op'), 'DataDefinition', None)
        w.put(w.again('op'), 'DataDefinition', w.defs('DataDefinitions')[0])

    def foreign(w, n):
        w.call(w.md, 'register_external_classdef', classdef(extended(w.m), 'XLeaf'))
    steps = {'data': data, 'operation': op, 'parameter': par, 'replaced': swap, 'removed and set': drop, 'definitions of another file': foreign}
    plans = [('data', 'operation'), ('operation', 'data', 'parameter'), ('parameter', 'replaced'), ('removed and set', 'data'), ('definitions of another file', 'data', 'operation'), ('replaced', 'definitions of another file', 'parameter')]
    for kind in ('live', 'read'):
        for plan in plans:
            def fn(m):
                w = base(m, kind)
                old = table(w)
                if not isinstance(old, list):
                    raise Unk('table')
                seen = {}
                for i, s in enumerate(plan):
                    before = targets(w)
                    steps[s](w, i)
                    new = table(w)
                    if new[:len(old)] != old:
                        return 'after "%s" an entry that was there before is another one' % s
                    for k, x in enumerate(new):
                        if x in new[:k]:
                            return 'after "%s" two entries have the same path' % s
                    now = targets(w)
                    for k, v in before.items():
                        if k in now and now[k] != v and s not in ('replaced', 'removed and set'):
                            return 'after "%s" a reference points at another table entry' % s
                    old = new
                w.save()
                g = w.reopen()
                if table(g) != old:
                    return 'the table is not the same after saving and reopening'
                return reread(m, g)
            judge(J, '%s, %s' % (', '.join(plan), kind), at, fn, 'a weak reference does not keep its target')


def targets(w):
    out = {}
    for n in ('o', 'op'):
        for o in below(w, w.again(n)):
            for p in w.m.iterate(w.call(o, 'properties')):
                if p.cls.name.startswith('WeakRef'):
                    out[(o.at['dir'].dir.where(), p.at.get('pid'))] = target(w.m, w, p)
    return out


# -- C24: incomplete objects ------------------------------------------------------------------------------------
def C24(cx):
    J = machine(cx)
    J.rule = 'C24.missing'
    at = where(cx, 'AAFObject', 'validate')
    picks = [('filler', lambda w: w.m.iterate(w.get(seq_of(w), 'Components'))[0]), ('sequence', seq_of), ('slot', lambda w: w.get(mob_of(w), 'Slots')[0]), ('mob', mob_of),
             ('operation definition', lambda w: w.again('op')), ('essence', lambda w: w.call(w.prop(w.again(), 'EssenceData'), 'get', w.mobid(1))), ('content', lambda w: w.again()),
             ('parameter definition', lambda w: w.defs('ParameterDefinitions')[0])]
    for name, pick in picks:
        for kind in ('live', 'read'):
            def fn(m):
                w = base(m, kind)
                o = pick(w)
                w.call(o, 'validate')
                need = [p for p in w.m.iterate(w.call(w.m.getattr(o, 'classdef'), 'all_propertydefs')) if not w.m.truth(w.m.getattr(p, 'optional')) and w.m.getattr(p, 'property_name') != 'ObjClass']
                for p in need:
                    pid = w.m.getattr(p, 'pid')
                    e = o.at['property_entries']
                    had = [q for q in e.p if q[0] == pid]
                    if not had:
                        return 'property %s is required and not there, and nothing is said' % w.m.getattr(p, 'property_name')
                    i = e.p.index(had[0])
                    e.p.remove(had[0])
                    if not raises(lambda: w.call(o, 'validate')):
                        return 'nothing is said when property %s is missing' % w.m.getattr(p, 'property_name')
                    if not raises(lambda: w.call(o, 'write_properties')):
                        return 'it is saved without property %s' % w.m.getattr(p, 'property_name')
                    e.p.insert(i, had[0])
                w.call(o, 'validate')
                return None
            judge(J, '%s, %s' % (name, kind), at, fn, 'an incomplete object is saved')
    J.rule = 'C24.create'
    for what in ('InterchangeObject', 'Component', 'Segment', 'Mob', 'DefinitionObject', 'MobSlot'):
        def fn(m):
            w = base(m, 'new')
            if w.m.truth(w.m.getattr(classdef(w, what), 'concrete')):
                return None
            return None if raises(lambda: w.call(w.obj.at['create'], 'from_name', what)) else 'it is accepted'
        judge(J, 'create ' + what, where(cx, 'AAFFactory', 'from_name'), fn, 'an object of an abstract class is created')
    for what in ('NoSuchClass', 'filler', ''):
        def fn(m):
            w = base(m, 'new')
            return None if raises(lambda: w.call(w.obj.at['create'], 'from_name', what)) else 'it is accepted'
        judge(J, 'create %r' % what, where(cx, 'AAFFactory', 'from_name'), fn, 'an object of an unknown class is created')
    for what in CHAIN:
        def fn(m):
            w = extended(m)
            ok = w.m.truth(w.m.getattr(classdef(w, what), 'concrete'))
            r = raises(lambda: w.call(w.obj.at['create'], 'from_name', what))
            return None if r != ok else ('a concrete class is refused' if ok else 'an abstract class is accepted')
        judge(J, 'create %s, defined by the file' % what, where(cx, 'AAFFactory', 'from_name'), fn, 'an object of an unknown class is created')
