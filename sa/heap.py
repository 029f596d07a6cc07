"""A file's objects for the abstract machine of prov.py: package classes are instantiated from
their own source, properties are a table of cells that hold a value or a collection."""
import uuid as _uuid
from .prov import *


def key_of(m, o):
    return m.getattr(o, 'unique_key')


class Cell(object):
    """one property: its value, or the collection of its elements"""

    def __init__(self, heap, owner, name):
        self.heap, self.name = heap, name
        self.log = []
        o = self.obj = Obj('property', {'value': None, 'name': name, 'parent': owner, 'property_name': name})
        at = o.at
        at['iter'] = Py(lambda m, a, k: self.items())
        at['__bool__'] = Py(lambda m, a, k: True)
        at['__setattr__'] = Py(self.assign)
        for n in ('append', 'extend', 'get', 'keys', 'values', 'pop', 'remove', 'clear', 'insert', 'mark_modified', 'open'):
            at[n] = Py(getattr(self, n))
        at['items'] = Py(lambda m, a, k: [(key_of(m, x), x) for x in self.items()])
        at['__contains__'] = Py(self.contains)
        at['__getitem__'] = Py(self.index)

    def items(self):
        v = self.obj.at['value']
        if v is None:
            return []
        if isinstance(v, (list, tuple)):
            return v
        raise Unk('collection')

    def own(self):
        v = self.obj.at['value']
        if not isinstance(v, list):
            v = self.obj.at['value'] = list(self.items())
        return v

    def assign(self, m, a, k):
        n, v = a
        if n == 'value':
            self.heap.note('set', self, v)
            v = list(v) if isinstance(v, list) else v
        self.obj.at[n] = v

    def append(self, m, a, k):
        self.heap.note('append', self, a[0])
        self.own().append(a[0])

    def insert(self, m, a, k):
        self.heap.note('append', self, a[1])
        self.own().insert(a[0], a[1])

    def extend(self, m, a, k):
        for x in m.iterate(a[0]):
            self.append(m, [x], {})

    def find(self, m, key):
        for x in self.items():
            if isinstance(x, Obj) and m.truth(m.eq(key_of(m, x), key)):
                return x
        return None

    def get(self, m, a, k):
        r = self.find(m, a[0])
        return r if r is not None else (a[1] if len(a) > 1 else k.get('default'))

    def contains(self, m, a, k):
        if any(x is a[0] for x in self.items()):
            return True
        if isinstance(a[0], Obj) and not isinstance(a[0].cls, str) and '__getitem__' in a[0].at:
            return False
        return self.find(m, a[0]) is not None

    def index(self, m, a, k):
        if isinstance(a[0], (int, slice)):
            return m.index(list(self.items()), a[0])
        r = self.find(m, a[0])
        if r is None:
            raise AbsRaise('KeyError')
        return r

    def keys(self, m, a, k):
        return [key_of(m, x) for x in self.items()]

    def values(self, m, a, k):
        return list(self.items())

    def remove(self, m, a, k):
        self.heap.note('remove', self, a[0])
        self.obj.at['value'] = [x for x in self.items() if x is not a[0]]

    def pop(self, m, a, k):
        raise Unk('pop')

    def clear(self, m, a, k):
        self.heap.note('clear', self, None)
        self.obj.at['value'] = []

    def mark_modified(self, m, a, k):
        return None

    def open(self, m, a, k):
        mode = a[0] if a else k.get('mode', 'r')
        s = Obj('stream', {'mode': mode, 'written': [], 'closed': False, 'cell': self.obj})

        def write(m_, b, kw):
            s.at['written'].append(b[0])
            return len(b[0].v) if isinstance(b[0], By) else None

        def close(m_, b, kw):
            s.at['closed'] = True
        s.at.update(write=Py(write), close=Py(close), __enter__=Py(lambda m_, b, kw: s))
        self.heap.streams.append(s)
        return s


class Heap(object):
    """one machine run's world; `m` is the running machine"""

    def __init__(self, m):
        self.m, self.prog = m, m.prog
        self.events = []
        self.n = 0
        self.typedefs = {}
        self.streams = []
        self.root = Obj('root', {})
        at = self.root.at
        at['create'] = Obj('factory', {'__getattr__': Py(lambda m_, a, k: Py(lambda m2, b, kw: self.create(a[0], *b, **kw)))})
        at['content'] = self.bare('ContentStorage')
        at['dictionary'] = self.bare('Dictionary')
        at['metadict'] = Obj('metadict', {
            'lookup_classdef': Py(lambda m_, a, k: self.classdef(a[0])),
            'lookup_typedef': Py(lambda m_, a, k: self.typedef(a[0])),
            'lookup_class': Py(lambda m_, a, k: self.find_class(a[0]))})

    def note(self, *e):
        self.events.append(e)

    def fits(self, cx):
        """every object was put into a property that may hold it"""
        from .aafmodel import load
        from .rules.model_tables import class_id_of
        A = getattr(cx, 'aaf_model', None)
        if A is None:
            A = cx.aaf_model = load(cx.prog)
        for what, cell, v in self.events:
            if what not in ('set', 'append'):
                continue
            o = cell.obj.at['parent']
            for x in v if isinstance(v, (list, tuple)) else [v]:
                if not isinstance(x, Obj) or isinstance(x.cls, str):
                    continue
                have = class_id_of(cx, x.cls)
                if not have or have not in A.classes:
                    continue
                own = class_id_of(cx, o.cls)
                ps = [p for p in A.props(own) if p.name == cell.name] if own in A.classes else []
                ps = ps or [p for c in A.classes.values() for p in c.props if p.name == cell.name]
                if not ps:
                    return None
                want = [A.target(A.type_of(p.typ)) for p in ps]
                if None in want:
                    return None
                if not any(w in [c.auid for c in A.chain(have)] for w in want):
                    return False
        return True

    def cell(self, o, name):
        return o.cells[name]

    def value(self, o, name):
        c = o.cells.get(name)
        return None if c is None else c.obj.at['value']

    def bare(self, cls):
        """an object of a package class whose __init__ has not run"""
        k = self.prog.cls(cls) if isinstance(cls, str) else cls
        o = Obj(k, {'root': self.root})
        o.cells = {}

        def item(m, a, kw):
            n = a[0]
            if not isinstance(n, str):
                raise Unk('property')
            if n not in o.cells:
                o.cells[n] = Cell(self, o, n)
            return o.cells[n].obj
        o.at['__getitem__'] = Py(item)
        o.at['get'] = Py(lambda m, a, kw: item(m, a, kw) if a[0] in o.cells else (a[1] if len(a) > 1 else None))
        o.at['__contains__'] = Py(lambda m, a, kw: a[0] in o.cells)
        return o

    def find_class(self, name):
        if isinstance(name, Class):
            return name
        if not isinstance(name, str):
            raise Unk('class of a run time value')
        if self.prog.has_cls(name):
            return self.prog.cls(name)
        return None

    def create(self, name, *a, **kw):
        k = self.find_class(name)
        o = self.bare(k if k is not None else 'AAFObject')
        o.model_name = name
        f = o.cls.method('__init__')
        if f is not None and k is not None:
            self.m.call_func(f, [o] + list(a), kw)
        elif a or kw:
            raise AbsRaise('TypeError')
        return o

    def classdef(self, name):
        return Obj('classdef:%s' % (name,), {'name': name, 'class_name': name})

    def typedef(self, name):
        if isinstance(name, Obj):
            return name
        if name not in self.typedefs:
            self.typedefs[name] = Obj('typedef', {'type_name': name, 'auid': self.auid(7000 + len(self.typedefs))})
        return self.typedefs[name]

    def auid(self, n):
        return Obj(self.prog.cls('AUID'), {'bytes_le': const_bytes(_uuid.UUID(int=(n << 64) + 0x1234).bytes_le, True)})

    def uuid(self, auid_):
        by = auid_.at['bytes_le'].v
        return Obj('uuid.UUID', {'be': By([by[i] for i in Machine.PERM])})

    def mobid(self, n=None):
        if n is None:
            self.n += 1
            n = 0x1000 + self.n
        return Obj(self.prog.cls('MobID'), {'bytes_le': const_bytes(bytes(bytearray(range(24))) + n.to_bytes(8, 'big'), True)})


def stubs(extra=None):
    """what the code under analysis takes from outside"""
    now = dict(year=2020, month=1, day=2, hour=3, minute=4, second=5, microsecond=6)
    st = {('mobid', 'MobID.new'): Py(lambda m, a, k: m.world.mobid()),
          ('ext', 'datetime.datetime.now'): Py(lambda m, a, k: Obj('datetime.datetime', dict(now))),
          ('ext', 'datetime.datetime.utcnow'): Py(lambda m, a, k: Obj('datetime.datetime', dict(now)))}
    st.update(extra or {})
    return st
