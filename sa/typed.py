"""The typed layer of the package followed from its own source: a file object with its meta
dictionary over a reduced model, objects, properties and an abstract storage."""
import ast
from .prov import *
from .model import Program

CLASSES = ('InterchangeObject', 'Component', 'Segment', 'Mob', 'MasterMob', 'CompositionMob', 'EssenceData', 'DefinitionObject', 'ContentStorage', 'Header', 'Root', 'Dictionary',
           'DataDefinition', 'Sequence', 'Filler', 'SourceClip', 'SourceReference', 'TimelineMobSlot', 'MobSlot', 'OperationDefinition', 'ParameterDefinition', 'TaggedValue')
MODEL = ('model.classdefs', 'model.typedefs')


def reduced(m, keep):
    """the model tables, cut down to the classes of `keep`, the meta classes and the types they use"""
    prog = m.prog
    cd = prog.module('model.classdefs')
    td = prog.module('model.typedefs')
    for mod in (cd, td):
        for n in mod.consts:
            if n not in mod.multi:
                m.consts[(mod.name, n)] = m.expr(mod.consts[n], {}, mod)
    classes = m.consts[(cd.name, 'classdefs')]
    types_ = [(n, m.consts[(td.name, n)]) for n in td.consts if isinstance(m.consts.get((td.name, n)), D)]
    names = dict((p[0], p[1]) for p in classes.p)
    by_auid = dict((v[0].lower(), n) for n, v in names.items())
    meta = [n for n in names if names[n][0].lower().startswith('0d010101-02') or names[n][0].lower() == '0e040101-0000-0000-060e-2b3402060101']
    want = [n for n in names if n in keep or n in meta]
    tname, tcat = {}, {}
    for cat, d in types_:
        for p in d.p:
            a = p[1][0] if isinstance(p[1], (list, tuple)) else p[1]
            tname[a.lower()] = (cat, p[0])
            tcat[p[0]] = (cat, p[0])
    todo, have, kept = list(want), set(), set()
    tt = []
    while todo or tt:
        if todo:
            n = todo.pop()
            if n in have:
                continue
            have.add(n)
            v = names[n]
            if v[1]:
                todo.append(by_auid.get(v[1].lower(), v[1]))
            if len(v) > 3 and isinstance(v[3], D):
                tt += [q[1][2] for q in v[3].p]
            continue
        t = tt.pop()
        c = tname.get(t.lower()) or tcat.get(t)
        if c is None or c in kept:
            continue
        kept.add(c)
        d = [x for x in types_ if x[0] == c[0]][0][1]
        row = [q for q in d.p if q[0] == c[1]][0][1]
        stack = [row[1:]] if isinstance(row, (list, tuple)) else []
        while stack:
            x = stack.pop()
            if isinstance(x, (list, tuple)):
                stack += list(x)
            elif isinstance(x, D):
                stack += [y for q in x.p for y in q]
            elif isinstance(x, str):
                if x.lower() in tname or x in tcat:
                    tt.append(x)
    dd = prog.module('model.datadefs')
    for n in dd.consts:
        if n not in dd.multi:
            v = m.expr(dd.consts[n], {}, dd)
            m.consts[(dd.name, n)] = D() if isinstance(v, D) else v
    m.consts[(cd.name, 'classdefs')] = D([p for p in classes.p if p[0] in have])
    al = m.consts.get((cd.name, 'aliases'))
    if isinstance(al, D):
        m.consts[(cd.name, 'aliases')] = D([p for p in al.p if p[1] in have])
    for cat, d in types_:
        m.consts[(td.name, cat)] = D([p for p in d.p if (cat, p[0]) in kept])
    return have, kept


def same_key(a, b):
    return a.lower() == b.lower()


class Dir(object):
    """an entry of the abstract storage"""

    def __init__(self, st, name, parent, storage):
        self.st, self.name, self.parent, self.storage = st, name, parent, storage
        self.children = []
        self.data = None if storage else By()
        self.class_id = None
        self.live = True
        o = self.obj = Obj(st.prog.cls('DirEntry'), {})
        o.dir = self
        o.at.update(__setattr__=Py(self.set), __bool__=Py(lambda m, a, k: True), __eq__=None)
        del o.at['__eq__']
        for n in ('get', 'makedir', 'touch', 'open', 'path', 'listdir', 'isdir', 'isfile', 'isroot', 'pop'):
            o.at[n] = Py(getattr(self, 'm_' + n))
        o.at['storage'] = st.cfb
        o.at['name'] = name
        o.at['class_id'] = None
        self.refresh()

    def refresh(self):
        self.obj.at['parent'] = self.parent.obj if self.parent else None
        self.obj.at['byte_size'] = len(self.data.v) if self.data is not None else 0

    def set(self, m, a, k):
        if a[0] == 'class_id':
            self.st.log.append(('class_id', self))
            self.class_id = a[1]
        self.obj.at[a[0]] = a[1]

    def child(self, name):
        if not isinstance(name, str):
            raise Unk('name of an entry')
        for c in self.children:
            if same_key(c.name, name):
                return c
        return None

    def where(self):
        if self.parent is None:
            return '/'
        p = self.parent.where()
        return (p if p != '/' else '') + '/' + self.name

    def add(self, name, storage):
        c = Dir(self.st, name, self, storage)
        self.children.append(c)
        self.st.log.append(('new', c))
        return c

    def m_get(self, m, a, k):
        c = self.child(a[0])
        return c.obj if c is not None else (a[1] if len(a) > 1 else k.get('default'))

    def m_makedir(self, m, a, k):
        if self.child(a[0]) is not None or not self.storage:
            raise AbsRaise('ValueError')
        c = self.add(a[0], True)
        if len(a) > 1:
            c.set(m, ['class_id', a[1]], {})
        return c.obj

    def m_touch(self, m, a, k):
        c = self.child(a[0])
        if c is not None and c.storage:
            raise AbsRaise('ValueError')
        return (c or self.add(a[0], False)).obj

    def m_path(self, m, a, k):
        return self.where()

    def m_listdir(self, m, a, k):
        return [c.obj for c in self.children]

    def m_isdir(self, m, a, k):
        return self.storage

    def m_isfile(self, m, a, k):
        return not self.storage

    def m_isroot(self, m, a, k):
        return self.parent is None

    def m_pop(self, m, a, k):
        raise Unk('pop of an entry')

    def m_open(self, m, a, k):
        mode = a[0] if a else k.get('mode', 'r')
        if self.storage:
            raise AbsRaise('ValueError')
        if mode not in ('r', 'w', 'rw'):
            raise Unk('mode')
        if mode == 'w':
            self.data = By()
            self.st.log.append(('write', self))
            self.refresh()
        return self.stream(m, mode)

    def stream(self, m, mode):
        pos = [0]

        def read(m_, a, k):
            n = a[0] if a else k.get('n', -1)
            v = self.data.fixed()
            if not isinstance(n, int):
                raise Unk('size')
            e = len(v) if n < 0 else min(len(v), pos[0] + n)
            r = v[pos[0]:e]
            pos[0] = max(pos[0], e)
            return By(r)

        def write(m_, a, k):
            if not isinstance(a[0], By):
                raise AbsRaise('TypeError')
            if mode == 'r':
                raise AbsRaise('OSError')
            d = a[0].fixed()
            self.data = By(self.data.v[:pos[0]] + list(d) + self.data.v[pos[0] + len(d):])
            pos[0] += len(d)
            self.st.log.append(('write', self))
            self.refresh()
            return len(d)

        def truncate(m_, a, k):
            n = a[0] if a else None
            n = pos[0] if n is None else n
            self.data = By(self.data.v[:n])
            self.st.log.append(('write', self))
            self.refresh()

        def seek(m_, a, k):
            w = a[1] if len(a) > 1 else 0
            pos[0] = a[0] + (0, pos[0], len(self.data.v))[w]
            return pos[0]
        return Obj('stream', {'read': Py(read), 'write': Py(write), 'truncate': Py(truncate), 'seek': Py(seek), 'tell': Py(lambda m_, a, k: pos[0]),
                              'dir': self.obj, 'close': Py(lambda m_, a, k: None), 'mode': mode})


class Storage(object):
    def __init__(self, m):
        self.m, self.prog = m, m.prog
        self.log = []
        c = self.cfb = Obj('cfb', {'sector_size': 4096})
        for n in ('find', 'exists', 'move', 'rmtree', 'makedirs', 'makedir', 'touch', 'open'):
            c.at[n] = Py(getattr(self, n))
        self.top = Dir(self, '/', None, True)
        c.at['root'] = self.top.obj

    def at(self, p):
        if isinstance(p, Obj) and hasattr(p, 'dir'):
            return p.dir
        if not isinstance(p, str):
            raise Unk('path')
        d = self.top
        for n in p.split('/'):
            if n:
                d = d.child(n)
                if d is None:
                    return None
        return d

    def find(self, m, a, k):
        d = self.at(a[0])
        return d.obj if d else None

    def exists(self, m, a, k):
        return self.at(a[0]) is not None

    def parent(self, p):
        h, _, t = p.rstrip('/').rpartition('/')
        return self.at(h or '/'), t

    def move(self, m, a, k):
        d = self.at(a[0])
        if d is None:
            raise AbsRaise('ValueError')
        p, n = self.parent(a[1] if isinstance(a[1], str) else a[1].dir.where())
        if p is None or p.child(n) is not None:
            raise AbsRaise('ValueError')
        d.parent.children.remove(d)
        d.parent, d.name = p, n
        d.obj.at['name'] = n
        p.children.append(d)
        d.refresh()
        self.log.append(('move', d))
        return d.obj

    def rmtree(self, m, a, k):
        d = self.at(a[0])
        if d is None:
            raise AbsRaise('ValueError')
        d.parent.children.remove(d)
        d.live = False
        self.log.append(('rmtree', d))

    def makedirs(self, m, a, k):
        d = self.top
        for n in a[0].split('/'):
            if n:
                d = d.child(n) or d.add(n, True)
        return d.obj

    def makedir(self, m, a, k):
        p, n = self.parent(a[0])
        if p is None:
            raise AbsRaise('ValueError')
        return p.m_makedir(m, [n] + list(a[1:]), k)

    def touch(self, m, a, k):
        p, n = self.parent(a[0])
        if p is None:
            raise AbsRaise('ValueError')
        return p.m_touch(m, [n], k)

    def open(self, m, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        d = self.at(a[0])
        if d is None:
            if mode == 'r':
                raise AbsRaise('ValueError')
            return self.touch(m, [a[0]], {}).dir.m_open(m, [mode], {})
        return d.m_open(m, [mode], {})


SHARED = (int, str, bool, N, T, Class, Func, Ext, Bi, type(None), frozenset, Machine, Program)


def clone(x, memo):
    """a copy of a value graph; package code and the rule's stand-ins are shared"""
    t = type(x)
    if t in SHARED:
        return x
    if t is Obj:
        at = x.at
        if len(at) == 1 and x.cls.__class__ is Class and x.cls.name == 'AUID':
            return x
        r = memo.get(id(x))
        if r is not None:
            return r[0]
        y = Obj(x.cls)
        memo[id(x)] = (y, x)
        n = y.at = {}
        for k, v in at.items():
            n[k] = v if type(v) in SHARED else clone(v, memo)
        if hasattr(x, 'dir'):
            y.dir = clone(x.dir, memo)
        return y
    if t is By:
        if not x.mut:
            return x
        r = memo.get(id(x))
        if r is not None:
            return r[0]
        y = By(x.v, True)
        memo[id(x)] = (y, x)
        return y
    if t is tuple:
        return tuple([clone(i, memo) for i in x])
    if t is Py:
        own = getattr(x.fn, '__self__', None)
        return Py(getattr(clone(own, memo), x.fn.__name__)) if isinstance(own, (Dir, Storage, File)) else x
    if t is Bound:
        return Bound(x.func, clone(x.obj, memo))
    r = memo.get(id(x))
    if r is not None:
        return r[0]
    if t is list:
        y = []
        memo[id(x)] = (y, x)
        y.extend([clone(i, memo) for i in x])
        return y
    if t is D:
        y = D()
        memo[id(x)] = (y, x)
        y.p = [[clone(k, memo), clone(v, memo)] for k, v in x.p]
        return y
    if t is S:
        y = S()
        memo[id(x)] = (y, x)
        y.p = [clone(i, memo) for i in x.p]
        return y
    if isinstance(x, SHARED):
        return x
    if isinstance(x, (Dir, Storage, File)):
        y = object.__new__(t)
        memo[id(x)] = (y, x)
        for k, v in x.__dict__.items():
            y.__dict__[k] = clone(v, memo)
        return y
    raise Unk('copy of %s' % t.__name__)


def stubs():
    def ref(m, a, k):
        return Obj('weakref.ref', {'to': a[0]})

    def wvd(m, a, k):
        d = D()
        if a:
            for q in (a[0].p if isinstance(a[0], D) else [m.iterate(x) for x in m.iterate(a[0])]):
                d.p.append([q[0], q[1]])
        return d

    def arr(m, a, k):
        o = Obj('array', {'v': []})

        def frm(m_, b, kw):
            v = b[0].fixed()
            o.at['v'] += [mk(v[i] + v[i + 1]) for i in range(0, len(v), 2)]
        o.at.update(frombytes=Py(frm), __getitem__=Py(lambda m_, b, kw: m_.index(o.at['v'], b[0])), byteswap=Py(lambda m_, b, kw: None))
        return o

    def uuid4(m, a, k):
        m.uuids = getattr(m, 'uuids', 0) + 1
        return Obj('uuid.UUID', {'be': const_bytes(bytes(bytearray(range(12))) + m.uuids.to_bytes(4, 'big'))})

    def mobid(m, a, k):
        m.uuids = getattr(m, 'uuids', 0) + 1
        return Obj(m.prog.cls('MobID'), {'bytes_le': const_bytes(bytes(bytearray(range(24))) + m.uuids.to_bytes(8, 'big'), True)})
    now = Py(lambda m, a, k: Obj('datetime.datetime', dict(year=2020, month=1, day=2, hour=3, minute=4, second=5, microsecond=8000)))
    return {('ext', 'datetime.datetime.now'): now, ('ext', 'datetime.datetime.utcnow'): now, ('ext', 'weakref.ref'): Py(ref), ('ext', 'weakref.WeakValueDictionary'): Py(wvd), ('ext', 'array.array'): Py(arr), ('ext', 'uuid.uuid4'): Py(uuid4),
            ('extattr', 'sys.byteorder'): 'little', ('mobid', 'MobID.new'): Py(mobid), 'id': True, 'decorators': True, ('cache', 'LRUCacheDict'): Py(lambda m, a, k: D())}


class File(object):
    """one open file over a storage"""

    def __init__(self, m, storage=None, mode='wb+', keep=CLASSES):
        self.m, self.prog = m, m.prog
        kept = getattr(m, 'typed_base', None)
        if kept is None:
            kept = m.typed_base = self.base(keep)
        self.storage = storage or Storage(m)
        o = self.obj = clone(kept, {})
        o.at['mode'] = mode
        o.at['cfb'] = self.storage.cfb
        o.at['is_open'] = True
        self.md = o.at['metadict']
        o.at['manager'] = m.instantiate(self.prog.cls('AAFObjectManager'), [o], {})
        o.at['create'] = m.instantiate(self.prog.cls('AAFFactory'), [o], {})
        o.at.setdefault('weakref_table', [])

    def base(self, keep):
        m = self.m
        for n in ('AAFClaseID_dict', 'AAFClassName_dict'):
            m.consts[('utils', n)] = D()
        for c in [x for l in m.prog.classes.values() for x in l]:
            if any(isinstance(d, ast.Name) and d.id == 'register_class' for d in c.node.decorator_list):
                m.call_func(m.prog.func('utils.register_class'), [c], {})
        reduced(m, keep)
        root = Obj(m.prog.cls('AAFFile'), {'mode': 'wb+', 'manager': Obj('none', {}), 'weakref_table': []})
        m.instantiate(m.prog.cls('MetaDictionary'), [root], {})
        del root.at['manager']
        m.steps = 0
        return root

    def new(self, name, *a, **kw):
        f = self.m.getattr(self.obj.at['create'], 'from_name')
        return self.m.call(f, [name] + list(a), kw)

    def prop(self, o, name):
        return self.m.index(o, name)

    def get(self, o, name):
        return self.m.getattr(self.prop(o, name), 'value')

    def put(self, o, name, v):
        self.m.setattr(self.prop(o, name), 'value', v)

    def call(self, o, name, *a, **kw):
        return self.m.call(self.m.getattr(o, name), list(a), kw)
