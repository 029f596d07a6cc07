"""C25: definitions of each kind are registered in, looked up from and merged into their own collection.

The dictionary's methods are followed over an abstract heap: collections that record what is put
into them, definitions with names and identifiers."""
from ..heap import *
from ..model import AnalysisBroken
from .ident import Judge, same

# kind, collection, lookup
KINDS = [('DataDef', 'DataDefinitions', 'lookup_datadef'),
         ('ContainerDef', 'ContainerDefinitions', 'lookup_containerdef'),
         ('CodecDef', 'CodecDefinitions', 'lookup_codecdef'),
         ('ParameterDef', 'ParameterDefinitions', 'lookup_parameterdef'),
         ('OperationDef', 'OperationDefinitions', 'lookup_operationdef'),
         ('InterpolationDef', 'InterpolationDefinitions', 'lookup_interperlationdef'),
         ('TaggedValueDef', 'TaggedValueDefinitions', 'lookup_taggedvaluedef')]
PREFIX = {'DataDef': 'DataDef_', 'ContainerDef': 'ContainerDef_'}


class Defs(Heap):
    def definition(self, kind, n, name):
        o = self.bare(kind)
        self.cell_value(o, 'Identification', self.auid(n))
        self.cell_value(o, 'Name', name)
        o.tag = (kind, n, name)
        o.at['copy'] = Py(lambda m, a, k: self.copy(o, a, k))
        return o

    def cell_value(self, o, name, v):
        self.m.index(o, name)
        o.cells[name].obj.at['value'] = v

    def copy(self, o, a, k):
        c = self.definition(*o.tag)
        c.copy_of = o
        root = k.get('root', a[0] if a else None)
        c.at['root'] = root if root is not None else o.at['root']
        if o.tag[0] == 'OperationDef':
            p = o.cells.get('ParametersDefined')
            if p is not None:
                # the copy's references are to what the target dictionary has
                have = [d.at['bytes_le'].v if False else d.tag[1] for d in self.members(self.target, 'ParameterDefinitions')] if getattr(self, 'target', None) is not None else []
                for x in p.items():
                    if x.tag[1] not in have:
                        raise AbsRaise('missing parameter')
                self.cell_value(c, 'ParametersDefined', [y for x in p.items() for y in self.members(self.target, 'ParameterDefinitions') if y.tag[1] == x.tag[1]])
        return c

    def members(self, d, coll):
        c = d.cells.get(coll)
        return list(c.items()) if c is not None else []

    def fill(self, d, per=2, base=0, only=None):
        """every collection gets definitions; the same identifiers and names in each"""
        out = {}
        for kind, coll, look in KINDS:
            self.m.index(d, coll)
            for i in range(per):
                o = self.definition(kind, base + i, PREFIX.get(kind, '') + ('Apple', 'Apple Pie', 'Pear')[i])
                d.cells[coll].obj.at['value'] = self.members(d, coll) + [o]
                out[kind, i] = o
        return out


def C25(cx):
    prog = cx.prog
    J = Judge(cx, 'definition', stubs())
    K = prog.cls('Dictionary')

    def where(name):
        f = K.method(name)
        return f.where if f is not None else '%s:%d' % (K.module.rel, K.node.lineno)

    def world(m):
        m.world = w = Defs(m)
        return w, w.root.at['dictionary']

    def call(m, o, name, *a):
        return m.call(m.getattr(o, name), list(a), {})

    def contents(w, d):
        return dict((coll, w.members(d, coll)) for kind, coll, look in KINDS)
    # register
    for kind, coll, look in KINDS:
        if not prog.has_cls(kind) or K.method('register_def') is None:
            continue

        def reg(m):
            w, d = world(m)
            w.fill(d)
            before = contents(w, d)
            o = w.definition(kind, 9, 'New')
            call(m, d, 'register_def', o)
            return all(contents(w, d)[c] == before[c] + ([o] if c == coll else []) for k, c, l in KINDS)
        J.run('register %s' % kind, where('register_def'), reg, lambda m, v: v, 'a new %s is not added, once, to %s and to nothing else' % (kind, coll))
    if K.method('register_def') is not None:
        def bad(m):
            w, d = world(m)
            call(m, d, 'register_def', w.bare('Mob'))
        J.run('register something else', where('register_def'), bad, lambda m, v: False, 'an object that is no definition is not refused', raises=True)
    # look up
    for kind, coll, look in KINDS:
        if K.method(look) is None:
            continue
        routes = [('identifier', lambda w, o, n: w.auid(n)), ('uuid', lambda w, o, n: w.uuid(w.auid(n))), ('itself', lambda w, o, n: o),
                  ('name', lambda w, o, n: ('Apple', 'Apple Pie')[n]), ('lower case name', lambda w, o, n: ('apple', 'apple pie')[n]), ('upper case name', lambda w, o, n: ('APPLE', 'APPLE PIE')[n])]
        if kind in PREFIX:
            routes.append(('full name', lambda w, o, n: PREFIX[kind] + ('Apple', 'Apple Pie')[n]))
        for what, arg in routes:
            for n in (0, 1):
                def find(m):
                    w, d = world(m)
                    o = w.fill(d)
                    return call(m, d, look, arg(w, o[kind, n], n)) is o[kind, n]
                J.run('%s by %s %d' % (look, what, n), where(look), find, lambda m, v: v, 'it does not give the %s of that %s' % (kind, what))
        similar = ['App', 'Pie', 'ApplePie', 'Apple Pie', 'Apple']
        for n in range(len(similar)):
            def near(m):
                w, d = world(m)
                m.index(d, coll)
                d.cells[coll].obj.at['value'] = [w.definition(kind, 30 + i, PREFIX.get(kind, '') + x) for i, x in enumerate(similar)]
                return call(m, d, look, similar[n]).tag[1] - 30
            J.run('%s among similar names %d' % (look, n), where(look), near, lambda m, v: v == n, 'it gives a definition with another name')

        # what only other collections have is not found
        for what, arg in routes:
            def absent(m):
                w, d = world(m)
                o = w.fill(d)
                d.cells[coll].obj.at['value'] = [w.definition(kind, 5, 'Banana')]
                if what == 'itself':
                    return None
                try:
                    return call(m, d, look, arg(w, None, 0))
                except AbsRaise:
                    return None
            J.run('%s absent by %s' % (look, what), where(look), absent, lambda m, v: v is None, 'it gives a definition of another %s' % ('kind or name' if 'name' in what else 'kind or identifier'))

        def unnamed(m):
            w, d = world(m)
            w.fill(d)
            d.cells[coll].obj.at['value'] = [w.definition(kind, 4, None), w.definition(kind, 5, 'Banana')]
            return call(m, d, look, 'Banana').tag[1]
        J.run('%s beside a definition without a name' % look, where(look), unnamed, lambda m, v: v == 5, 'it does not find the definition of that name')

        def nothing(m):
            w, d = world(m)
            w.fill(d)
            return call(m, d, look, 'Nothing')
        J.run('%s of an unknown name' % look, where(look), nothing, lambda m, v: False, 'an unknown name is not reported', raises=True)
    # merge
    if K.method('update') is not None:
        def two(m):
            w, d = world(m)
            w.target = d
            e = w.bare('Dictionary')
            e.at['root'] = Obj('root', dict(w.root.at, dictionary=e))
            return w, d, e
        for kind, coll, look in KINDS:
            def miss(m):
                w, d, e = two(m)
                mine = w.fill(d)
                theirs = w.fill(e, 3)
                call(m, d, 'update', e)
                got = w.members(d, coll)
                return (len(got) == 3 and got[:2] == [mine[kind, 0], mine[kind, 1]] and got[2].tag == theirs[kind, 2].tag and getattr(got[2], 'copy_of', None) is theirs[kind, 2]
                        and got[2].at['root'] is w.root and [x.tag for x in w.members(e, coll)] == [theirs[kind, i].tag for i in range(3)])
            J.run('update %s' % coll, where('update'), miss, lambda m, v: v, 'after merging, %s does not hold what it held and a copy of each definition it lacked' % coll)

            def empty(m):
                w, d, e = two(m)
                w.fill(e, 2)
                call(m, d, 'update', e)
                return [x.tag for x in w.members(d, coll)] == [x.tag for x in w.members(e, coll)]
            J.run('update of an empty dictionary, %s' % coll, where('update'), empty, lambda m, v: v, 'after merging into an empty dictionary, %s does not hold a copy of each definition' % coll)

        def params(m):
            w, d, e = two(m)
            mine, theirs = w.fill(d, 1), w.fill(e, 3)
            w.cell_value(mine['OperationDef', 0], 'ParametersDefined', [mine['ParameterDef', 0]])
            w.cell_value(theirs['OperationDef', 0], 'ParametersDefined', [theirs['ParameterDef', 0], theirs['ParameterDef', 2]])
            call(m, d, 'update', e)
            p = m.iterate(m.getattr(mine['OperationDef', 0], 'parameters'))
            own = w.members(d, 'ParameterDefinitions')
            return [x.tag[1] for x in p] == [0, 2] and all(any(x is y for y in own) for x in p)
        J.run('update parameters', where('update'), params, lambda m, v: v, 'an operation definition of both dictionaries does not get, once, each parameter it lacked, from its own dictionary')

        def newop(m):
            w, d, e = two(m)
            theirs = w.fill(e, 3)
            w.cell_value(theirs['OperationDef', 1], 'ParametersDefined', [theirs['ParameterDef', 1], theirs['ParameterDef', 2]])
            call(m, d, 'update', e)
            p = m.iterate(m.getattr(w.members(d, 'OperationDefinitions')[1], 'parameters'))
            own = w.members(d, 'ParameterDefinitions')
            return [x.tag[1] for x in p] == [1, 2] and all(any(x is y for y in own) for x in p)
        J.run('update new operation', where('update'), newop, lambda m, v: v, 'a new operation definition does not refer to the parameters of its own dictionary')

        def other(m):
            w, d = world(m)
            call(m, d, 'update', Obj('thing', {}))
        J.run('update from something else', where('update'), other, lambda m, v: False, 'something that is no dictionary is not refused', raises=True)
    # setting up
    if K.method('__init__') is not None:
        def init(m):
            w, d = world(m)
            m.call_func(K.method('__init__'), [d], {})
            return [(coll, len(w.members(d, coll)), all(x.cls is prog.cls(kind) for x in w.members(d, coll)), len(set(repr(w.value(x, 'Identification')) for x in w.members(d, coll)))) for kind, coll, look in KINDS]
        J.run('new dictionary', where('__init__'), init, lambda m, v: all(ok and n == u for c, n, ok, u in v) and all(n > 0 for c, n, ok, u in v if c in ('DataDefinitions', 'ContainerDefinitions')),
              'the definitions of a new file are not, each once, in the collection of their kind')
    if K.method('setup_defaults') is not None:
        def codecs(m):
            w, d = world(m)
            m.call_func(K.method('__init__'), [d], {})
            call(m, d, 'setup_defaults')
            return [x for x in w.members(d, 'CodecDefinitions')]
        J.run('default codecs', where('setup_defaults'), codecs, lambda m, v: bool(v) and all(x.cls is prog.cls('CodecDef') and all(y.cls is prog.cls('DataDef') for y in x.cells['DataDefinitions'].items()) for x in v),
              'the codec definitions of a new file do not refer to its data definitions')
    metadict(cx, J)
    users(cx, J, world, call)
    cx.need('definition lookups decided', len(cx.done), 40)


def metadict(cx, J):
    prog = cx.prog
    if not prog.has_cls('MetaDictionary'):
        return
    K = prog.cls('MetaDictionary')
    for look, cls, by_id, by_name in (('lookup_typedef', 'TypeDef', 'typedefs_by_auid', 'typedefs_by_name'), ('lookup_classdef', 'ClassDef', 'classdefs_by_auid', 'classdefs_by_name')):
        f = K.method(look)
        if f is None:
            continue

        def world(m):
            m.world = w = Heap(m)
            md = Obj(K, {})
            els = [Obj(prog.cls(cls), {'n': i}) for i in range(2)]
            others = [Obj(prog.cls('ClassDef' if cls == 'TypeDef' else 'TypeDef'), {'n': i}) for i in range(2)]
            for a, b in ((by_id, by_name), tuple(x.replace('typedefs', '?').replace('classdefs', 'typedefs').replace('?', 'classdefs') for x in (by_id, by_name))):
                es = els if a == by_id else others
                md.at[a] = D([(w.auid(i), e) for i, e in enumerate(es)])
                md.at[b] = D([(n, e) for n, e in zip(('Apple', 'Pear'), es)])
            return w, md, els
        for what, arg in (('identifier', lambda w, e, n: w.auid(n)), ('name', lambda w, e, n: ('Apple', 'Pear')[n]), ('itself', lambda w, e, n: e[n]),
                          ('identifier as text', lambda w, e, n: w.m.to_str(w.auid(n)))):
            for n in (0, 1):
                def find(m):
                    w, md, e = world(m)
                    return m.call(m.getattr(md, look), [arg(w, e, n)], {}) is e[n]
                J.run('%s by %s %d' % (look, what, n), f.where, find, lambda m, v: v, 'it does not give the definition of that %s' % what)
        for what, arg in (('identifier', lambda w: w.auid(7)), ('name', lambda w: 'Nothing')):
            def miss(m):
                w, md, e = world(m)
                return m.call(m.getattr(md, look), [arg(w)], {})
            J.run('%s unknown %s' % (look, what), f.where, miss, lambda m, v: v is None, 'an unknown %s is not answered with nothing' % what)


def picture(w, d):
    d.cells['DataDefinitions'].own().extend(w.definition('DataDef', 20 + i, 'DataDef_' + n) for i, n in enumerate(('Picture', 'Sound', 'Timecode')))


def users(cx, J, world, call):
    """objects that name a definition get it from the collection of its kind, and keep it in a property for that kind"""
    prog = cx.prog
    # (class, setter or argument, kind, getter)
    for name in ('Component', 'OperationDef'):
        if not prog.has_cls(name):
            continue
        for k in sorted(set(x.name for l in prog.classes.values() for x in l if prog.cls(name) in x.mro())):
            f = prog.cls(k).setter('media_kind')
            if f is None:
                continue
            for n, text in ((0, 'Apple'), (1, 'apple pie')):
                def put(m):
                    w, d = world(m)
                    o = w.fill(d)
                    x = w.bare(k)
                    m.setattr(x, 'media_kind', text)
                    return w.fits(cx), m.getattr(x, 'datadef') is o['DataDef', n], m.getattr(x, 'media_kind') == ('Apple', 'Apple Pie')[n]
                J.run('%s.media_kind %d' % (k, n), f.where, put, lambda m, v: None if v[0] is None else all(v), 'a media kind does not become a reference to the data definition of that name')
    for k, kind, args, get in (('OperationGroup', 'OperationDef', ['Apple Pie'], 'operation'), ('ConstantValue', 'ParameterDef', ['Apple Pie'], 'parameterdef'),
                               ('VaryingValue', 'ParameterDef', ['Apple Pie'], 'parameterdef'), ('VaryingValue', 'InterpolationDef', ['Apple', 'Apple Pie'], 'interpolationdef')):
        if not prog.has_cls(k) or prog.cls(k).method('__init__') is None:
            continue
        for how in ('name', 'identifier', 'itself'):
            def make(m):
                w, d = world(m)
                o = w.fill(d)
                w.cell_value(o['OperationDef', 1], 'DataDefinition', o['DataDef', 1])
                picture(w, d)
                a = list(args)
                if how != 'name':
                    a[-1] = o[kind, 1] if how == 'itself' else w.auid(1)
                x = w.create(k, *a)
                return w.fits(cx), m.getattr(x, get) is o[kind, 1], k != 'OperationGroup' or m.getattr(x, 'datadef') is o['DataDef', 1]
            J.run('%s by %s of %s' % (k, how, kind), prog.cls(k).method('__init__').where, make, lambda m, v: None if v[0] is None else all(v), 'it does not refer to the definition it was made with')
    if prog.has_cls('OperationGroup'):
        def kinds(m):
            w, d = world(m)
            o = w.fill(d)
            w.cell_value(o['OperationDef', 1], 'DataDefinition', o['DataDef', 1])
            picture(w, d)
            x = w.create('OperationGroup', 'Apple Pie', 10, 'Apple')
            return m.getattr(x, 'datadef') is o['DataDef', 0] and m.getattr(x, 'length') == 10
        J.run('OperationGroup media kind', prog.cls('OperationGroup').method('__init__').where, kinds, lambda m, v: v, 'the media kind it is made with is not the one it has')
