"""C16 store formats and property kinds; C17 the built-in model tables; C18 classes against the model"""
import ast
import json
import os
from .util import *
from .. import aafmodel
from ..aafmodel import plain
from ..consts import NotConst, norm, Ident, const, module_const
from ..model import Class, Func

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec', 'model.json')
INTS = {'aafUInt8': (1, False)}


def C17(cx):
    m = aafmodel.load(cx.prog)
    for con, why in m.undecided:
        cx.unk('C17.table', con, why)
    for con, where, msg in m.issues:
        cx.bad('C17.unique', con, where, msg)
    whole = not m.undecided
    if whole:
        cx.need('classes', len(m.classes), 60)
        cx.need('types', len(m.types), 100)
    closed(cx, m, whole)
    types_(cx, m, whole)
    paths(cx, m, whole)
    reference(cx, m, whole)
    registration(cx, m)


def closed(cx, m, whole):
    owner = {}
    for k in m.classes.values():
        cx.ok('C17.unique', 'class %s' % k.name)
        if whole:
            cx.check(k.parent is None or k.parent in m.classes, 'C17.closed', 'parent of %s' % k.name, k.where, 'the parent of class %s is not defined' % k.name)
        seen, a = [], k.auid
        while a in m.classes and a not in seen:
            seen.append(a)
            a = m.classes[a].parent
        cx.check(a not in seen, 'C17.closed', 'ancestors of %s' % k.name, k.where, 'class %s is its own ancestor' % k.name)
        byname, bypid, uniq = {}, {}, []
        for p in m.props(k.auid):
            if p.name in byname and byname[p.name] != p.auid:
                cx.bad('C17.unique', 'property names of %s' % k.name, k.where, 'two properties of class %s are called %s' % (k.name, p.name))
            if p.pid is not None and p.pid in bypid and bypid[p.pid] != p.auid:
                cx.bad('C17.unique', 'property numbers of %s' % k.name, k.where, 'the properties %s and %s of class %s have the same number' % (p.name, m_name(m, bypid[p.pid]), k.name))
            byname[p.name] = p.auid
            if p.pid is not None:
                bypid[p.pid] = p.auid
            if p.unique:
                uniq.append(p)
        cx.ok('C17.unique', 'properties of %s' % k.name)
        cx.check(len(set(p.auid for p in uniq)) <= 1, 'C17.unique', 'unique properties of %s' % k.name, k.where, 'class %s has several unique properties: %s' % (k.name, ', '.join(p.name for p in uniq)))
        for p in k.props:
            con = 'property %s.%s' % (k.name, p.name)
            o = owner.setdefault(p.auid, (k.auid, p))
            cx.check(o[0] == k.auid and o[1].name == p.name and o[1].typ == p.typ, 'C17.unique', con, k.where,
                     'the properties %s.%s and %s.%s have the same identifier' % (m.classes[o[0]].name, o[1].name, k.name, p.name))
            t = m.type_of(p.typ)
            if t is None:
                if whole:
                    cx.bad('C17.closed', con, k.where, 'the type of %s.%s is not defined' % (k.name, p.name))
                continue
            if p.layer == 'base' and t.layer == 'ext':
                cx.bad('C17.closed', con, k.where, 'the type of %s.%s only exists in the extension model' % (k.name, p.name))
            else:
                cx.ok('C17.closed', con)
            cx.check(not (p.unique and p.optional), 'C17.unique', con + ' key', k.where, '%s.%s is the key of its class but optional' % (k.name, p.name))
            if p.unique:
                n = m.size(t) if whole else 16
                cx.check(n in (16, 32), 'C17.unique', con + ' key type', k.where, 'the key %s.%s is no identifier' % (k.name, p.name))
            cx.check(p.pid is None or p.pid < 0x8000, 'C17.range', con, k.where, '%s.%s has a fixed number in the range of dynamic numbers' % (k.name, p.name))
            cx.check(p.layer == 'base' or p.optional or k.layer == 'ext', 'C17.ext', con, k.where, 'the extension adds the required property %s to class %s' % (p.name, k.name))


def m_name(m, auid):
    for k in m.classes.values():
        for p in k.props:
            if p.auid == auid:
                return p.name
    return auid


def types_(cx, m, whole):
    sized = whole
    for t in m.types.values():
        con = 'type %s' % t.name
        refs = []
        want = {'ints': 3, 'enums': 3, 'records': 2, 'fixed_arrays': 3, 'var_arrays': 2, 'renames': 2, 'strings': 2, 'streams': 1, 'opaques': 1,
                'extenums': 2, 'chars': 1, 'generic_chars': 2, 'indirects': 1, 'sets': 2, 'strongrefs': 2, 'weakrefs': 3}[t.cat]
        if len(t.row) != want:
            cx.bad('C17.shape', con, t.where, 'the row of %s type %s has %d fields, not %d' % (t.cat, t.name, len(t.row), want))
            continue
        cx.ok('C17.shape', con)
        if t.cat in ('enums', 'fixed_arrays', 'var_arrays', 'renames', 'strings', 'sets'):
            refs = [t.row[1]]
        elif t.cat == 'records':
            refs = [r for _, r in t.row[1]]
            names = [n for n, _ in t.row[1]]
            cx.check(len(set(names)) == len(names) and names, 'C17.unique', con + ' members', t.where, 'the record %s has two members of one name' % t.name)
        good = True
        for r in refs:
            x = m.type_of(r)
            if x is None:
                good = False
                if whole:
                    cx.bad('C17.closed', con, t.where, 'the type %s uses a type that is not defined' % t.name)
            elif t.layer == 'base' and x.layer == 'ext':
                good = False
                cx.bad('C17.closed', con, t.where, 'the type %s uses a type of the extension model' % t.name)
        if not good:
            continue
        cx.ok('C17.closed', con)
        # acyclic
        seen, todo, cyc = set(), list(refs), False
        while todo:
            x = m.type_of(todo.pop())
            if x is None or x.auid in seen:
                continue
            if x is t:
                cyc = True
                break
            seen.add(x.auid)
            if x.cat in ('enums', 'fixed_arrays', 'var_arrays', 'renames', 'strings', 'sets'):
                todo.append(x.row[1])
            elif x.cat == 'records':
                todo += [r for _, r in x.row[1]]
        cx.check(not cyc, 'C17.closed', con + ' cycle', t.where, 'the type %s contains itself' % t.name)
        if t.cat == 'ints':
            cx.check(t.row[1] in (1, 2, 4, 8) and isinstance(t.row[2], bool), 'C17.shape', con + ' width', t.where, 'the integer type %s has the width %r' % (t.name, t.row[1]))
        if t.cat in ('enums', 'extenums'):
            el = t.row[-1]
            cx.check(len(set(el.values())) == len(el), 'C17.unique', con + ' names', t.where, 'two values of %s have the same name' % t.name)
            if t.cat == 'enums':
                b = m.type_of(t.row[1])
                if b.cat == 'ints':
                    n, signed = b.row[1] * 8, b.row[2]
                    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
                    cx.check(all(isinstance(v, int) and lo <= v <= hi for v in el), 'C17.shape', con + ' values', t.where, 'a value of %s does not fit its integer type' % t.name)
                else:
                    cx.bad('C17.shape', con + ' base', t.where, 'the enumeration %s is not based on an integer type' % t.name)
            else:
                cx.check(all(norm(v) for v in el), 'C17.shape', con + ' values', t.where, 'a value of %s is no identifier' % t.name)
                cx.check(len(set(norm(v) for v in el)) == len(el), 'C17.unique', con + ' values', t.where, 'two values of %s are the same identifier' % t.name)
        if sized and t.cat in ('records', 'fixed_arrays'):
            cx.check(bool(m.size(t)), 'C17.shape', con + ' size', t.where, 'the type %s has no fixed size' % t.name)
        if sized and t.cat in ('var_arrays', 'sets') and m.sf(t) == 'data':
            e = m.type_of(t.row[1])
            cx.check(m.size(e) is not None or e.cat == 'chars', 'C17.shape', con + ' elements', t.where, 'the elements of %s have no fixed size' % t.name)
        if t.cat in ('strongrefs', 'weakrefs'):
            k = norm(t.row[1])
            if whole:
                cx.check(k in m.classes, 'C17.closed', con + ' class', t.where, 'the reference type %s refers to a class that is not defined' % t.name)
    # strong sets in use hold objects with a key
    for k in m.classes.values():
        for p in k.props:
            t = m.type_of(p.typ)
            if t is not None and m.sf(t) == 'strong set':
                e = m.type_of(t.row[1])
                ek = norm(e.row[1])
                if ek in m.classes:
                    key = any(q.unique for q in m.props(ek)) or any(x.name == 'ParameterDefinition' or x.name == 'Parameter' for x in m.chain(ek))
                    cx.check(key, 'C17.unique', 'keys of %s.%s' % (k.name, p.name), k.where, 'the set %s.%s holds objects without a key' % (k.name, p.name))


def paths(cx, m, whole):
    """weak reference target paths lead from the root to a collection of the referenced class"""
    root = m.names.get('Root')
    if root is None:
        cx.unk('C17.path', 'Root', 'not found')
        return
    for t in m.types.values():
        if t.cat != 'weakrefs' or len(t.row) != 3:
            continue
        at, ok, last = root, True, None
        con = 'target of %s' % t.name
        for a in t.row[2]:
            ps = [p for p in m.props(at) if p.auid == norm(a)] if at in m.classes else []
            if not ps:
                ok = False
                break
            last = m.type_of(ps[0].typ)
            e = last
            if e is not None and e.cat in ('sets', 'var_arrays'):
                e = m.type_of(e.row[1])
            if e is None or e.cat != 'strongrefs':
                ok = False
                break
            at = norm(e.row[1])
        if not ok:
            if whole:
                cx.bad('C17.path', con, t.where, 'the target path of the weak reference type %s does not lead through the model' % t.name)
            continue
        good = last is not None and m.sf(last) in ('strong set', 'strong') and any(x.auid == norm(t.row[1]) for x in m.chain(at))
        cx.check(good, 'C17.path', con, t.where, 'the target path of %s ends at %s, not at a collection of what it refers to' % (t.name, m.classes[at].name if at in m.classes else at))


def reference(cx, m, whole):
    """entries of the standard keep the identity the standard gives them"""
    with open(SPEC) as f:
        spec = json.load(f)
    have = m.dump()
    for a, k in spec['classes'].items():
        h = have['classes'].get(a)
        con = 'class %s' % k['name']
        if h is None:
            if whole:
                cx.bad('C17.spec', con, 'src/aaf2/model', 'the class %s is missing from the model or has another identifier' % k['name'])
            continue
        cx.check((h['name'], h['parent'], h['concrete']) == (k['name'], k['parent'], k['concrete']), 'C17.spec', con, m.classes[a].where,
                 'class %s is (name, parent, concrete) = (%s, %s, %s), the specification says (%s, %s, %s)' % (k['name'], h['name'], h['parent'], h['concrete'], k['name'], k['parent'], k['concrete']))
        for pa, p in k['props'].items():
            q = h['props'].get(pa)
            con = 'property %s.%s' % (k['name'], p[0])
            if q is None:
                if whole:
                    cx.bad('C17.spec', con, m.classes[a].where, 'the property %s.%s is missing from the model or has another identifier' % (k['name'], p[0]))
                continue
            cx.check(q == p, 'C17.spec', con, m.classes[a].where, '%s.%s is (name, number, type, optional, unique) = %s, the specification says %s' % (k['name'], p[0], q, p))
    for a, t in spec['types'].items():
        h = have['types'].get(a)
        con = 'type %s' % t['name']
        if h is None:
            if whole:
                cx.bad('C17.spec', con, 'src/aaf2/model', 'the type %s is missing from the model or has another identifier' % t['name'])
            continue
        if t['cat'] in ('enums', 'extenums'):
            ok = h['cat'] == t['cat'] and h['row'][:-1] == t['row'][:-1] and all(x in h['row'][-1] for x in t['row'][-1])
        else:
            ok = (h['cat'], h['row']) == (t['cat'], t['row'])
        cx.check(ok and h['name'] == t['name'], 'C17.spec', con, m.types[a].where, 'the type %s differs from the specification: %s' % (t['name'], diff(h, t)))


def diff(h, t):
    for k in ('name', 'cat'):
        if h[k] != t[k]:
            return '%s %s, not %s' % (k, h[k], t[k])
    for a, b in zip(h['row'], t['row']):
        if a != b:
            if isinstance(a, list) and isinstance(b, list):
                miss = [x for x in b if x not in a]
                return 'lacks %s' % (miss[0] if miss else '?')
            return '%s, not %s' % (a, b)
    return 'number of fields'


def registration(cx, m):
    """the registration functions put every table entry under its own name and identifier"""
    prog = cx.prog
    f = prog.func('metadict.MetaDictionary.register_classdef')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised or p.ret is None or p.ret == NONE:
            continue
        n += 1
        k = p.ret
        st = [(e.a, e.b) for e in p.ev if e.kind == 'setitem' and e.v == k]
        byname = any(ends(a, 'classdefs_by_name') and b == ('p', f.params[1]) for a, b in st)
        byid = any(ends(a, 'classdefs_by_auid') for a, b in st)
        cx.check(byname, 'C17.register', 'class by name', f.where, 'a registered class is not found by its name', p)
        cx.check(byid, 'C17.register', 'class by identifier', f.where, 'a registered class is not found by its identifier', p)
    cx.need('class registration paths', n, 1)
    f = prog.func('metadict.MetaDictionary.register_typedef_model')
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        made = [e for e in p.ev if e.kind == 'call' and e.name == 'add2set' or e.kind == 'setitem' and ends(e.a, 'typedefs_by_auid')]
        if not made:
            continue
        n += 1
        a = any(e.kind == 'setitem' and ends(e.a, 'typedefs_by_name') for e in p.ev)
        b = any(e.kind == 'setitem' and ends(e.a, 'typedefs_by_auid') for e in p.ev)
        cx.check(a and b, 'C17.register', 'types', f.where, 'a registered type is not found by its %s' % ('identifier' if a else 'name'), p)
    cx.need('type registration paths', n, 1)
    # every table of the type model has a class that builds its types, with room for the fields of its rows
    try:
        cats = module_const(prog, prog.module('types').name, 'categories')
    except (NotConst, KeyError) as x:
        cx.unk('C17.register', 'categories', str(x))
        return
    want = {'ints': 'TypeDefInt', 'enums': 'TypeDefEnum', 'records': 'TypeDefRecord', 'fixed_arrays': 'TypeDefFixedArray', 'var_arrays': 'TypeDefVarArray',
            'renames': 'TypeDefRename', 'strings': 'TypeDefString', 'streams': 'TypeDefStream', 'opaques': 'TypeDefOpaque', 'extenums': 'TypeDefExtEnum',
            'chars': 'TypeDefCharacter', 'generic_chars': 'TypeDefGenericCharacter', 'indirects': 'TypeDefIndirect', 'sets': 'TypeDefSet',
            'strongrefs': 'TypeDefStrongRef', 'weakrefs': 'TypeDefWeakRef'}
    used = {}
    for t in m.types.values():
        used.setdefault(t.cat, t)
    where = prog.module('types').rel
    for cat, t in sorted(used.items()):
        k = cats.get(cat)
        if not isinstance(k, Class):
            cx.check(k is not None, 'C17.register', 'category %s' % cat, where, 'the %s types of the model are never registered' % cat)
            continue
        cx.check(k.is_subclass(want[cat]) and (k.name == want[cat] or not prog.has_cls(want[cat])), 'C17.register', 'category %s' % cat, where, '%s types are built by %s' % (cat, k.name))


# ---------------------------------------------------------------------------- C16

FORMATS = {0x82: 'Property', 0x42: 'StreamProperty', 0x22: 'StrongRefProperty', 0x32: 'StrongRefVectorProperty', 0x3A: 'StrongRefSetProperty',
           0x02: 'WeakRefProperty', 0x12: 'WeakRefVectorProperty', 0x1A: 'WeakRefSetProperty', 0x03: 'WeakRefPropertyId', 0x86: 'UniqueIdProperty', 0x40: 'OpaqueStreamProperty'}
SF = {'data': 0x82, 'stream': 0x42, 'strong': 0x22, 'strong vector': 0x32, 'strong set': 0x3A, 'weak': 0x02, 'weak vector': 0x12, 'weak set': 0x1A}


def C16(cx):
    prog = cx.prog
    mod = prog.module('properties')
    try:
        table = module_const(prog, mod.name, 'property_formats')
    except (NotConst, KeyError) as x:
        cx.unk('C16.table', 'property_formats', str(x))
        table = None
    if table is not None:
        for fmt, name in sorted(FORMATS.items()):
            k = table.get(fmt)
            con = 'format 0x%02x' % fmt
            if k is None:
                cx.bad('C16.table', con, mod.rel, 'stored properties of format 0x%02x (%s) are not handled' % (fmt, name))
            elif isinstance(k, Class):
                cx.check(k.name == name or k.is_subclass(name) and name != 'Property', 'C16.table', con, mod.rel, 'stored properties of format 0x%02x are read as %s, not %s' % (fmt, k.name, name))
        for fmt in table:
            if fmt not in FORMATS and fmt not in (0xD2, 0xDA):
                cx.bad('C16.table', 'format %r' % (fmt,), mod.rel, 'the format %r is not one of the stored format' % (fmt,))
    constructed(cx, table)
    reading(cx)
    model_formats(cx, table)


def const_of(cx, t):
    """constant value of a term naming a module constant"""
    if is_c(t):
        return cval(t)
    if t[0] == 'g':
        mod, _, nm = t[1].rpartition('.')
        try:
            m = cx.prog.module(mod)
            return module_const(cx.prog, m.name, nm)
        except (NotConst, KeyError, AnalysisBroken):
            return None
    return None


def constructed(cx, table):
    """a property built with a constant format is built by the class of that format"""
    kinds = dict((k.name, k) for k in [cx.prog.cls('Property')] + list(cx.prog.subclasses('Property')))
    n = 0
    for f in cx.prog.funcs:
        for node in ast.walk(f.node):
            if not isinstance(node, ast.Call):
                continue
            r = cx.prog.resolve_expr(f.module, node.func) if isinstance(node.func, (ast.Name, ast.Attribute)) else None
            if not isinstance(r, Class) or r.name not in kinds:
                continue
            a = node.args[2] if len(node.args) > 2 else next((k.value for k in node.keywords if k.arg == 'format'), None)
            if a is None:
                continue
            try:
                fmt = const(cx.prog, f.module, a)
            except NotConst:
                continue
            n += 1
            name = FORMATS.get(fmt)
            cx.check(name is not None and (r.name == name or name != 'Property' and r.is_subclass(name)), 'C16.build', '%s in %s' % (r.name, f.qual), '%s:%d' % (f.module.rel, node.lineno),
                     'a %s is built with the format %r, which is that of %s' % (r.name, fmt, name))
    cx.need('properties built with a constant format', n, 8)


def reading(cx):
    """the stored format code selects the class, and the property keeps it; so does a new property"""
    for q, what in (('core.AAFObject.read_properties', 'reading'), ('core.AAFObject.get', 'creating')):
        f = cx.prog.func(q)
        n = 0
        for p in cx.paths(f, assume=True, unroll=1):
            for e in p.ev:
                if e.kind != 'call' or e.v is None or e.v[0] != 'call':
                    continue
                tt = e.v[1]
                if tt[0] == 'call' and tt[1][0] == 'a' and tt[1][2] == 'get' and tt[2]:
                    tt = ('i', tt[1][1], tt[2][0])
                if tt[0] != 'i' or not (tt[1][0] in ('g', 'a') and str(tt[1][1] if tt[1][0] == 'g' else tt[1][2]).endswith('property_formats')):
                    continue
                n += 1
                fmt = e.arg(2, 'format')
                cx.check(fmt == tt[2], 'C16.keep', what, e.where, 'a property of format %s is kept as format %s' % (show(tt[2]), show(fmt) if fmt is not None else None), p)
                par = e.arg(0, 'parent')
                cx.check(par == ('p', f.params[0]), 'C16.keep', what + ' parent', e.where, 'the property does not belong to the object', p)
                if what == 'creating':
                    pid = e.arg(1, 'pid')
                    ok = pid is not None and pid[0] == 'a' and pid[2] == 'pid'
                    src = tt[2]
                    if ok and src[0] == 'a' and src[2] == 'store_format':
                        cx.check(src[1] == pid[1], 'C16.keep', 'creating format', e.where, 'the format is that of another property', p)
                    elif ok and const_of(cx, src) is not None:
                        key = ('p', f.params[1])
                        special = any(x.kind == 'assume' and x.b and mentions(x.a, lambda s: s == pid[1]) and not mentions(x.a, lambda s: s == key) for x in p.ev)
                        cx.check(special, 'C16.keep', 'creating format', e.where, 'every property is created with the format %s whatever its type' % show(src), p)
        if not n:
            cx.unk('C16.keep', what, 'no dispatch found')


def model_formats(cx, table):
    """the store format of every type of the model"""
    m = aafmodel.load(cx.prog)
    prog = cx.prog
    try:
        cats = module_const(prog, prog.module('types').name, 'categories')
    except (NotConst, KeyError) as x:
        cx.unk('C16.model', 'categories', str(x))
        return
    memo = {}
    rev = {}

    def result(k, elem):
        """store_format of class k when its element type has format elem"""
        key = (k.name, elem)
        if key in memo:
            return memo[key]
        g = k.getter('store_format')
        r = None
        if g is not None:
            r = set()
            leaf = elem
            from .order import ev as fold, Unk
            try:
                for p in cx.paths(g, assume=True, selfcls=k, inline=('store_format',)):
                    ok = True
                    for e in p.ev:
                        if e.kind == 'assume':
                            try:
                                if bool(fold(e.a, lambda t: look(cx, t, leaf))) != e.b:
                                    ok = False
                                    break
                            except Unk:
                                pass
                    if not ok:
                        continue
                    if p.raised:
                        r.add('raises')
                        continue
                    try:
                        r.add(fold(p.ret, lambda t: look(cx, t, leaf)))
                    except Unk:
                        r.add(None)
            except AnalysisBroken:
                r = None
        memo[key] = r
        return r
    n = 0
    for t in m.types.values():
        k = cats.get(t.cat)
        if not isinstance(k, Class):
            continue
        want = SF[m.sf(t)]
        elem = None
        if t.cat in ('var_arrays', 'sets'):
            e = m.type_of(t.row[1])
            if e is None:
                continue
            elem = SF[m.sf(e)]
        got = result(k, elem)
        con = 'type %s' % t.name
        if not got or None in got or len(got) != 1:
            cx.unk('C16.model', con, str(got))
            continue
        n += 1
        v = next(iter(got))
        g = k.getter('store_format')
        cx.check(v == want, 'C16.model', con, g.where, 'properties of type %s are stored as %s, the stored format says 0x%02x' % (t.name, v if v == 'raises' else '0x%02x' % v, want))
        if table is not None and v != 'raises':
            cx.check(v in table, 'C16.model', con + ' handled', g.where, 'properties of type %s get the format 0x%02x, which no class handles' % (t.name, v))
    if not n:
        cx.unk('C16.model', 'store formats', 'none could be evaluated')


def look(cx, t, elem):
    v = const_of(cx, t)
    if v is not None:
        return (v,)
    if t[0] == 'a' and t[2] == 'store_format' and elem is not None and t[1][0] != 'p':
        return (elem,)
    return None


# ---------------------------------------------------------------------------- C18

PROPKIND = {'data': 'Property', 'stream': 'StreamProperty', 'strong': 'StrongRefProperty', 'strong vector': 'StrongRefVectorProperty', 'strong set': 'StrongRefSetProperty',
            'weak': 'WeakRefProperty', 'weak vector': 'WeakRefVectorProperty', 'weak set': 'WeakRefSetProperty'}


def class_id_of(cx, k):
    for b in k.mro():
        e = b.attrs.get('class_id')
        if e is not None:
            try:
                v = const(cx.prog, b.module, e)
            except NotConst:
                return None
            return norm(v) if isinstance(v, str) else None
    return None


def C18(cx):
    m = aafmodel.load(cx.prog)
    for con, why in m.undecided:
        cx.unk('C18.table', con, why)
    if m.undecided:
        return
    classes(cx, m)
    names(cx, m)
    numbered(cx, m)


def classes(cx, m):
    objs = [k for k in cx.prog.subclasses('AAFObject') if k.name != 'AAFObject']
    seen = {}
    n = 0
    for k in objs:
        if 'class_id' not in k.attrs:
            continue
        e = k.attrs['class_id']
        where = '%s:%d' % (k.module.rel, e.lineno)
        try:
            v = const(cx.prog, k.module, e)
        except NotConst as x:
            cx.unk('C18.class', k.name, str(x))
            continue
        a = norm(v) if isinstance(v, str) else None
        if v is None:
            continue
        n += 1
        if not cx.check(a in m.classes, 'C18.class', 'class %s' % k.name, where, 'no class of the model has the identifier of %s' % k.name):
            continue
        mk = m.classes[a]
        if k.name in m.names:
            cx.check(m.names[k.name] == a, 'C18.class', 'class %s' % k.name, where, 'class %s has the identifier of %s' % (k.name, mk.name))
        if not ({k.name, mk.name} & LOOSE) and k.name not in m.names:
            cx.unk('C18.class', k.name, 'its name is not in the model')
        for b in k.mro()[1:]:
            if 'class_id' in b.attrs:
                ba = class_id_of(cx, b)
                if ba in m.classes:
                    cx.check(any(x.auid == ba for x in m.chain(a)), 'C18.class', 'base of %s' % k.name, where, '%s is built on %s, which is not among its ancestors in the model' % (k.name, m.classes[ba].name))
                break
        reg = registered(cx, k)
        if reg is not None:
            if mk.concrete:
                cx.check(reg, 'C18.register', 'class %s' % k.name, where, 'objects of class %s are not read as %s, which is never registered' % (mk.name, k.name))
            if reg:
                o = seen.setdefault(a, k)
                cx.check(o is k, 'C18.register', 'class %s' % k.name, where, '%s and %s are registered for the same class' % (o.name, k.name))
    cx.need('object classes', n, 40)
    f = cx.prog.func('utils.register_class')
    arg = ('p', f.params[0])
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        st = [(e.a, e.b, e.v) for e in p.ev if e.kind == 'setitem']
        cx.check(any(b == ('a', arg, 'class_id') and v == arg for a, b, v in st), 'C18.register', 'by identifier', f.where, 'a registered class is not found by its identifier', p)
        cx.check(any(b == ('a', arg, '__name__') and v == arg for a, b, v in st), 'C18.register', 'by name', f.where, 'a registered class is not found by its name', p)
        cx.check(p.ret == arg, 'C18.register', 'decorated class', f.where, 'registering a class replaces it', p)


LOOSE = set()


def registered(cx, k):
    for d in k.node.decorator_list:
        if 'register_class' in ast.unparse(d):
            return True
    for st in ast.walk(k.module.tree):
        if isinstance(st, ast.Call) and 'register' in ast.unparse(st.func) and any(isinstance(a, ast.Name) and a.id == k.name for a in st.args):
            return True
        if isinstance(st, (ast.For,)) and k.name in ast.unparse(st.iter):
            return None
    if k.node.decorator_list:
        return None
    return False


class Recv(object):
    """what the object in front of a named property access can be"""
    def __init__(self, cx, m, f):
        self.cx, self.m, self.f = cx, m, f
        self.env = {}
        many = {}
        for n in ast.walk(f.node):
            for t in targets(n):
                many[t] = many.get(t, 0) + 1
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                v = self.made(n.value)
                if v is not None:
                    self.env.setdefault(nm, set()).add(v)
                else:
                    self.env.setdefault(nm, set()).add(None)
        for nm, c_ in many.items():
            if nm in self.env and c_ != sum(1 for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == nm):
                self.env[nm].add(None)
        for a in f.params:
            if a in self.env:
                self.env[a].add(None)

    def made(self, e):
        """model class of a created object"""
        if isinstance(e, ast.Call):
            g = e.func
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Attribute) and g.value.attr == 'create' and not isinstance(g.value.value, ast.Call):
                return self.m.names.get(g.attr)
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and self.f.cls is not None and self.f.params[:1] == [g.value.id]:
                h = self.f.cls.method(g.attr)
                if h is not None and not self.cx.prog_overrides(self.f.cls, g.attr):
                    rs = [n.value for n in ast.walk(h.node) if isinstance(n, ast.Return)]
                    if len(rs) == 1 and rs[0] is not None and isinstance(rs[0], ast.Call):
                        c_ = rs[0].func
                        if isinstance(c_, ast.Attribute) and isinstance(c_.value, ast.Attribute) and c_.value.attr == 'create':
                            return self.m.names.get(c_.attr)
        return None

    def classes(self, e):
        """(set of model class ids, exact?) or None when unknown"""
        if isinstance(e, ast.Name):
            if self.f.cls is not None and self.f.params[:1] == [e.id] and self.f.kind not in ('static', 'classmethod'):
                if self.f.cls.is_subclass('AAFObject'):
                    a = class_id_of(self.cx, self.f.cls)
                    return ({a}, False) if a else None
                return 'other'
            v = self.env.get(e.id)
            if v and None not in v:
                return (v, True)
            return None
        if isinstance(e, ast.Attribute):
            if e.attr in ('header', 'content', 'dictionary') and not (isinstance(e.value, ast.Name) and e.value.id == 'self' and self.f.cls is not None and self.f.cls.name not in ('AAFFile',)):
                a = self.m.names.get({'header': 'Header', 'content': 'ContentStorage', 'dictionary': 'Dictionary'}[e.attr])
                return ({a}, False) if a else None
            if e.attr == 'root' and isinstance(e.value, ast.Name) and self.f.cls is not None and self.f.cls.name == 'AAFFile' and self.f.params[:1] == [e.value.id]:
                a = self.m.names.get('Root')
                return ({a}, False) if a else None
        if isinstance(e, ast.Call):
            a = self.made(e)
            return ({a}, True) if a else None
        return None


def targets(n):
    out = []
    if isinstance(n, ast.Assign):
        for t in n.targets:
            out += [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
        out += [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
        out += [x.id for x in ast.walk(n.optional_vars) if isinstance(x, ast.Name)]
    return out


def overrides(prog, k, name):
    return any(name in s.methods for s in prog.subclasses(k.name) if s is not k)


def names(cx, m):
    cx.prog_overrides = lambda k, n: overrides(cx.prog, k, n)
    allprops = {}
    for k in m.classes.values():
        for p in k.props:
            allprops.setdefault(p.name, []).append((k, p))
    n = made = 0
    for f in cx.prog.funcs:
        if f.module.name.startswith('model'):
            continue
        r = Recv(cx, m, f)
        parents = {}
        for a in ast.walk(f.node):
            for b in ast.iter_child_nodes(a):
                parents[b] = a
        for node in ast.walk(f.node):
            where = '%s:%d' % (f.module.rel, getattr(node, 'lineno', 0))
            # created classes
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Attribute) and node.value.attr == 'create' and isinstance(parents.get(node), ast.Call) and parents[node].func is node:
                if node.attr == 'from_name':
                    continue
                made += 1
                a = m.names.get(node.attr)
                cx.check(a is not None, 'C18.create', '%s in %s' % (node.attr, f.qual), where, '%s creates a %s, which is no class of the model' % (f.qual, node.attr))
                if a is not None:
                    cx.check(m.classes[a].concrete, 'C18.create', '%s in %s' % (node.attr, f.qual), where, '%s creates a %s, which is an abstract class' % (f.qual, node.attr))
                continue
            key = recv = None
            strong = False
            if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str):
                key, recv = node.slice.value, node.value
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('get', 'getvalue') and node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str):
                key, recv = node.args[0].value, node.func.value
                strong = node.func.attr == 'getvalue'
            elif isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                key, recv = node.left.value, node.comparators[0]
            if key is None:
                continue
            par = parents.get(node)
            use = par.attr if isinstance(par, ast.Attribute) and par.value is node else None
            cl = r.classes(recv)
            if cl == 'other':
                continue
            con = '%s in %s' % (key, f.qual)
            if isinstance(recv, ast.Attribute) and recv.attr in ('property_entries', 'classdefs_by_name', 'typedefs_by_name'):
                continue
            if cl is not None:
                ids, exact = cl
                if not all(i in m.classes for i in ids):
                    continue
                n += 1
                ok = any(key in m.prop_names(i, down=not exact) for i in ids)
                cx.check(ok, 'C18.name', con, where, '%s uses the property %s, which %s does not have' % (f.qual, key, ' or '.join(sorted(m.classes[i].name for i in ids))))
                cand = [p for i in ids for p in (m.props(i) + ([] if exact else [q for k in m.below(i) for q in k.props])) if p.name == key]
            else:
                if not (strong or use in ('value', 'add_pid_entry', 'ref', 'typedef', 'append')) or not isinstance(node, (ast.Subscript, ast.Call)):
                    continue
                if use == 'append' and key not in allprops:
                    continue        # may be a plain list in a dictionary
                n += 1
                cx.check(key in allprops, 'C18.name', con, where, '%s uses the property %s, which no class has' % (f.qual, key))
                cand = [p for k, p in allprops.get(key, [])]
            # what is done with it exists for its kind
            if use and cand and not (isinstance(node, ast.Call) and node.func.attr == 'getvalue'):
                kinds = set()
                for p in cand:
                    t = m.type_of(p.typ)
                    if t is None:
                        kinds.add(None)
                    else:
                        kinds.add(m.sf(t))
                        if p.name == 'Parameters':
                            kinds.add('strong set')
                if None not in kinds:
                    good = any(has_member(cx, PROPKIND[x], use) for x in kinds)
                    cx.check(good, 'C18.kind', '%s of %s' % (use, con), where, '%s uses %s of the property %s, which is a %s property' % (f.qual, use, key, '/'.join(sorted(kinds))))
    cx.need('named property uses', n, 60)
    cx.need('created objects', made, 20)


def has_member(cx, kname, attr):
    k = cx.prog.cls(kname)
    if attr.startswith('__'):
        return True
    for b in k.mro():
        if attr in b.methods or attr in b.getters or attr in b.setters or attr in b.attrs:
            return True
        for g in b.all_funcs():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and g.params[:1] == [n.value.id]:
                    return True
        sl = b.attrs.get('__slots__')
        if sl is not None and repr(attr) in ast.unparse(sl):
            return True
    return False


def numbered(cx, m):
    """built-in objects that work with property numbers use those of the model, with the encoding of their type"""
    n = 0
    for f in cx.prog.funcs:
        k = f.cls
        if k is None or not k.is_subclass('AAFObject'):
            continue
        a = class_id_of(cx, k)
        if a not in m.classes:
            continue
        pids = {}
        for p in m.props(a) + [q for b in m.below(a) for q in b.props]:
            if p.pid is not None:
                pids.setdefault(p.pid, []).append(p)
        own = f.params[0] if f.params else None
        for node in ast.walk(f.node):
            where = '%s:%d' % (f.module.rel, getattr(node, 'lineno', 0))
            num = None
            if isinstance(node, ast.Subscript) and is_entries(node.value, own):
                num = node.slice
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('get', 'pop') and is_entries(node.func.value, own) and node.args:
                num = node.args[0]
            elif isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and is_entries(node.comparators[0], own):
                num = node.left
            if num is not None:
                try:
                    v = const(cx.prog, f.module, num)
                except NotConst:
                    continue
                n += 1
                cx.check(v in pids, 'C18.number', '%s in %s' % (ast.unparse(num), f.qual), where, '%s uses the property number %r, which %s does not have' % (f.qual, v, m.classes[a].name))
            if isinstance(node, ast.Call):
                g = cx.prog.resolve_expr(f.module, node.func) if isinstance(node.func, (ast.Name, ast.Attribute)) else None
                if isinstance(g, Func) and g.module.name == 'properties' and g.name in ENC and len(node.args) >= 2 and isinstance(node.args[0], ast.Name) and node.args[0].id == 'self':
                    try:
                        v = const(cx.prog, f.module, node.args[1])
                    except NotConst:
                        continue
                    n += 1
                    con = '%s in %s' % (ast.unparse(node.args[1]), f.qual)
                    if not cx.check(v in pids, 'C18.number', con, where, '%s sets the property number %r, which %s does not have' % (f.qual, v, m.classes[a].name)):
                        continue
                    p = pids[v][0]
                    t = m.type_of(p.typ)
                    cx.check(ENC[g.name](m, t), 'C18.number', con + ' encoding', where, '%s encodes %s.%s, of type %s, with %s' % (f.qual, m.classes[a].name, p.name, t.name if t else p.typ, g.name))
                    if g.name in ('add_strongref_set_property', 'add_typedef_weakref_vector_property') and len(node.args) > 2 and isinstance(node.args[2], ast.Constant):
                        cx.check(node.args[2].value == p.name, 'C18.number', con + ' name', where, '%s names the property %s %s' % (f.qual, p.name, node.args[2].value))
    cx.need('numbered property uses', n, 20)
    # lookups of built-in definitions by constant
    for f in cx.prog.funcs:
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('lookup_classdef', 'lookup_typedef') and len(node.args) == 1:
                try:
                    v = const(cx.prog, f.module, node.args[0])
                except NotConst:
                    continue
                if not isinstance(v, str):
                    continue
                where = '%s:%d' % (f.module.rel, node.lineno)
                if node.func.attr == 'lookup_classdef':
                    ok = (norm(v) in m.classes) if norm(v) else v in m.names
                else:
                    ok = (norm(v) in m.types) if norm(v) else v in m.tnames
                cx.check(ok, 'C18.lookup', '%s in %s' % (v, f.qual), where, '%s looks up %s, which the model does not have' % (f.qual, v))


def is_entries(e, own):
    return isinstance(e, ast.Attribute) and e.attr == 'property_entries' and isinstance(e.value, ast.Name) and e.value.id == own


def _int(n, signed=None):
    def t(m, x):
        return x is not None and m.size(x) == n and x.cat in ('ints', 'enums') and x.name != 'Boolean'
    return t


def _named(*names):
    return lambda m, x: x is not None and x.name in names


def _weak(cls, vec=False):
    def t(m, x):
        if x is not None and vec:
            if m.sf(x) != 'weak vector':
                return False
            x = m.type_of(x.row[1])
        return x is not None and x.cat == 'weakrefs' and m.classes.get(norm(x.row[1])) is not None and m.classes[norm(x.row[1])].name == cls
    return t


ENC = {
    'add_string_property': _named('aafString'), 'add_bool_property': _named('Boolean'), 'add_u32le_property': _int(4), 'add_u16le_property': _int(2),
    'add_u8_property': _int(1), 'add_auid_property': _named('AUID'), 'add_auid_array_propertry': _named('aafAUIDArray'), 'add_utf16_array_property': _named('aafStringArray'),
    'add_s64le_array_property': _named('aafInt64Array'), 'add_classdef_weakref_property': _weak('ClassDefinition'), 'add_typedef_weakref_property': _weak('TypeDefinition'),
    'add_strongref_set_property': lambda m, x: x is not None and m.sf(x) == 'strong set', 'add_typedef_weakref_vector_property': _weak('TypeDefinition', True),
}
