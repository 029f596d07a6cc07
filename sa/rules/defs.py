"""C15: definitions copied between files keep every attribute, and are registered where a second
copy finds them.  C19: numbers of the dynamic range are handed out once.

The attributes of a definition are the stored properties its constructor writes.  For each one the
rule traces where the value comes from: constructor parameter -> property number -> accessor that
reads this number again -> argument that `copy` passes for the parameter.
"""
from .util import *
from .. import aafmodel
from .cfb_header import packed

# property numbers of the meta definitions: (accessor, numbers read, encoding)
SPEC = {
    'TypeDef': {'type_name': {6}, 'auid': {5}},
    'TypeDefInt': {'size': {0x0F}, 'signed': {0x10}},
    'TypeDefStrongRef': {'ref_classdef': {0x11}},
    'TypeDefWeakRef': {'ref_classdef': {0x12}, 'target_set_path': {0x13}},
    'TypeDefEnum': {'element_typedef': {0x14}, 'elements': {0x15, 0x16}},
    'TypeDefFixedArray': {'element_typedef': {0x17}, 'size': {0x18}},
    'TypeDefVarArray': {'element_typedef': {0x19}},
    'TypeDefSet': {'element_typedef': {0x1A}},
    'TypeDefString': {'element_typedef': {0x1B}},
    'TypeDefRecord': {'member_names': {0x1D}, 'member_types': {0x1C}, 'fields': {0x1C, 0x1D}},
    'TypeDefRename': {'renamed_typedef': {0x1E}},
    'TypeDefExtEnum': {'elements': {0x1F, 0x20}},
    'PropertyDef': {'property_name': {6}, 'auid': {5}, 'pid': {0x0D}, 'typedef_id': {0x0B}, 'optional': {0x0C}, 'unique': {0x0E}},
    'ClassDef': {'class_name': {6}, 'auid': {5}, 'concrete': {0x0A}, 'parent_id': {0x08}, 'propertydefs': {0x09}},
}
CODEC = {6: 'utf16', 5: 'auid', 0x0F: 'B', 0x10: 'bool', 0x18: '<I', 0x15: 'utf16s', 0x16: '<q*', 0x1D: 'utf16s', 0x1F: 'utf16s', 0x20: 'auids',
         0x13: 'auids', 0x0A: 'bool', 0x0C: 'bool', 0x0E: 'bool', 0x0D: '<H', 0x0B: 'auid'}
SELF = ('p', 'self')


def me_of(f):
    return ('p', f.params[0])


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t or is_c(t):
        return t
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def returns(cx, f, selfcls=None):
    """what a function gives, without its failures, its cached values and "nothing" """
    me = me_of(f)
    out = []
    for p in cx.paths(f, selfcls=selfcls):
        if p.raised or p.ret is None:
            continue
        r = p.ret
        if r == NONE or r[0] == 'list' and not r[1] or r == FALSE:
            continue
        if r[0] == 'a' and r[1] == me and r[2].startswith('_'):
            v = [e.v for e in p.ev if e.kind == 'set' and e.a == me and e.b == r[2]]
            if not v:
                continue
            r = v[-1]
        r = subst(r, me, SELF)
        if r not in out:
            out.append(r)
    return out


def expand(cx, cls, t, depth=0):
    """replace attributes computed by accessors of the class by what the accessor gives"""
    if depth > 6 or not isinstance(t, tuple) or not t or is_c(t):
        return t
    if t[0] == 'a' and t[1] == SELF:
        g = cls.getter(t[2])
        if g is not None:
            rs = returns(cx, g, cls)
            if rs:
                r = rs[0] if len(rs) == 1 else ('alt', tuple(rs))
                return expand(cx, cls, r, depth + 1)
    if t[0] == 'call' and t[1][0] == 'a' and t[1][1] == SELF and not t[2] and not t[3]:
        m = cls.method(t[1][2])
        if m is not None:
            rs = returns(cx, m, cls)
            if rs:
                r = rs[0] if len(rs) == 1 else ('alt', tuple(rs))
                return expand(cx, cls, r, depth + 1)
    return tuple(expand(cx, cls, x, depth) if isinstance(x, tuple) else x for x in t)


def class_names(cx, cls):
    """name -> number of the stored properties of a definition class"""
    m = cx.memo.get('aafmodel')
    if m is None:
        m = cx.memo['aafmodel'] = aafmodel.load(cx.prog)
    from ..consts import norm as anorm
    auid = None
    e = cls.attr('class_id')
    try:
        from ..consts import const
        v = const(cx.prog, cls.module, e)
        auid = anorm(v)
    except Exception:
        import ast
        if e is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    auid = anorm(n.value)
    out = {}
    if auid in m.classes:
        for k in m.chain(auid):
            for p in k.props if hasattr(k, 'props') else m.classes[k].props:
                if p.pid is not None:
                    out[p.name] = p.pid
    return out


def entry_of(t):
    """number of the property entry a term denotes, or None"""
    if t[0] == 'i' and t[1][0] == 'a' and t[1][2] == 'property_entries' and t[1][1] == SELF:
        return t[2]
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('get', 'pop') and t[1][1] == ('a', SELF, 'property_entries') and t[2]:
        return t[2][0]
    return None


def pids(cx, cls, t):
    """numbers of the stored properties a (expanded) term reads; 'dyn' for a computed number"""
    out = set()
    names = None
    for s in subterms(t):
        k = entry_of(s)
        if k is not None:
            out.add(cval(k) if is_c(k) else 'dyn')
            continue
        n = None
        if s[0] == 'i' and s[1] == SELF and is_c(s[2]):
            n = cval(s[2])
        elif s[0] == 'call' and s[1] in (('a', SELF, 'get'), ('a', SELF, 'getvalue')) and s[2] and is_c(s[2][0]):
            n = cval(s[2][0])
        if isinstance(n, str):
            if names is None:
                names = class_names(cx, cls)
            out.add(names.get(n, '?' + n))
    return out


# -- encodings --------------------------------------------------------------------------------

def write_codec(cx, f):
    """encoding that an add_..._property helper stores: name of the encoding / None"""
    me, vp = me_of(f), ('p', f.params[-1])
    got = set()
    bools = {}
    for p in cx.paths(f, inline=('*', '-bytes_le', '-__init__', '-__new__'), assume=True):
        if p.raised:
            continue
        cd = conds(p)
        for e in p.ev:
            if e.kind == 'set' and e.b == 'data':
                v = e.v
                if v in (c(b''), NONE):
                    continue
                if is_c(v):
                    if vp in cd:
                        bools[cd[vp]] = cval(v)
                    else:
                        got.add(None)
                    continue
                got.add(codec_of(v, write=True))
        
    if bools:
        if bools.get(True) == b'\x01' and bools.get(False) == b'\x00' and not got:
            return 'bool'
        if bools.get(True) == b'\x00' or bools.get(False) == b'\x01':
            return 'inverted bool'
        return None
    got.discard('empty')
    return got.pop() if len(got) == 1 else None


def each(t):
    return contains(t, lambda s: s[0] in ('elem', 'key', 'comp'))


def utf16(t):
    for s in subterms(t):
        if s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('encode', 'decode') and s[2] and is_c(s[2][0]):
            v = str(cval(s[2][0])).lower().replace('_', '-').replace('utf-16-', 'utf-16').replace('utf16', 'utf-16')
            return v
    return None


def codec_of(t, write=False):
    enc = utf16(t)
    if enc is not None:
        k = 'utf16' if enc == 'utf-16le' else enc
        return k + ('s' if each(t) else '')
    for s in subterms(t):
        pk = packed(s) if write else None
        if pk and pk[0] not in (None, '?'):
            return pk[0] + ('*' if each(t) else '')
    if contains(t, lambda s: s[0] == 'a' and s[2] in ('bytes_le', 'bytes')):
        b = [s[2] for s in subterms(t) if s[0] == 'a' and s[2] in ('bytes_le', 'bytes')]
        return ('auid' if b[0] == 'bytes_le' else 'auid-be') + ('s' if each(t) else '')
    return None


def read_codec(cx, t, pid):
    """encoding by which an expanded accessor term reads the property `pid`"""
    t = cx.unfold(t)

    def is_entry(s):
        k = entry_of(s)
        return k is not None and (is_c(k) and cval(k) == pid)

    def has(s):
        return contains(s, is_entry)
    best = None
    for s in subterms(t):
        if not has(s):
            continue
        if s[0] == 'cmp' and s[1] in ('==', '!=') and s[3] in (c(b'\x01'), c(b'\x00')) and s[2][0] == 'a' and is_entry(s[2][1]):
            pos = (s[1] == '==') == (s[3] == c(b'\x01'))
            return 'bool' if pos else 'inverted bool'
        if s[0] == 'new' and s[1].endswith('AUID') and any(k == 'bytes_le' and has(v) for k, v in s[3]):
            return 'auid'
        if s[0] == 'new' and s[1].endswith('AUID') and any(k == 'bytes' and has(v) for k, v in s[3]):
            return 'auid-be'
        if s[0] == 'call' and s[1] == ('ext', 'struct.unpack') and len(s[2]) == 2 and has(s[2][1]):
            if contains(s[2][1], lambda x: x[0] == 'a' and x[2] == 'data' and is_entry(x[1])):
                f = s[2][0]
                if is_c(f):
                    v = cval(f)
                    return v.decode() if isinstance(v, bytes) else v
                if f[0] == 'bin' and f[1] == '%' and is_c(f[2]):
                    v = cval(f[2])
                    v = v.decode() if isinstance(v, bytes) else v
                    return v.replace('%d', '').replace('%i', '') + '*'
        if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'decode' and has(s[1][1]):
            return utf16(s)
        if s[0] == 'call' and s[1][0] == 'g' and any(has(a) for a in s[2]) and any(a[0] == 'a' and is_entry(a[1]) for a in s[2]):
            r = cx.types.global_obj(s[1][1], cx.prog)
            if isinstance(r, Func):
                best = best or gen_codec(cx, r)
    if best == 'utf-16le':
        best = 'utf16'
    return best


def gen_codec(cx, f):
    """a function that decodes bytes: what it yields or gives"""
    for p in cx.paths(f, assume=True, inline=('*', '-bytes_le', '-__init__', '-__new__')):
        if p.raised:
            continue
        for e in p.ev:
            v = e.v if e.kind == 'yield' else None
            if v is None and e.kind == 'yield':
                v = e.a
            if v is None:
                continue
            if utf16(v):
                return ('utf16' if utf16(v) == 'utf-16le' else utf16(v)) + 's'
            if v[0] == 'new' and v[1].endswith('AUID'):
                ks = [k for k, _ in v[3]]
                return 'auids' if 'bytes_le' in ks else 'auid-bes' if 'bytes' in ks else None
        if p.ret is not None and utf16(p.ret):
            return 'utf16' if utf16(p.ret) == 'utf-16le' else utf16(p.ret)
    return None


def same_codec(a, b):
    def n(x):
        x = x.replace('utf-16le', 'utf16')
        return {'<B': 'B', '=B': 'B', '>B': 'B', '!B': 'B'}.get(x, x)
    return n(a) == n(b)


# -- constructors -----------------------------------------------------------------------------

def ctor(cls):
    return cls.method('__new__') if cls.find('methods', '__new__') else cls.method('__init__')


def written(cx, cls, seen=()):
    """what the constructor of a definition class writes: {pid: (params, value term, helper Func)};
    params of the classes above are mapped through the super call"""
    f = cls.find('methods', '__new__')
    if f is None:
        return None
    out = {}
    ps = [p for p in cx.paths(f, assume=True) if not p.raised and conds(p).get(('p', 'root')) is True]
    if not ps:
        return None
    for p in ps:
        for e in p.ev:
            if e.kind != 'call':
                continue
            fn = e.name.split('.')[-1]
            if fn == '__new__' and e.args and e.args[0] == ('p', 'cls'):
                up = f.cls.mro()[1:]
                for b in up:
                    g = b.methods.get('__new__') if hasattr(b, 'methods') else None
                    if g is not None:
                        w = written(cx, b)
                        if w:
                            names = g.params[1:]
                            amap = dict(zip(names, e.args[1:]))
                            amap.update(dict(e.kw or ()))
                            for k, (ts, h, pr) in w.items():
                                t2 = set()
                                for t in ts:
                                    for a, b_ in amap.items():
                                        t = subst(t, ('p', a), b_)
                                    t2.add(t)
                                out.setdefault(k, (set(), h, set()))[0].update(t2)
                        break
                continue
            r = None
            if e.func is not None:
                r = e.func
            if not isinstance(r, Func) or r.cls is not None or len(e.args) < 3:
                continue
            # helper(definition, number, ..., value)
            k = e.args[1]
            k = cval(k) if is_c(k) else 'dyn'
            if len(r.params) < 3 or not writes_entry(cx, r):
                continue
            v = e.args[-1]
            o = out.setdefault(k, (set(), r, set()))
            o[0].add(v)
    return out


def writes_entry(cx, f, depth=0):
    for p in cx.paths(f, inline=('*', '-bytes_le', '-__init__', '-__new__')):
        if any(e.kind == 'setitem' and e.a[0] == 'a' and e.a[2] == 'property_entries' for e in p.ev):
            return True
    return False


def params_of(t):
    return set(s[1] for s in subterms(t) if s[0] == 'p') - {'cls', 'self', 'root'}


def definition_classes(cx):
    out = []
    for n in ['TypeDef'] + [k.name for k in cx.prog.subclasses('TypeDef') if k.name != 'TypeDef']:
        for k in cx.prog.classes.get(n, []):
            if k not in out:
                out.append(k)
    return out


def C15(cx):
    accessors(cx)
    copies(cx)
    external_typedef(cx)
    external_classdef(cx)
    objects(cx)


def accessors(cx):
    n = 0
    for name, table in SPEC.items():
        if not cx.prog.has_cls(name):
            cx.unk('C15.accessor', name, 'class not found')
            continue
        cls = cx.prog.cls(name)
        try:
            w = written(cx, cls)
        except AnalysisBroken:
            w = None
        for acc, want in table.items():
            g = cls.getter(acc)
            if g is None:
                cx.unk('C15.accessor', '%s.%s' % (name, acc), 'no such accessor')
                continue
            rs = [expand(cx, cls, r) for r in returns(cx, g, cls)]
            got = set()
            for r in rs:
                got |= pids(cx, cls, r)
            if not got or any(isinstance(x, str) for x in got):
                cx.unk('C15.accessor', '%s.%s' % (name, acc), 'the property it reads was not recognised')
                continue
            n += 1
            if got != want:
                cx.bad('C15.accessor', '%s.%s' % (name, acc), g.where, 'reads property %s, its value is stored in property %s' % (
                    ', '.join('0x%04X' % x for x in sorted(got)), ', '.join('0x%04X' % x for x in sorted(want))))
                continue
            cx.ok('C15.accessor', '%s.%s' % (name, acc))
            for pid in sorted(want):
                if pid not in CODEC:
                    continue
                for r in rs:
                    rc = read_codec(cx, r, pid)
                    if rc is None:
                        continue
                    cx.check(same_codec(rc, CODEC[pid]), 'C15.encoding', '%s.%s reads 0x%04X' % (name, acc, pid), g.where,
                             'property 0x%04X is read as %s, it is stored as %s' % (pid, rc, CODEC[pid]))
        if not w:
            cx.unk('C15.constructor', name, 'what the constructor writes was not recognised')
            continue
        for pid, (ts, h, _) in sorted(w.items(), key=repr):
            if pid in CODEC:
                wc = write_codec(cx, h)
                if wc is None:
                    cx.unk('C15.encoding', '%s writes 0x%04X' % (name, pid), 'encoding of %s not recognised' % h.name)
                else:
                    cx.check(same_codec(wc, CODEC[pid]), 'C15.encoding', '%s writes 0x%04X' % (name, pid), h.where,
                             'property 0x%04X is written by %s as %s, it is stored as %s' % (pid, h.name, wc, CODEC[pid]))
    # constructor parameters of property and class definitions
    for name, table in (('PropertyDef', {'name': 6, 'auid': 5, 'pid': 0x0D, 'typedef': 0x0B, 'optional': 0x0C, 'unique': 0x0E}),
                        ('ClassDef', {'name': 6, 'class_auid': 5, 'parent_auid': 8, 'concrete': 0x0A})):
        cls = cx.prog.cls(name)
        w = written(cx, cls) or {}
        for par, pid in table.items():
            hit = [k for k, (ts, h, _) in w.items() if any(par in params_of(t) for t in ts)]
            if not hit:
                cx.unk('C15.constructor', '%s(%s)' % (name, par), 'the property it goes to was not recognised')
                continue
            cx.check(pid in hit, 'C15.constructor', '%s(%s)' % (name, par), cls.find('methods', '__new__').where,
                     'the parameter %s is written to property %s instead of 0x%04X' % (par, ', '.join(str(h) for h in hit), pid))
    cx.need('accessors of definitions', n, 20)


def copies(cx):
    """every property a type definition's constructor writes is passed again by copy"""
    n = 0
    for cls in definition_classes(cx):
        f = cls.find('methods', 'copy')
        w = written(cx, cls)
        if f is None or f.cls.name == 'AAFObject' or not w:
            cx.unk('C15.copy', cls.name, 'copy or constructor not recognised')
            continue
        g = cls.find('methods', '__new__')
        params = g.params[1:]
        res = [p for p in cx.paths(f, selfcls=cls, assume=True) if not p.raised and p.ret not in (None, NONE)]
        if not res:
            cx.unk('C15.copy', cls.name, 'no result recognised')
            continue
        me = me_of(f)
        n += 1
        if 'root' in f.params and not any(contains(p.ret, lambda s: s == ('p', 'root')) for p in res):
            cx.bad('C15.copy', '%s root' % cls.name, f.where, 'the copy is made in the file of the original, not in the given one', res[0])
        for p in res:
            r = subst(p.ret, me, SELF)
            if r[0] == 'new':
                target, args, kw = r[1], r[2], r[3]
                tname = target.split('.')[-1]
            elif r[0] == 'call' and (r[1] == ('a', SELF, '__class__') or r[1][0] == 'call' and r[1][1] == ('b', 'type') and r[1][2] == (SELF,)):
                tname, args, kw = cls.name, r[2], r[3]
            else:
                cx.unk('C15.copy', cls.name, 'result not recognised: %s' % show(r)[:80])
                continue
            if tname != cls.name:
                # a copy of a subclass that inherits this method loses its kind
                cx.bad('C15.copy', '%s class' % cls.name, f.where, 'a copy of a %s is a %s' % (cls.name, tname), p)
                continue
            if any(a[0] in ('star', 'starstar') for a in args) or any(k is None for k, _ in kw):
                cx.unk('C15.copy', cls.name, 'arguments not recognised')
                continue
            amap = dict(zip(params, args))
            amap.update(dict(kw))
            if not g.params[1:] or len(args) > len(params) and not getattr(g.node.args, 'vararg', None):
                continue
            cd = conds(p)
            root = amap.get('root')
            if cd.get(('p', 'root')) is True:
                if root is None or root != ('p', 'root'):
                    if root is None or root == ('a', SELF, 'root'):
                        cx.bad('C15.copy', '%s root' % cls.name, f.where, 'the copy is made in the file of the original, not in the given one', p)
                    else:
                        cx.unk('C15.copy', '%s root' % cls.name, 'root argument not recognised')
                else:
                    cx.ok('C15.copy', '%s root' % cls.name)
            for pid, (ts, h, _) in sorted(w.items(), key=repr):
                label = pid if isinstance(pid, str) else '0x%04X' % pid
                for t in ts:
                    if t[0] in ('list', 'tuple') and not t[1]:
                        continue          # the empty case of a loop
                    ps = params_of(t)
                    if not ps:
                        continue
                    for par in ps:
                        if par not in amap:
                            cx.bad('C15.copy', '%s 0x%s' % (cls.name, label), f.where,
                                   'the copy does not pass on %s: property %s of the copied definition is lost' % (par, label), p)
                            continue
                        a = expand(cx, cls, amap[par])
                        if amap[par][0] in ('list', 'tuple', 'dict', 'set') and not amap[par][1] and loops_in(f):
                            continue
                        if is_c(amap[par]) or amap[par][0] in ('list', 'tuple', 'dict', 'set') and not amap[par][1]:
                            cx.bad('C15.copy', '%s %s' % (cls.name, label), f.where, 'the copy passes %s for %s: property %s of the definition is lost' % (show(amap[par]), par, label), p)
                            continue
                        got = part(cx, cls, a, t, par)
                        if got is None or not got or any(isinstance(x, str) and x.startswith('?') for x in got):
                            cx.unk('C15.copy', '%s %s' % (cls.name, label), 'argument for %s not recognised: %s' % (par, show(amap[par])[:80]))
                            continue
                        if pid in got:
                            if arithmetic(amap[par]):
                                cx.unk('C15.copy', '%s %s' % (cls.name, label), 'the value is computed with')
                            else:
                                cx.ok('C15.copy', '%s %s' % (cls.name, label))
                        else:
                            cx.bad('C15.copy', '%s %s' % (cls.name, label), f.where, 'the copy fills property %s from %s, which reads property %s' % (
                                label, show(amap[par])[:60], ', '.join(x if isinstance(x, str) else '0x%04X' % x for x in sorted(got, key=repr))), p)
    cx.need('copy methods of type definitions', n, 14)


def loops_in(f):
    import ast
    return any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node))


def arithmetic(t):
    return contains(t, lambda s: s[0] in ('bin', 'un', 'poly', 'floordiv'))


def part(cx, cls, a, t, par):
    """properties that reach the place of parameter `par` in the written value `t`, when the
    argument for it is `a`: keys, values and positions of pairs are told apart"""
    P = ('p', par)
    role = None
    for s in subterms(t):
        if s[0] == 'i' and s[1] == P and s[2][0] == 'key':
            role = 'value'
            break
        if s[0] == 'key' and s[1] == P:
            role = role or 'key'
        if s[0] in ('i', 'nth') and s[1] == ('elem', P) and is_c(s[2] if s[0] == 'i' else s[2]):
            role = cval(s[2])
    if role is None:
        return pids(cx, cls, a)
    z = zipped(a)
    if z is None:
        return pids(cx, cls, a)
    if role == 'value':
        role = 1
    elif role == 'key':
        role = 0
    if not isinstance(role, int) or role >= len(z):
        return None
    x = z[role]
    return main_pids(cx, cls, x)


def main_pids(cx, cls, x):
    """lengths of other arrays do not count as what is read"""
    def cut(t):
        if not isinstance(t, tuple) or not t or is_c(t):
            return t
        if t[0] == 'call' and t[1] == ('b', 'len'):
            return NONE
        return tuple(cut(y) if isinstance(y, tuple) else y for y in t)
    return pids(cx, cls, cut(x))


def zipped(a):
    while a[0] == 'call' and a[1] in (('b', 'dict'), ('b', 'list'), ('b', 'tuple'), ('b', 'sorted')) and len(a[2]) == 1:
        a = a[2][0]
    if a[0] == 'call' and a[1][0] == 'b' and a[1][1] == 'zip':
        return a[2]
    if a[0] == 'call' and a[1][0] in ('ext', 'g') and str(a[1][1]).split('.')[-1] in ('zip', 'izip', 'OrderedDict'):
        return a[2] if 'zip' in str(a[1][1]) else zipped(a[2][0])
    return None


def decided(p, pred):
    """truth of the first condition that satisfies `pred`, or None"""
    for e in p.ev:
        if e.kind == 'assume' and pred(e.a):
            return e.b
    return None


def class_set(t):
    """classes named in the second argument of isinstance"""
    if t[0] in ('tuple', 'list'):
        out = set()
        for x in t[1]:
            r = class_set(x)
            if r is None:
                return None
            out |= r
        return out
    if t[0] in ('g', 'ext'):
        return {str(t[1]).split('.')[-1]}
    return None


def isinst(t):
    """(subject, class names) of an isinstance / type-identity test"""
    if t[0] == 'call' and t[1] == ('b', 'isinstance') and len(t[2]) == 2:
        s = class_set(t[2][1])
        if s is not None:
            return t[2][0], s, True
    if t[0] == 'cmp' and t[1] in ('is', '==') and t[2][0] == 'call' and t[2][1] == ('b', 'type') and t[3][0] == 'g':
        return t[2][2][0], {t[3][1].split('.')[-1]}, False
    return None


def fits(cx, p, subject, cls):
    """the kind tests on `subject` along the path agree with it being a `cls`"""
    up = set(k.name for k in cls.mro())
    for e in p.ev:
        if e.kind != 'assume':
            continue
        x = isinst(e.a)
        if x and x[0] == subject:
            v = bool(x[1] & up) if x[2] else cls.name in x[1]
            if v != e.b:
                return False
    return True


REFERS = {'TypeDefStrongRef': 0x11, 'TypeDefWeakRef': 0x12, 'TypeDefEnum': 0x14, 'TypeDefFixedArray': 0x17, 'TypeDefVarArray': 0x19, 'TypeDefSet': 0x1A,
          'TypeDefString': 0x1B, 'TypeDefRecord': 0x1C, 'TypeDefRename': 0x1E}


def about(t, subject):
    return contains(t, lambda s: s == subject)


def external_typedef(cx):
    q = 'metadict.MetaDictionary.register_external_typedef'
    f = cx.prog.maybe_func(q)
    if f is None or len(f.params) < 2:
        cx.unk('C15.register', 'register_external_typedef', 'function not found')
        return
    X = ('p', f.params[1])
    n = 0
    for cls in definition_classes(cx):
        if cls.name in ('TypeDef',):
            continue
        ps = [p for p in cx.paths(f, assume=True) if not p.raised and fits(cx, p, X, cls)]
        made = [(p, c_) for p in ps for c_ in [copied(p, X)] if c_ is not None]
        if not made:
            cx.unk('C15.register', cls.name, 'no path that makes the copy was recognised')
            continue
        n += 1
        # the copy is made only when the identifier is not known
        for p, (i, obj) in made:
            looked = [e for e in p.ev[:i] if e.kind == 'assume' and not isinst(e.a) and about(e.a, X)]
            ids = [e for e in looked if lookup_key(e.a, X) == 'auid']
            names = [e for e in looked if lookup_key(e.a, X) == 'name']
            if ids:
                cx.ok('C15.known', '%s' % cls.name)
            elif names and not [e for e in looked if e not in names]:
                cx.bad('C15.known', 'copy of %s' % cls.name, f.where, 'a type of the other file is looked up by its name, not by its identifier', p)
            elif not looked:
                cx.bad('C15.known', 'copy of %s' % cls.name, f.where, 'a type of the other file is copied without looking whether this file has it', p)
            else:
                cx.unk('C15.known', cls.name, 'the lookup was not recognised')
            # made in this file
            cal = p.ev[i]
            root = ('a', me_of(f), 'root')
            if not cal.args and not cal.kw:
                cx.bad('C15.register', 'file of copied %s' % cls.name, f.where, 'the copy of a type is made in the file it comes from', p)
        # what it refers to is registered as well
        if cls.name in REFERS:
            hit = []
            other = []
            for p, (i, obj) in made:
                for e in p.ev:
                    if e.kind == 'call' and e.args and e.name.split('.')[-1] in ('register_external_typedef', 'register_external_classdef') and about(e.args[0], X) and e.args[0] != X:
                        a = expand(cx, cls, subst(e.args[0], X, SELF))
                        (hit if REFERS[cls.name] in pids(cx, cls, a) or not pids(cx, cls, a) else other).append(e)
                    elif e.kind == 'call' and e.name.split('.')[-1] not in ('copy', 'append', 'lookup_typedef', 'add2set', 'get', 'items') and any(about(a, X) for a in e.args):
                        if e.name.split('.')[-1] != 'register_element':
                            other.append(e)
            if hit:
                cx.ok('C15.refers', cls.name)
            elif other or any(e.kind == 'iter' and about(e.a, X) and not ends(e.a, 'elements') and 'elements' not in show(e.a) for p, _ in made for e in p.ev):
                cx.unk('C15.refers', cls.name, 'registration of the type it refers to not recognised')
            else:
                cx.bad('C15.refers', cls.name, f.where, 'copying a %s into another file does not register the definition it refers to (property 0x%04X)' % (cls.name, REFERS[cls.name]), made[0][0])
        # entered where it is looked up
        for p, (i, obj) in made:
            tabs = {}
            added = False
            for e in p.ev[i:]:
                if e.kind == 'setitem' and e.v == obj and e.a[0] == 'a':
                    tabs[e.a[2]] = e
                if e.kind == 'call' and e.name.split('.')[-1] in ('append', 'add', 'add2set', 'extend', 'update') and obj in [y for a in e.args for y in ([a] + list(a[1] if a[0] in ('list', 'tuple') else []))]:
                    added = e
            oth = [e for e in p.ev[i + 1:] if e.kind == 'call' and obj in e.args]
            for tab, acc, want in (('typedefs_by_auid', 'auid', 5), ('typedefs_by_name', 'type_name', 6)):
                e = tabs.get(tab)
                if e is None:
                    if oth and not added or len(oth) > 1:
                        cx.unk('C15.entered', '%s %s' % (cls.name, tab), 'handed to %s' % oth[0].name)
                    else:
                        cx.bad('C15.entered', '%s %s' % (cls.name, tab), f.where, 'a copied type is not entered in %s: a second copy does not find it' % tab, p)
                    continue
                k = e.b
                ok = k in (('a', obj, acc), ('a', X, acc))
                wrong = k[0] == 'a' and k[1] in (obj, X) and k[2] in ('auid', 'type_name', 'uuid', 'unique_key') and k[2] != acc and not (acc == 'auid' and k[2] in ('unique_key',))
                if ok:
                    cx.ok('C15.entered', '%s %s' % (cls.name, tab))
                elif wrong:
                    cx.bad('C15.entered', '%s %s' % (cls.name, tab), f.where, 'a copied type is entered in %s under its %s' % (tab, k[2]), p)
                else:
                    cx.unk('C15.entered', '%s %s' % (cls.name, tab), 'key not recognised')
            if added:
                bad = added.recv is not None and contains(added.recv, lambda s: s == c('ClassDefinitions'))
                cx.check(not bad, 'C15.entered', '%s TypeDefinitions' % cls.name, f.where, 'a copied type is added to the class definitions', p)
            elif not oth:
                cx.bad('C15.entered', '%s TypeDefinitions' % cls.name, f.where, 'a copied type is not added to the type definitions of the file and is lost when it is saved', p)
        if cls.name in ('TypeDefEnum', 'TypeDefExtEnum'):
            merged(cx, f, X, cls, ps)
    cx.need('kinds of type definitions registered', n, 12)


def copied(p, X):
    for i, e in enumerate(p.ev):
        if e.kind == 'call' and e.recv == X and e.name.split('.')[-1] == 'copy':
            return i, e.v
    return None


def lookup_key(t, X):
    for s in subterms(t):
        if s == ('a', X, 'auid') or s == ('a', X, 'unique_key'):
            return 'auid'
    for s in subterms(t):
        if s == ('a', X, 'type_name') or s == ('a', X, 'class_name'):
            return 'name'
    return None


def merged(cx, f, X, cls, ps):
    g = cls.method('register_element')
    n = 0
    for p in ps:
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.name.split('.')[-1] == 'register_element' and g is not None:
                n += 1
                a = dict(zip(g.params[1:], e.args))
                a.update(dict(e.kw or ()))
                ks = list(a)
                if len(ks) != 2:
                    continue
                nm, vl = a[g.params[1]], a[g.params[2]]
                E = ('a', X, 'elements')
                is_key = lambda t: t[0] == 'key' and t[1] == E or t[0] == 'elem' and t[1] == E
                is_val = lambda t: t[0] == 'i' and t[1] == E and is_key(t[2])
                if is_key(nm) and is_val(vl):
                    cx.bad('C15.merge', '%s values' % cls.name, f.where, 'the name and the value of a missing element are exchanged', p)
                elif is_val(nm) and is_key(vl):
                    cx.ok('C15.merge', '%s values' % cls.name)
                else:
                    cx.unk('C15.merge', '%s values' % cls.name, 'arguments not recognised')
                for x in p.ev[:i]:
                    if x.kind == 'assume' and x.a[0] == 'cmp' and x.a[1] == 'in' and is_key(x.a[2]) and x.b:
                        cx.bad('C15.merge', '%s test' % cls.name, f.where, 'elements the type has already are registered, missing ones are not', p)
    known = [p for p in ps if copied(p, X) is None]
    if n == 0 and known:
        oth = [e for p in known for e in p.ev if e.kind == 'call' and any(about(a, X) for a in e.args) and 'lookup' not in e.name]
        if oth or any(e.kind == 'iter' for p in known for e in p.ev):
            cx.unk('C15.merge', cls.name, 'merging of the elements not recognised')
        else:
            cx.bad('C15.merge', cls.name, f.where, 'elements of a %s that this file does not know are not added: values of the other file cannot be decoded here' % cls.name)
    # register_element writes names and values to the properties they are read from
    if g is None:
        return
    want = {0: CODEC_NAMES[cls.name], 1: CODEC_VALUES[cls.name]}
    nm, vl = ('p', g.params[1]), ('p', g.params[2])
    for p in cx.paths(g, assume=True, unroll=1):
        if p.raised:
            continue
        sets = [e for e in p.ev if e.kind == 'set' and e.b == 'data']
        if not sets:
            continue
        for e in sets:
            k = entry_of(subst(e.a, me_of(g), SELF))
            if k is None or not is_c(k):
                continue
            for par, pid, what in ((nm, want[0], 'names'), (vl, want[1], 'values')):
                if about(e.v, par):
                    cx.check(cval(k) == pid, 'C15.element', '%s %s' % (cls.name, what), g.where, 'the %s of the elements are written to property 0x%04X instead of 0x%04X' % (what, cval(k), pid), p)
        keys = set()
        for e in sets:
            k = entry_of(subst(e.a, me_of(g), SELF))
            if k is not None and is_c(k):
                keys.add(cval(k))
        if len(keys) == 1 and keys <= set(want.values()) and all(entry_of(subst(e.a, me_of(g), SELF)) is not None for e in sets):
            cx.bad('C15.element', '%s both' % cls.name, g.where, 'a new element changes property 0x%04X only; names and values no longer match' % keys.pop(), p)


CODEC_NAMES = {'TypeDefEnum': 0x15, 'TypeDefExtEnum': 0x1F}
CODEC_VALUES = {'TypeDefEnum': 0x16, 'TypeDefExtEnum': 0x20}


def bind(g, e):
    """callee parameter -> argument of a call event"""
    ps = g.params[1:] if g.cls is not None and g.kind == 'method' else g.params
    a = dict(zip(ps, e.args))
    a.update(dict(e.kw or ()))
    return a


def external_classdef(cx):
    q = 'metadict.MetaDictionary.register_external_classdef'
    f = cx.prog.maybe_func(q)
    rc = cx.prog.maybe_func('metadict.MetaDictionary.register_classdef')
    rp = cx.prog.maybe_func('metadict.ClassDef.register_propertydef')
    if f is None or rc is None or rp is None:
        cx.unk('C15.class', 'register_external_classdef', 'functions not found')
        return
    X = ('p', f.params[1])
    ps = [p for p in cx.paths(f, assume=True) if not p.raised]
    nc = np = 0
    known_props = new_props = 0
    for p in ps:
        for i, e in enumerate(p.ev):
            if e.kind != 'call':
                continue
            nm = e.name.split('.')[-1]
            if nm == 'register_classdef':
                a = bind(rc, e)
                k = class_elem(a, X)
                if k is None:
                    cx.unk('C15.class', 'register_classdef', 'the class copied was not recognised')
                    continue
                nc += 1
                want = {'name': ('class_name',), 'class_auid': ('auid', 'unique_key'), 'parent': ('parent.auid', 'parent_id', 'parent'), 'concrete': ('concrete',)}
                judge_args(cx, f, a, k, want, 'class', p, rc)
                looked = [x for x in p.ev[:i] if x.kind == 'assume' and about(x.a, k) and ('lookup' in show(x.a) or x.a[0] == 'cmp' and x.a[1] == 'in')]
                if looked and all(lookup_key(x.a, k) == 'name' for x in looked):
                    cx.bad('C15.class', 'class lookup', f.where, 'a class of the other file is looked up by its name, not by its identifier', p)
                elif looked and any(x.b for x in looked if lookup_key(x.a, k) == 'auid') and not any(x.b is False for x in looked):
                    cx.bad('C15.class', 'class lookup', f.where, 'a class is registered when it is known, and not when it is missing', p)
                elif looked:
                    cx.ok('C15.class', 'class lookup')
            elif nm == 'register_propertydef':
                a = bind(rp, e)
                pd = elem_of(a.get('property_auid')) or elem_of(a.get('name'))
                if pd is None:
                    cx.unk('C15.class', 'register_propertydef', 'the property copied was not recognised')
                    continue
                np += 1
                want = {'name': ('property_name', 'name'), 'property_auid': ('auid', 'unique_key'), 'optional': ('optional',), 'unique': ('unique',)}
                judge_args(cx, f, a, pd, want, 'property', p, rp)
                judge_type(cx, f, a, pd, p, i)
                judge_pid(cx, f, a, pd, p, i)
                src = [x for x in p.ev[:i] if x.kind == 'iter']
                if contains(e.recv, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'register_classdef'):
                    new_props += 1
                else:
                    known_props += 1
        order(cx, f, p, X)
    if np and new_props and not known_props:
        cx.bad('C15.class', 'properties of a known class', f.where, 'the properties an extended class has in the other file are not registered when this file knows the class')
    elif np and known_props and not new_props:
        cx.bad('C15.class', 'properties of a new class', f.where, 'the properties of a class copied into this file are not registered')
    elif known_props and new_props:
        cx.ok('C15.class', 'properties of known and new classes')
    if nc == 0 or np == 0:
        cx.unk('C15.class', 'register_external_classdef', 'the registration calls were not recognised')


def elem_of(t):
    """the element (loop variable) whose attribute the term is"""
    if t is None:
        return None
    while t[0] == 'a':
        t = t[1]
    return t if t[0] in ('elem', 'i', 'nth', 'next') else None


def class_elem(a, X):
    for v in (a.get('class_auid'), a.get('name'), a.get('concrete')):
        k = elem_of(v) if v is not None else None
        if k is not None and about(k, X):
            return k
        if v is not None and v[0] == 'a' and v[1] == X:
            return X
    return None


def path_from(t, base):
    """'parent.auid' for base.parent.auid"""
    out = []
    while t != base:
        if t[0] != 'a':
            return None
        out.append(t[2])
        t = t[1]
    return '.'.join(reversed(out))


def judge_args(cx, f, a, k, want, what, p, g):
    for par, okays in want.items():
        if par not in g.params:
            cx.unk('C15.%s' % what, par, 'parameter not found')
            continue
        v = a.get(par)
        if v is None:
            cx.bad('C15.class', '%s %s' % (what, par), f.where, 'the %s of a copied %s is not passed on' % (par, what), p)
            continue
        x = path_from(v, k)
        if x is not None and x in okays:
            cx.ok('C15.class', '%s %s' % (what, par))
        elif x is not None:
            cx.bad('C15.class', '%s %s' % (what, par), f.where, 'the %s of a copied %s is taken from its %s' % (par, what, x), p)
        elif is_c(v):
            cx.bad('C15.class', '%s %s' % (what, par), f.where, 'the %s of a copied %s is always %s' % (par, what, show(v)), p)
        else:
            cx.unk('C15.class', '%s %s' % (what, par), 'argument not recognised: %s' % show(v)[:80])


def judge_type(cx, f, a, pd, p, i):
    v = a.get('typedef')
    reg = [e for e in p.ev[:i] if e.kind == 'call' and e.name.split('.')[-1] == 'register_external_typedef' and e.args and about(e.args[0], pd)]
    if v is None:
        cx.unk('C15.class', 'property typedef', 'argument not found')
        return
    if not reg:
        oth = [e for e in p.ev[:i] if e.kind == 'call' and any(about(x, pd) for x in e.args)]
        if oth:
            cx.unk('C15.class', 'property typedef', 'registration of the type not recognised')
        else:
            cx.bad('C15.class', 'property typedef', f.where, 'the type of a copied property is not registered in this file', p)
        return
    if any(v == ('a', e.v, 'auid') or v == e.v for e in reg) or path_from(v, pd) in ('typedef.auid', 'typedef_id'):
        cx.ok('C15.class', 'property typedef')
    else:
        cx.unk('C15.class', 'property typedef', 'argument not recognised: %s' % show(v)[:80])


def judge_pid(cx, f, a, pd, p, i):
    v = a.get('pid')
    P = ('a', pd, 'pid')
    if v is None:
        cx.unk('C15.class', 'property pid', 'argument not found')
        return
    def ok(n):
        leaf = lambda t: (n,) if t == P else None
        return bool(order_mod.cases([q_], leaf))

    class Cut(object):
        pass
    q_ = Cut()
    q_.ev = p.ev[:i]
    for n in (0x0001, 0x7FFF, 0x8000, 0xC000, 0xFFFF):
        if not ok(n):
            continue
        if v == P and n >= 0x8000:
            cx.bad('C15.class', 'property pid', f.where, 'a number of the dynamic range (0x%04X) chosen by the other file is used here without translation' % n, p)
        elif v == NONE and n < 0x8000:
            cx.bad('C15.class', 'property pid', f.where, 'a property with the fixed number 0x%04X is given another number in this file' % n, p)
        elif v in (P, NONE):
            cx.ok('C15.class', 'property pid')
        else:
            cx.unk('C15.class', 'property pid', 'argument not recognised: %s' % show(v)[:80])


from . import order as order_mod


def order(cx, f, p, X):
    """a class is registered after the classes above it"""
    for i, e in enumerate(p.ev):
        if e.kind == 'iter' and contains(e.a, lambda s: s[0] == 'call' and s[1] == ('a', X, 'relatives')):
            t = e.a
            rev = sum(1 for s in subterms(t) if s[0] == 'call' and s[1] == ('b', 'reversed') or s[0] == 'slice' and len(s) > 3 and s[3] == c(-1))
            rev += sum(1 for x in p.ev[:i] if x.kind == 'call' and x.name.split('.')[-1] == 'reverse')
            ins = [x for x in p.ev[:i] if x.kind == 'call' and x.name.split('.')[-1] in ('insert', 'appendleft', 'sort')]
            if ins:
                cx.unk('C15.class', 'order of classes', 'order not recognised')
            elif rev % 2 == 0:
                cx.bad('C15.class', 'order of classes', f.where, 'a class is registered before the classes it inherits from', p)
            else:
                cx.ok('C15.class', 'order of classes')


def objects(cx):
    """AAFObject.copy: the classes are made known, numbers of the dynamic range are translated"""
    f = cx.prog.maybe_func('core.AAFObject.copy')
    if f is None:
        cx.unk('C15.object', 'AAFObject.copy', 'function not found')
        return
    me = me_of(f)
    R = ('p', 'root')
    ROOT = ('a', me, 'root')
    nt = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        cd = conds(p)
        if cd.get(R) is not True:
            continue
        same = None
        for t, b in cd.items():
            if t[0] == 'cmp' and t[1] in ('is', '==') and {t[2], t[3]} == {R, ROOT}:
                same = b
        for i, e in enumerate(p.ev):
            if e.kind != 'setitem' or not ends(e.a, 'property_entries') or e.a[1] == me:
                continue
            v = e.v
            if v[0] != 'call' or v[1][0] != 'a' or v[1][2] != 'copy':
                cx.unk('C15.pid', 'AAFObject.copy', 'what is stored was not recognised')
                continue
            src = v[1][1]
            key = [s for s in subterms(src) if s[0] == 'key']
            K = key[0] if key else ('a', src, 'pid')
            plain = (K, ('a', src, 'pid'))
            q_ = Cut2(p.ev[:i])
            for n in (0x0001, 0x7FFF, 0x8000, 0xFFFF):
                if not order_mod.cases([q_], lambda t: (n,) if t in plain else None):
                    continue
                nt += 1
                if same is False and n >= 0x8000:
                    if e.b in plain:
                        cx.bad('C15.pid', 'dynamic number', f.where, 'property number 0x%04X of the dynamic range is kept when an object is copied into another file' % n, p)
                    elif contains(e.b, lambda s: s == ('a', src, 'propertydef')) or 'auid' in show(e.b):
                        # the definition asked for must be the one of the new file
                        if contains(e.b, lambda s: s == ('a', me, 'classdef')) and not contains(e.b, lambda s: s == R or s[0] == 'call' and s[1][0] == 'a' and s[1][2] == '__new__'):
                            cx.bad('C15.pid', 'dynamic number', f.where, 'the number of the property is looked up in the definitions of the file it comes from', p)
                        else:
                            cx.ok('C15.pid', 'dynamic number')
                    else:
                        cx.unk('C15.pid', 'dynamic number', 'not recognised: %s' % show(e.b)[:80])
                elif same is True and e.b not in plain and n < 0x8000:
                    cx.unk('C15.pid', 'same file', 'number not recognised: %s' % show(e.b)[:80])
                elif n < 0x8000 and same is False and e.b not in plain:
                    cx.unk('C15.pid', 'fixed number', 'not recognised: %s' % show(e.b)[:80])
                elif same is None and e.b in plain and n >= 0x8000:
                    cx.bad('C15.pid', 'dynamic number', f.where, 'property number 0x%04X of the dynamic range is kept whatever file the object is copied into' % n, p)
                else:
                    cx.ok('C15.pid', 'number')
            if len(v[2]) > 1:
                if v[2][1] == e.b:
                    cx.ok('C15.pid', 'number given to the property')
                elif v[2][1] in plain and e.b not in plain:
                    cx.bad('C15.pid', 'number given to the property', f.where, 'the copied property keeps the number of the other file while it is entered under another', p)
                else:
                    cx.unk('C15.pid', 'number given to the property', 'not recognised')
        if same is False:
            reg = [e for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] == 'register_external_classdef']
            cached = [t for t, b in cd.items() if b and t[0] == 'cmp' and t[1] == 'in' and 'classdef' in show(t)]
            if reg:
                ok = contains(reg[0].recv, lambda s: s == R) if reg[0].recv else True
                cx.check(ok, 'C15.object', 'class made known', f.where, 'the class of a copied object is registered in the file it comes from', p)
            elif cached:
                cx.ok('C15.object', 'class made known')
            else:
                oth = [e for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] not in ('add', 'copy') and 'classdef' in ' '.join(show(a) for a in e.args)]
                if oth:
                    cx.unk('C15.object', 'class made known', 'registration not recognised')
                else:
                    cx.bad('C15.object', 'class made known', f.where, 'the class of an object copied into another file is not registered there', p)
    if nt == 0:
        cx.unk('C15.pid', 'AAFObject.copy', 'no property copied was recognised')


class Cut2(object):
    def __init__(self, ev):
        self.ev = ev


# -- C19 --------------------------------------------------------------------------------------

def C19(cx):
    allocation(cx)
    numbering(cx)
    known_class(cx)
    loading(cx)


def bounds(t):
    """(lo, hi) of an element of a constant range"""
    if t[0] == 'elem' and t[1][0] == 'call' and t[1][1] == ('b', 'range') and all(is_c(a) for a in t[1][2]):
        r = range(*[cval(a) for a in t[1][2]])
        if len(r):
            return min(r), max(r)
    return None


def pid_tables(cx):
    """the attribute that holds the numbers in use: what next_free_pid adds to"""
    return 'local_pids'


def allocation(cx):
    q = 'metadict.MetaDictionary.next_free_pid'
    f = cx.prog.maybe_func(q)
    if f is None:
        cx.unk('C19.alloc', 'next_free_pid', 'function not found')
        return
    me = me_of(f)
    allp = cx.paths(f, assume=True)
    ps = [p for p in allp if not p.raised and p.ret not in (None, NONE)]
    tested = untested = 0
    worst = None
    for p in ps:
        r = p.ret
        add = [e for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] in ('add', 'append') and e.args and equal(e.args[0], r)]
        upd = [e for e in p.ev if e.kind in ('call', 'set', 'setitem') and e not in add and (e.name or '').split('.')[-1] in ('update', 'union') or e.kind == 'set' and e.b == 'local_pids']
        oth = [e for e in p.ev if e.kind == 'call' and e not in add and e.args]
        if add:
            cx.ok('C19.alloc', 'recorded')
        elif upd or oth:
            cx.unk('C19.alloc', 'recorded', 'how the number is recorded was not recognised')
        else:
            cx.bad('C19.alloc', 'recorded', f.where, 'a number is handed out without being recorded as used', p)
        v = None
        cut = False
        for e in p.ev:
            if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'in' and equal(e.a[2], r):
                v = e.b
        if v is False:
            tested += 1
        else:
            if v is None and not any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'in' for e in p.ev):
                untested += 1
                worst = p
            if v is True and not any(e.kind in ('loop', 'iter') for e in p.ev):
                cx.bad('C19.alloc', 'free', f.where, 'a number is handed out although it is in use', p)
        # a number that is returned after the loop tested another one
        tests = [e for e in p.ev if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'in']
        if v is None and tests and not any(e.b is False and equal(e.a[2], r) for e in tests):
            last = tests[-1]
            if last.b is False and numeric_diff(last.a[2], r):
                cx.bad('C19.alloc', 'free', f.where, 'the number handed out (%s) is not the one found free (%s)' % (show(norm(r)), show(norm(last.a[2]))), p)
    if tested:
        cx.ok('C19.alloc', 'free')
    if untested:
        cx.bad('C19.alloc', 'free', f.where, 'a number is handed out without testing whether it is in use', worst)
    elif not tested and ps:
        cx.unk('C19.alloc', 'free', 'the test that the number is free was not recognised')
    # range of what is handed out
    counters = set()
    for p in ps:
        b = bounds(p.ret)
        if b is not None:
            cx.check(b[0] >= 0x8000 and b[1] <= 0xFFFF, 'C19.range', 'handed out', f.where, 'numbers from 0x%X to 0x%X are handed out, outside the dynamic range' % b, p)
            if b[0] >= 0x8000:
                cx.check(b == (0x8000, 0xFFFF), 'C19.range', 'all of the range', f.where, 'only numbers from 0x%X to 0x%X are handed out' % b, p)
            continue
        at = [s for s in subterms(p.ret) if s[0] == 'a' and s[1] == me]
        if len(at) != 1:
            cx.unk('C19.range', 'handed out', 'not recognised: %s' % show(p.ret)[:80])
            continue
        counters.add(at[0])
    for at in counters:
        grow = None
        for n, want, msg in ((0x7FFF, False, 'a number below the dynamic range (0x7FFF) can be handed out'), (0, False, 'the number 0 can be handed out'),
                             (0x8000, True, 'the last number of the dynamic range is refused'), (0xFFFF, True, 'the number 0xFFFF is refused')):
            feas = []
            for p in ps:
                if at not in list(subterms(p.ret)):
                    continue
                for k in range(n - 3, n + 4):
                    leaf = lambda t: (k,) if t == at else None
                    try:
                        if order_mod.ev(p.ret, leaf) != n:
                            continue
                    except order_mod.Unk:
                        continue
                    if order_mod.cases([p], leaf):
                        feas.append(p)
            if want:
                cx.check(bool(feas), 'C19.range', '0x%04X' % n, f.where, msg)
            else:
                cx.check(not feas, 'C19.range', '0x%04X' % n, f.where, msg, feas[0] if feas else None)
        # the counter starts inside the range and only moves down
        name = at[2]
        for g in cx.prog.cls('MetaDictionary').all_funcs():
            for p in (cx.paths(g, assume=True) if g is f else safe(cx, g)):
                for e in p.ev:
                    if e.kind == 'set' and e.b == name and e.a == me_of(g):
                        if is_c(e.v):
                            v = cval(e.v)
                            cx.check(isinstance(v, int) and 0x8000 <= v <= 0xFFFF, 'C19.range', 'start of %s' % name, g.where, 'the counter %s starts at %r, outside the dynamic range' % (name, v), p)
                            if v != 0xFFFF:
                                cx.unk('C19.range', 'start of %s' % name, 'starts at 0x%X' % v)
                        else:
                            d = poly(norm(('bin', '-', e.v, ('a', me_of(g), name))))
                            if set(d) <= {()}:
                                step = d.get((), 0)
                                cx.check(step <= 0, 'C19.range', 'step of %s' % name, g.where, 'the counter %s moves up, past the end of the dynamic range' % name, p)
                                lost = step


def safe(cx, g):
    import ast
    # only functions that assign the counter are worth a walk
    out = []
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'next_pid':
            for i, s, h in segments(cx, g):
                if any(isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store) and m.attr == 'next_pid' for m in ast.walk(s)):
                    try:
                        out += cx.paths(h, assume=True)
                    except AnalysisBroken:
                        pass
            break
    return out


def numeric_diff(a, b):
    d = poly(norm(('bin', '-', a, b)))
    return set(d) == {()} and d[()] != 0


def numbering(cx):
    """register_propertydef"""
    q = 'metadict.ClassDef.register_propertydef'
    f = cx.prog.maybe_func(q)
    if f is None:
        cx.unk('C19.register', 'register_propertydef', 'function not found')
        return
    me = me_of(f)
    A, PID = ('p', 'property_auid'), ('p', 'pid')
    if 'property_auid' not in f.params or 'pid' not in f.params:
        cx.unk('C19.register', 'register_propertydef', 'parameters not recognised')
        return
    n = 0
    pd = cx.prog.maybe_func('metadict.PropertyDef.__new__')
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        new = [(i, e) for i, e in enumerate(p.ev) if e.kind == 'new' and e.name.split('.')[-1] == 'PropertyDef']
        look = [(i, e) for i, e in enumerate(p.ev) if e.kind == 'assume' and about(e.a, A) and ('get(' in show(e.a) or e.a[0] == 'cmp' and e.a[1] in ('in', 'is', '==') or 'lookup' in show(e.a))]
        found = any(truthy(e) for i, e in look)
        if not new:
            continue
        n += 1
        i, e = new[0]
        before = [(j, x) for j, x in look if j < i]
        if not before:
            cx.bad('C19.known', 'property', f.where, 'a property is defined again without looking whether the class has it', p)
        elif any(truthy(x) for j, x in before):
            cx.bad('C19.known', 'property', f.where, 'a property the class has already is defined again', p)
        else:
            cx.ok('C19.known', 'property')
        a = bind(pd, e) if pd is not None else {}
        v = a.get('pid')
        if v is None:
            cx.unk('C19.register', 'number', 'the number given to the definition was not recognised')
            continue
        isnone = None
        for x in p.ev[:i]:
            if x.kind == 'assume' and x.a == cmp_('is', PID, NONE):
                isnone = x.b
        fresh = contains(v, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'next_free_pid')
        if isnone is True:
            if fresh:
                cx.ok('C19.register', 'free number')
            elif v in (PID, NONE):
                cx.bad('C19.register', 'free number', f.where, 'a property without a fixed number is given none of the dynamic range', p)
            else:
                cx.unk('C19.register', 'free number', 'not recognised: %s' % show(v)[:80])
        elif isnone is False:
            if v == PID:
                cx.ok('C19.register', 'fixed number')
                used = [x for x in p.ev if x.kind == 'call' and x.name.split('.')[-1] == 'add' and x.args and x.args[0] == PID]
                for k in (0x8000, 0xFFFF):
                    if order_mod.cases([p], lambda t: (k,) if t == PID else None):
                        oth = [x for x in p.ev if x.kind == 'call' and x.args and PID in x.args and x not in used and x.name.split('.')[-1] not in ('PropertyDef', 'add2set')]
                        if used:
                            cx.ok('C19.register', 'explicit number recorded')
                        elif oth:
                            cx.unk('C19.register', 'explicit number recorded', 'handed to %s' % oth[0].name)
                        else:
                            cx.bad('C19.register', 'explicit number recorded', f.where, 'the number 0x%04X given for a property is not recorded as used: it can be handed out again' % k, p)
            elif fresh:
                cx.bad('C19.register', 'fixed number', f.where, 'a property with a fixed number is given another', p)
            else:
                cx.unk('C19.register', 'fixed number', 'not recognised: %s' % show(v)[:80])
        # found again by number and in the class
        tab = [x for x in p.ev[i:] if x.kind == 'setitem' and ends(x.a, 'propertydef_by_pid')]
        if not tab:
            cx.bad('C19.register', 'table of numbers', f.where, 'a defined property is not entered in the table its number is looked up in', p)
        else:
            x = tab[-1]
            if x.v != e.v:
                cx.unk('C19.register', 'table of numbers', 'not recognised')
            elif x.b == v or x.b == ('a', e.v, 'pid'):
                cx.ok('C19.register', 'table of numbers')
            elif x.b in (PID, A) or is_c(x.b):
                cx.bad('C19.register', 'table of numbers', f.where, 'a defined property is entered under %s, its number is %s' % (show(x.b), show(v)[:60]), p)
            else:
                cx.unk('C19.register', 'table of numbers', 'not recognised')
        ins = [x for x in p.ev[i:] if x.kind in ('call', 'setitem') and (x.kind == 'setitem' and x.v == e.v or x.kind == 'call' and e.v in x.args) and x not in tab]
        cx.check(bool(ins), 'C19.register', 'entered in the class', f.where, 'a defined property is not entered in its class', p)
    if n == 0:
        cx.unk('C19.register', 'register_propertydef', 'no path that defines a property was recognised')
    for p in cx.paths(f, assume=True):
        look = [e for e in p.ev if e.kind == 'assume' and about(e.a, A) and truthy(e)]
        if p.raised or not look or any(e.kind == 'new' for e in p.ev):
            continue
        if p.ret in (None, NONE):
            cx.bad('C19.known', 'property returned', f.where, 'registering a property the class has gives nothing', p)
        else:
            cx.ok('C19.known', 'property returned')


def truthy(e):
    """the lookup found something"""
    t, b = e.a, e.b
    if t[0] == 'cmp' and t[1] in ('is', '==') and t[3] == NONE:
        return not b
    return b


def known_class(cx):
    q = 'metadict.MetaDictionary.register_classdef'
    f = cx.prog.maybe_func(q)
    if f is None or not {'name', 'class_auid'} <= set(f.params):
        cx.unk('C19.class', 'register_classdef', 'function not recognised')
        return
    me = me_of(f)
    N, A = ('p', 'name'), ('p', 'class_auid')
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        new = [(i, e) for i, e in enumerate(p.ev) if e.kind == 'new' and e.name.split('.')[-1] == 'ClassDef']
        if not new:
            if p.ret in (None, NONE):
                cx.bad('C19.known', 'class returned', f.where, 'registering a known class gives nothing', p)
            continue
        n += 1
        i, e = new[0]
        for P_, what in ((N, 'name'), (A, 'identifier')):
            look = [x for x in p.ev[:i] if x.kind == 'assume' and about(x.a, P_) and (x.a[0] == 'cmp' and x.a[1] in ('in', 'is') or x.a[0] == 'call' and ('get' in show(x.a[1]) or 'lookup' in show(x.a[1])))]
            if not look:
                cx.bad('C19.known', 'class by %s' % what, f.where, 'a class is defined without looking whether its %s is known' % what, p)
            elif any(truthy(x) for x in look):
                cx.bad('C19.known', 'class by %s' % what, f.where, 'a class whose %s is known is defined again' % what, p)
            else:
                cx.ok('C19.known', 'class by %s' % what)
        for tab, okk in (('classdefs_by_name', (N,)), ('classdefs_by_auid', ())):
            s = [x for x in p.ev[i:] if x.kind == 'setitem' and ends(x.a, tab)]
            oth = [x for x in p.ev[i:] if x.kind == 'call' and e.v in x.args]
            if not s:
                if len(oth) > 1:
                    cx.unk('C19.known', 'class in %s' % tab, 'not recognised')
                else:
                    cx.bad('C19.known', 'class in %s' % tab, f.where, 'a defined class is not entered in %s: it is not found again' % tab, p)
            elif tab == 'classdefs_by_name' and s[-1].b not in (N, ('a', e.v, 'class_name')) or tab == 'classdefs_by_auid' and s[-1].b in (N, ('a', e.v, 'class_name')):
                cx.bad('C19.known', 'class in %s' % tab, f.where, 'a defined class is entered in %s under %s' % (tab, show(s[-1].b)[:60]), p)
            else:
                cx.ok('C19.known', 'class in %s' % tab)
    if n == 0:
        cx.unk('C19.class', 'register_classdef', 'no path that defines a class was recognised')


def of_file(t, name):
    return contains(t, lambda s: s[0] == 'i' and is_c(s[2]) and cval(s[2]) == name or s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'getvalue') and s[2] and s[2][0] == c(name))


def loading(cx):
    """MetaDictionary.read_properties"""
    q = 'metadict.MetaDictionary.read_properties'
    f = cx.prog.maybe_func(q)
    if f is None:
        cx.unk('C19.load', 'read_properties', 'function not found')
        return
    me = me_of(f)
    inl = ('resolve_dynamic_pids',)
    segs = []
    for i, s, g in segments(cx, f):
        try:
            segs.append((i, [p for p in cx.paths(g, inline=inl, assume=True) if not p.raised]))
        except AnalysisBroken as e:
            cx.unk('C19.load', 'statement %d of read_properties' % i, str(e))
    L = ('a', me, 'local_pids')
    collect, reset, alloc = [], [], []
    tables = {}
    for i, ps in segs:
        for p in ps:
            for j, e in enumerate(p.ev):
                if e.kind == 'set' and e.a == me and e.b == 'local_pids':
                    reset.append((i, j, p, e))
                if e.kind == 'call' and e.name.split('.')[-1] == 'next_free_pid':
                    alloc.append((i, j, p, e))
                if e.kind == 'call' and e.name.split('.')[-1] in ('add', 'append') and e.recv == L and e.args and of_file(e.args[0], 'ClassDefinitions') and ends(e.args[0], 'pid'):
                    collect.append((i, j, p, e))
                if e.kind == 'setitem' and e.a[0] == 'a' and e.a[1] == me:
                    tables.setdefault(e.a[2], []).append((i, p, e))
    first = min([a[0] for a in alloc] or [10 ** 6])
    early = [x for x in collect if x[0] < first]
    upd = [1 for i, ps in segs for p in ps for e in p.ev if (e.kind == 'call' and e.name.split('.')[-1] in ('update',) and e.recv == L) or e.kind == 'set' and e.b == 'local_pids' and e.v[0] not in ('set', 'call') ]
    if not early:
        if upd or any(e.kind == 'set' and e.b == 'local_pids' and e.v not in (('set', ()),) and not (e.v[0] == 'call' and not e.v[2]) for i, ps in segs for p in ps for e in p.ev):
            cx.unk('C19.load', 'numbers of the file', 'how they are collected was not recognised')
        elif collect:
            cx.bad('C19.load', 'numbers of the file', f.where, 'new numbers are handed out before the numbers the file uses are known', collect[0][2])
        else:
            cx.bad('C19.load', 'numbers of the file', f.where, 'the dynamic numbers the file uses are not recorded: they can be handed out again')
    else:
        i = early[0][0]
        for r in reset:
            if r[0] > i or r[0] == i and any(r[2] is x[2] and r[1] > x[1] for x in early):
                cx.bad('C19.load', 'numbers kept', f.where, 'the numbers collected from the file are forgotten again', r[2])
            else:
                cx.ok('C19.load', 'numbers kept')
        # every number of the range is collected
        P_ = early[0][3].args[0]
        for j, ps in segs:
            if j != i:
                continue
            for p in ps:
                got = [e for e in p.ev if e.kind == 'call' and e.args and e.args[0] == P_ and e.recv == L]
                seen = any(e.kind == 'assume' and about(e.a, P_) for e in p.ev)
                for n in (0x8000, 0xC000, 0xFFFF):
                    if seen and not got and order_mod.cases([p], lambda t: (n,) if t == P_ else None):
                        cx.bad('C19.load', 'number 0x%04X' % n, f.where, 'the number 0x%04X, used by a property of the file, is not recorded' % n, p)
                    elif got:
                        cx.ok('C19.load', 'number 0x%04X' % n)
    # the tables definitions are looked up in hold the definitions of the file
    for tab, src, keys in (('typedefs_by_name', 'TypeDefinitions', ('type_name',)), ('typedefs_by_auid', 'TypeDefinitions', ('auid', 'unique_key')),
                           ('classdefs_by_name', 'ClassDefinitions', ('class_name',)), ('classdefs_by_auid', 'ClassDefinitions', ('auid', 'unique_key'))):
        s = [(i, p, e) for i, p, e in tables.get(tab, ()) if of_file(e.v, src)]
        if not s:
            u = [e for i, ps in segs for p in ps for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] in ('update', 'setdefault') and e.recv == ('a', me, tab) or e.kind == 'set' and e.b == tab]
            if u:
                cx.unk('C19.load', tab, 'how it is filled was not recognised')
            else:
                cx.bad('C19.load', tab, f.where, 'definitions read from the file are not entered in %s' % tab)
            continue
        i, p, e = s[0]
        if e.b[0] == 'a' and e.b[1] == e.v:
            cx.check(e.b[2] in keys, 'C19.load', tab, f.where, 'definitions read from the file are entered in %s under their %s' % (tab, e.b[2]), p)
        elif e.b[0] == 'key':
            cx.check('auid' in keys, 'C19.load', tab, f.where, 'definitions read from the file are entered in %s under their identifier' % tab, p)
        else:
            cx.unk('C19.load', tab, 'key not recognised')
    sets = [(p, e) for i, ps in segs for p in ps for e in p.ev if e.kind == 'set' and e.b == 'propertydef_by_pid' and of_file(e.a, 'ClassDefinitions')]
    muts = [e for i, ps in segs for p in ps for e in p.ev if e.kind in ('setitem', 'call') and (ends(e.a, 'propertydef_by_pid') if e.kind == 'setitem' else e.recv is not None and ends(e.recv, 'propertydef_by_pid'))]
    if sets or muts:
        cx.ok('C19.load', 'table of numbers')
    else:
        cx.bad('C19.load', 'table of numbers', f.where, 'numbers of the properties of a file are not entered in the tables they are looked up in')
    renumber(cx, f, me, L, segs)


def renumber(cx, f, me, L, segs):
    """definitions of the model a file lacks: numbers in use are replaced, others recorded"""
    n = 0
    for i, ps in segs:
        for p in ps:
            for j, e in enumerate(p.ev):
                if e.kind == 'set' and e.b == 'pid' and contains(e.v, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'next_free_pid'):
                    P_ = ('a', e.a, 'pid')
                    if contains(e.a, lambda s: s[0] == 'a' and s[2] == 'property_entries'):
                        continue
                    if not contains(e.a, lambda s: s == c('Properties') or s[0] == 'a' and s[2] == 'propertydefs'):
                        continue
                    n += 1
                    used = [x for x in p.ev[:j] if x.kind == 'assume' and x.a[0] == 'cmp' and x.a[1] == 'in' and x.a[2] == P_]
                    if used and used[-1].b is False:
                        cx.bad('C19.renumber', 'free number', f.where, 'a property of the model is renumbered when its number is free and keeps it when it is taken', p)
                    for k in (0x0001, 0x7FFF):
                        if order_mod.cases([Cut2(p.ev[:j])], lambda t: (k,) if t == P_ else None) and any(x.kind == 'assume' and about(x.a, P_) for x in p.ev[:j]):
                            cx.bad('C19.renumber', 'fixed number', f.where, 'the fixed number 0x%04X of a model property is replaced' % k, p)
                    # properties of the file keep their numbers
                    k = e.a
                    owner = [x for x in p.ev[:j] if x.kind == 'assume' and x.a[0] == 'cmp' and x.a[1] == 'in' and of_file(x.a[3], 'ClassDefinitions')]
                    if not owner:
                        if not of_file(e.a, 'ClassDefinitions'):
                            cx.bad('C19.renumber', 'class of the file', f.where, 'a property of a class the file defines is given another number', p)
                    elif owner[-1].b:
                        cx.bad('C19.renumber', 'class of the file', f.where, 'a property of a class the file defines is given another number', p)
                    else:
                        cx.ok('C19.renumber', 'class of the file')
                    tab = [x for x in p.ev[j:] if x.kind == 'set' and x.b == 'propertydef_by_pid' or x.kind == 'setitem' and ends(x.a, 'propertydef_by_pid')]
                    oth = [x for x in p.ev[j:] if x.kind == 'call' and x.name.split('.')[-1] not in ('add', 'append', 'pop', 'values', 'items', 'get', 'next_free_pid', 'mark_modified')]
                    if tab:
                        cx.ok('C19.renumber', 'table of numbers')
                    elif oth:
                        cx.unk('C19.renumber', 'table of numbers', 'not recognised')
                    else:
                        cx.bad('C19.renumber', 'table of numbers', f.where, 'the table of a renumbered class still has the old number', p)
                # a class of the model that is added: its numbers were looked at
                if e.kind == 'call' and e.name.split('.')[-1] == 'append' and e.recv is not None and of_file(e.recv, 'ClassDefinitions') and e.args:
                    k = e.args[0]
                    looked = [x for x in p.ev[:j] if x.kind in ('iter', 'compiter') and about(x.a, k)]
                    oth = [x for x in p.ev[:j] if x.kind == 'call' and (k in x.args or x.recv == k)]
                    if looked:
                        cx.ok('C19.renumber', 'added class')
                    elif oth:
                        cx.unk('C19.renumber', 'added class', 'not recognised')
                    else:
                        cx.bad('C19.renumber', 'added class', f.where, 'a class of the model is added to a file without comparing its numbers with those of the file', p)
                    for x in p.ev[:j]:
                        if x.kind == 'assume' and x.a[0] == 'cmp' and x.a[1] == 'in' and about(x.a[2], k) and ends(x.a[2], 'pid') and x.b is False:
                            PP = x.a[2]
                            rec = [y for y in p.ev[:j] if y.kind == 'call' and y.recv == L and y.args and y.args[0] == PP]
                            cx.check(bool(rec), 'C19.renumber', 'kept number', f.where, 'the number a model property keeps is not recorded as used', p)
                # entries of a type are moved to the new number
                if e.kind == 'setitem' and ends(e.a, 'property_entries') and contains(e.v, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'pop'):
                    st = [x for x in p.ev if x.kind == 'set' and x.b == 'pid' and x.a == e.v]
                    if st:
                        same = equal(st[-1].v, e.b) or e.b == ('a', e.v, 'pid')
                        if same:
                            cx.ok('C19.renumber', 'moved entry')
                        elif is_pop_key(e.v, e.b):
                            cx.bad('C19.renumber', 'moved entry', f.where, 'the value of a renumbered property stays under the old number', p)
                        else:
                            cx.unk('C19.renumber', 'moved entry', 'not recognised')
                    else:
                        cx.bad('C19.renumber', 'moved entry', f.where, 'the value of a renumbered property keeps the old number', p)
    if n == 0:
        # model classes keep their numbers whatever the file uses
        adds = [p for i, ps in segs for p in ps for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] == 'append' and e.recv is not None and of_file(e.recv, 'ClassDefinitions')]
        unk = [e for p in adds for e in p.ev if e.kind == 'call' and 'pid' in e.name]
        if adds and not unk:
            cx.bad('C19.renumber', 'numbers in use', f.where, 'a class of the model is added to a file with numbers the file uses for something else', adds[0])
        else:
            cx.unk('C19.renumber', 'numbers in use', 'renumbering not recognised')


def is_pop_key(v, k):
    return any(s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'pop' and s[2] and equal(s[2][0], k) for s in subterms(v))
