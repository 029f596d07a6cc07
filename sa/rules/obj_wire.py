"""C05 the object layer's streams: writer and reader against the stored format."""
import ast
from .util import *
from .kinds import everykind
from .layout import *
from . import wire
from .wire import UTW

# AAF Stored Format Specification: property, index and reference table layouts
VEC = [(4, 'count'), (4, 'next_free_key'), (4, 'last_free_key')]
SET = VEC + [(2, 'key_pid'), (1, 'key_size')]
WEAK = [(4, 'count'), (2, 'weakref_index'), (2, 'key_pid'), (1, 'key_size')]
INDEX = {
    'StrongRefVectorProperty': (VEC, [4]),
    'StrongRefSetProperty': (SET, [4, 4, 'key']),
    'WeakRefArrayProperty': (WEAK, ['key']),
}
KEYW = ('key_size',)


def good(ps):
    return [p for p in ps if not p.raised]


def is_key_width(p, w, me):
    """a width term that is the stored key size"""
    if w is None:
        return None
    if isinstance(w, int):
        z = key_size_on(p)
        return None if z is None else w == z
    if w == ('a', me, 'key_size'):
        return True
    for e in p.ev:
        if e.kind == 'set' and e.a == me and e.b == 'key_size' and norm(e.v) == norm(w):
            return True
    return None


def head(toks):
    return [t for t in toks if t.loop is None]


def body(toks):
    return [t for t in toks if t.loop is not None]


def compare(cx, q, where, side, toks, spec, elems, p, me, named):
    """tokens against the stored format"""
    rule = 'C05.index'
    hs, bs = head(toks), body(toks)
    if any(t.width is None for t in hs):
        cx.unk(rule, '%s %s' % (q, side), 'field of unknown width')
        return
    ws = [t.width for t in hs]
    want = [w for w, _ in spec]
    if not cx.check(ws == want, rule, '%s %s header widths' % (q, side), hs[0].ev.where if hs else where,
                    'fields of %s bytes, the stored format has %s' % (ws, want), p):
        return
    for t, (w, n) in zip(hs, spec):
        got = named(t)
        if got is not None:
            cx.check(got == n, rule, '%s %s %s' % (q, side, n), t.ev.where, 'the place of %s is used for %s' % (n, got), p)
        else:
            cx.unk(rule, '%s %s %s' % (q, side, n), 'field not recognised: %s' % show(t.v)[:60])
    for t in toks:
        cx.check(t.order == '<', rule, '%s %s byte order' % (q, side), t.ev.where, 'field is not little endian', p)
    if bs:
        if len(bs) != len(elems):
            if any(t.width is None for t in bs):
                cx.unk(rule, '%s %s elements' % (q, side), 'element layout not recognised')
            else:
                cx.bad(rule, '%s %s elements' % (q, side), bs[0].ev.where, '%d fields in each element, the stored format has %d' % (len(bs), len(elems)), p)
            return
        for k, (t, w) in enumerate(zip(bs, elems)):
            c_ = '%s %s element field %d' % (q, side, k)
            if w == 'key':
                if side == 'write':
                    ok = t.v[0] == 'a' and t.v[2] == 'bytes_le'
                    other = t.v[0] == 'a' and t.v[2] in ('bytes', 'bytes_be', 'hex', 'int')
                    if ok or other or isinstance(t.width, int):
                        cx.check(ok, rule, c_, t.ev.where, 'the key is written as %s, not as little endian bytes' % show(t.v), p)
                    else:
                        cx.unk(rule, c_, show(t.v)[:80])
                else:
                    r = is_key_width(p, t.width, me)
                    if r is None:
                        cx.unk(rule, c_, 'key width %s' % (show(t.width) if isinstance(t.width, tuple) else t.width))
                    else:
                        cx.check(r, rule, c_, t.ev.where, 'the key is read as %s bytes' % (t.width if isinstance(t.width, int) else show(t.width)), p)
            elif t.width is not None:
                cx.check(t.width == w, rule, c_, t.ev.where, '%s bytes, the stored format has %s' % (t.width if isinstance(t.width, int) else show(t.width), w), p)
            else:
                cx.unk(rule, c_, 'unknown width')


def names_of(p, me):
    """write side: local names for attributes are resolved by the interpreter already"""
    def named(t):
        v = t.v
        if v[0] == 'a' and v[1] == me:
            return v[2]
        if v[0] == 'call' and v[1] == ('b', 'len') and len(v[2]) == 1:
            x = v[2][0]
            if x == ('a', me, 'references'):
                return 'count'
            if x[0] == 'a' and x[2] == 'bytes_le':
                return 'key_size'
        if is_c(v):
            return 'the constant %r' % (cval(v),)
        return None
    return named


def key_size_on(p, e=None):
    """the key size the path has settled on: 16, 32, None (a test it does not understand), 'any'"""
    cd = conds(p)
    tested = False
    for t, v in cd.items():
        if t[0] == 'cmp' and t[1] == '==' and is_c(t[3]) and cval(t[3]) in (16, 32) and not contains(t[2], lambda s: s[0] == 'new'):
            tested = True
            if v:
                return cval(t[3])
            if any(k[0] == 'cmp' and k[1] == 'in' and vv and k[3][0] == 'members' and set(cval(x) for x in k[3][1]) == {16, 32} for k, vv in cd.items()):
                return 48 - cval(t[3])
        elif t[0] == 'cmp' and t[1] == 'in' and t[3][0] == 'members':
            pass
        elif contains(t, lambda s: s in (c(16), c(32)) or s[0] == 'a' and s[2] == 'key_size'):
            tested = True
    return None if tested else 'any'


def key_class(cx, q, f, p, me):
    """keys of 16 bytes are AUIDs, of 32 bytes MobIDs, both from little endian bytes"""
    ks = [e for e in p.ev if e.kind == 'new' and e.name in ('AUID', 'MobID')]
    for e in ks:
        size = key_size_on(p)
        want = {16: 'AUID', 32: 'MobID'}.get(size)
        for a in list(e.args) + [b for _, b in (e.kw or ())]:
            a = strip_bytes(a)
            if a[0] == 'call' and a[1][0] == 'a' and a[1][2] == 'read' and a[2] and int_of(a[2][0]) is not None:
                w = int_of(a[2][0])
                cx.check(w == {'AUID': 16, 'MobID': 32}[e.name], 'C05.key', '%s %s key size' % (q, e.name), e.where, 'a %s is read from %d bytes' % (e.name, w), p)
        if want:
            cx.check(e.name == want, 'C05.key', '%s %d byte keys' % (q, size), e.where, 'a %d byte key becomes %s' % (size, e.name), p)
        elif size == 'any':
            cx.bad('C05.key', '%s key class' % q, e.where, 'keys of either size become %s' % e.name, p)
        kws = dict(e.kw or ())
        le = 'bytes_le' in kws or len(e.args) > 1
        be = any(k in kws for k in ('bytes_be', 'bytes', 'hex', 'int')) or len(e.args) == 1
        if le or be:
            cx.check(le, 'C05.key', '%s key order' % q, e.where, 'the key is not taken from little endian bytes', p)


def indexes(cx):
    n = 0
    for cls, (spec, elems) in INDEX.items():
        for nm, side in (('read_index', 'read'), ('write_index', 'write')):
            q = 'properties.%s.%s' % (cls, nm)
            f = cx.prog.func(q)
            me = ('p', f.params[0])
            for p in good(cx.paths(f, inline=UTW, assume=True)):
                toks = wire.reads(p) if side == 'read' else wire.writes(p)
                if not toks:
                    continue
                n += 1
                named = (lambda t: wire.field_name(p, t, me)) if side == 'read' else names_of(p, me)
                compare(cx, '%s index' % cls, f.where, side, toks, spec, elems, p, me, named)
                if side == 'read':
                    key_class(cx, cls, f, p, me)
                    element_use(cx, cls, f, p, me, body(toks))
                else:
                    element_values(cx, cls, f, p, me, body(toks))
                # the stream
                suf = [e for e in p.ev if e.kind == 'call' and e.name in ('get', 'touch') and e.args and e.recv is not None and e.recv[0] == 'a' and e.recv[2] == 'dir']
                for e in suf:
                    ok = e.args[0] == ('bin', '+', ('a', me, 'index_name'), c(' index'))
                    if contains(e.args[0], lambda s: is_c(s) and isinstance(cval(s), str)):
                        if e.args[0][0] == 'bin' and e.args[0][1] == '+':
                            cx.check(ok, 'C05.name', '%s index stream (%s)' % (cls, side), e.where, 'the index is kept in %s' % show(e.args[0]), p)
                # old longer contents must not stay behind
                if side == 'write':
                    tail(cx, cls, f, p)
    cx.need('index reading/writing paths', n, 6)


def tail(cx, cls, f, p):
    """what is written replaces the whole stream"""
    for e in p.ev:
        if e.kind == 'call' and e.name == 'open' and e.recv is not None and (e.recv[0] == 'call' and e.recv[1][0] == 'a' and e.recv[1][2] == 'touch'):
            mode = e.arg(0, 'mode')
            if mode == c('w'):
                # an overwriting open of a DirEntry keeps nothing (the container frees the old chain)
                cx.ok('C05.tail', cls)
                continue
            w = [i for i, x in enumerate(p.ev) if x.kind == 'call' and x.name == 'write' and x.recv == e.v]
            t = [i for i, x in enumerate(p.ev) if x.kind == 'call' and x.name == 'truncate' and x.recv == e.v and (not x.args or x.args[0] == NONE)]
            if w:
                cx.check(bool(t) and t[-1] > w[-1], 'C05.tail', cls, e.where, 'a shorter rewrite leaves the end of the old contents in the stream', p)


def element_values(cx, cls, f, p, me, bs):
    refs = ('a', me, 'references')
    if cls == 'StrongRefVectorProperty' and len(bs) == 1:
        cx.check(strip_iter(bs[0].v) == refs or contains(bs[0].v, lambda s: s == refs), 'C05.index', 'vector local keys', bs[0].ev.where, 'writes %s as local key' % show(bs[0].v), p)
    if cls == 'StrongRefSetProperty' and len(bs) == 3:
        lk, rc, key = (b.v for b in bs)
        ok = lk[0] == 'i' and lk[1] == refs and key == ('a', lk[2], 'bytes_le')
        alt = lk[0] == 'i' and key[0] == 'a' and key[2] == 'bytes_le'
        if ok or not alt:
            if not ok and not contains(lk, lambda s: s == refs):
                cx.bad('C05.index', 'set local keys', bs[0].ev.where, 'writes %s as local key' % show(lk), p)
            elif not ok:
                cx.unk('C05.index', 'set local keys', show(lk)[:80])
            else:
                cx.ok('C05.index', 'set local keys')
        if is_c(rc):
            cx.check(rc == c(1), 'C05.index', 'set reference count', bs[1].ev.where, 'writes reference count %s' % show(rc), p)


def element_use(cx, cls, f, p, me, bs):
    if cls != 'StrongRefSetProperty' or len(bs) != 3:
        return
    for e in p.ev:
        if e.kind == 'setitem' and e.a == ('a', me, 'references'):
            if bs[0].v[0] == 'bulk':
                t = bs[0].v[1]
                iv = None
                if e.v[0] == 'i' and e.v[1] == t:
                    iv = norm(e.v[2])
                kidx = None
                for x in p.ev:
                    if x.kind == 'new' and x.v == e.b:
                        for a in list(x.args) + [b for _, b in (x.kw or ())]:
                            for s in subterms(a):
                                if s[0] == 'i' and s[1] == t:
                                    kidx = norm(s[2])
                if iv is not None and kidx is not None:
                    d = norm(('bin', '-', kidx, iv))
                    if is_c(d):
                        cx.check(d == c(2), 'C05.index', 'set element fields', e.where, 'key and local key are taken from fields %s apart, the stored format has them 2 apart' % show(d), p)
                    st = poly(iv)
                    co = [v for m, v in st.items() if m]
                    off = st.get((), 0)
                    if len(co) == 1:
                        cx.check(co[0] == 3 and off == 0, 'C05.index', 'set element stride', e.where, 'element i starts at field %s' % show(iv), p)
            else:
                ok = contains(e.v, lambda s: s == bs[0].v) and not contains(e.v, lambda s: s == bs[2].v)
                cx.check(ok, 'C05.index', 'set element fields', e.where, 'the local key is %s' % show(e.v)[:80], p)


def single(cx):
    """weak references, stream names, object links"""
    f = cx.prog.func('properties.WeakRefProperty.decode')
    me = ('p', f.params[0])
    spec = [(2, 'weakref_index'), (2, 'key_pid'), (1, 'key_size')]
    n = 0
    for p in good(cx.paths(f, inline=UTW, assume=True)):
        toks = wire.reads(p)
        if len(toks) < 3:
            continue
        n += 1
        compare(cx, 'weak reference', f.where, 'read', toks[:3], spec, [], p, me, lambda t: wire.field_name(p, t, me))
        for t in toks[3:]:
            r = is_key_width(p, t.width, me)
            if r is not None:
                cx.check(r, 'C05.index', 'weak reference read key', t.ev.where, 'the key is read as %s bytes' % (t.width,), p)
        key_class(cx, 'weak reference', f, p, me)
    f = cx.prog.func('properties.WeakRefProperty.encode')
    me = ('p', f.params[0])
    for p in good(cx.paths(f, inline=UTW, assume=True)):
        toks = wire.writes(p) or concat_tokens(p)
        if len(toks) < 4:
            continue
        n += 1
        compare(cx, 'weak reference', f.where, 'write', toks[:3], spec, [], p, me, names_of(p, me))
        k = toks[3].v
        if k[0] == 'a':
            cx.check(k == ('a', ('a', me, 'ref'), 'bytes_le'), 'C05.index', 'weak reference write key', toks[3].ev.where if toks[3].ev else f.where, 'the key is written as %s' % show(k), p)
    cx.need('weak reference coding paths', n, 2)


def concat_tokens(p):
    if p.ret is None:
        return []
    out = []
    for x in wire.flat_concat(p.ret):
        pk = wire.packed(x)
        if pk and pk[0] not in (None, '?') and not any(a[0] == 'star' for a in pk[1]):
            fl = wire.fields(pk[0])
            vals = list(pk[1])
            for w, rep in fl or []:
                out.append(wire.Tok(w, vals.pop(0) if rep and vals else NONE, p.ev[-1] if p.ev else None, None, wire.order_of(pk[0])))
        else:
            out.append(wire.Tok(wire.width_of(x), x, p.ev[-1] if p.ev else None))
    return out


def refprops(cx):
    """the table of weak reference target paths"""
    n = 0
    for q, side in (('file.AAFFile.read_reference_properties', 'read'), ('file.AAFFile.write_reference_properties', 'write')):
        f = cx.prog.func(q)
        me = ('p', f.params[0])
        for p in good(cx.paths(f, inline=UTW, assume=True)):
            toks = wire.reads(p) if side == 'read' else wire.writes(p)
            hs = head(toks)
            if not hs or any(t.width is None for t in hs):
                continue
            n += 1
            for e in p.ev:
                if e.kind == 'call' and e.name == 'open' and e.args and is_c(e.args[0]):
                    cx.check(e.args[0] == c('/referenced properties'), 'C05.name', 'reference table stream (%s)' % side, e.where, 'the table is kept in %s' % show(e.args[0]), p)
                    if side == 'write':
                        m = e.arg(1, 'mode')
                        cx.check(m == c('w') or any(x.kind == 'call' and x.name == 'truncate' and x.recv == e.v for x in p.ev), 'C05.tail', 'reference table', e.where, 'an older longer table stays behind', p)
            ws = [t.width for t in hs]
            if not cx.check(ws == [1, 2, 4], 'C05.refs', 'reference table header (%s)' % side, hs[0].ev.where, 'fields of %s bytes, the stored format has [1, 2, 4]' % ws, p):
                continue
            for t in toks:
                cx.check(t.order == '<', 'C05.refs', 'reference table byte order (%s)' % side, t.ev.where, 'not little endian', p)
            if side == 'write':
                cx.check(hs[0].v == c(0x4c), 'C05.refs', 'byte order mark', hs[0].ev.where, 'writes %s' % show(hs[0].v), p)
                cx.check(hs[1].v == ('call', ('b', 'len'), (('a', me, 'weakref_table'),), (), hs[1].v[4] if len(hs[1].v) > 4 else 0) or value_len(hs[1].v, ('a', me, 'weakref_table')),
                         'C05.refs', 'path count', hs[1].ev.where, 'the path count is %s' % show(hs[1].v), p)
                bs = body(toks)
                for t in bs:
                    if t.width is not None:
                        cx.check(t.width == 2, 'C05.refs', 'reference table pids', t.ev.where, 'a pid is written in %s bytes' % t.width, p)
                # one pid path, one pid: the number of u16 written is the pid count
                once = [e for e in p.ev if e.kind == 'loop']
                if len(bs) and once:
                    z = [t for t in bs if t.v == c(0)]
                    cx.check(bool(z), 'C05.refs', 'path terminator', bs[-1].ev.where, 'a path is not ended with a zero pid', p)
                    if z:
                        cx.check(p_index(p, z[-1]) == max(p_index(p, t) for t in bs), 'C05.refs', 'path terminator', z[-1].ev.where, 'the zero pid is not the last of a path', p)
                pc = norm(hs[2].v)
                paths = [e for e in p.ev if e.kind == 'loop' and strip_iter(e.a) == ('a', me, 'weakref_table')]
                if paths and pc is not None:
                    # counted per path: its length and its terminator
                    pp = poly(pc)
                    lens = [m for m in pp if m and m[0][0] == 'call' and m[0][1] == ('b', 'len')]
                    if lens:
                        cx.check(pp.get((), 0) == len(lens), 'C05.refs', 'pid count', hs[2].ev.where, 'the pid count is %s for %d path(s): terminators are not counted' % (show(pc), len(lens)), p)
            else:
                for t in body(toks):
                    if isinstance(t.width, int):
                        cx.check(t.width == 2, 'C05.refs', 'reference table pids', t.ev.where, 'a pid is read from %s bytes' % t.width, p)
                for e in p.ev:
                    if e.kind == 'iter' and e.a[0] == 'call' and e.a[1] == ('b', 'range'):
                        cx.check(contains(e.a, lambda s: s == hs[2].v), 'C05.refs', 'pid count', e.where, 'the number of pids read is %s' % show(e.a)[:80], p)
    cx.need('reference table paths', n, 2)
    # reading: a zero ends a path, anything else extends it
    f = cx.prog.func('file.AAFFile.read_reference_properties')
    fresh(cx, f)
    me = ('p', f.params[0])
    for p in good(cx.paths(f, inline=UTW, assume=True)):
        toks = body(wire.reads(p))
        for t in toks:
            cd = conds(p)
            z = query(cx, cd, cmp_('==', t.v, c(0)))
            if z is None:
                v = query(cx, cd, t.v)
                z = None if v is None else not v
            add = [e for e in p.ev if e.kind == 'call' and e.name == 'append']
            to_table = [e for e in add if e.recv == ('a', me, 'weakref_table') or ends(e.recv, 'weakref_table')]
            has_pid = [e for e in add if e.args and e.args[0] == t.v]
            if z is True:
                cx.check(bool(to_table) or not add, 'C05.refs', 'end of path', t.ev.where, 'a zero pid does not end a path', p)
                cx.check(not has_pid, 'C05.refs', 'end of path', t.ev.where, 'the terminator becomes part of a path', p)
            elif z is False:
                cx.check(not to_table, 'C05.refs', 'path pids', t.ev.where, 'a path ends at a pid that is not zero', p)
                cx.check(bool(has_pid) or not add, 'C05.refs', 'path pids', t.ev.where, 'a pid is dropped', p)


def seq_of(t):
    """(what is gone through, the order put on it)"""
    order = ()
    while isinstance(t, tuple):
        if t[0] == 'call' and t[1][0] == 'b' and t[1][1] in ('list', 'tuple', 'iter', 'enumerate') and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'b' and t[1][1] in ('sorted', 'reversed') and t[2]:
            order += (t[1][1], t[3] if len(t) > 3 else ())
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('values', 'items', 'keys') and not t[2]:
            t = t[1][1]
        else:
            return t, order
    return None


def fresh(cx, f):
    """a list put into a table inside a loop and filled there is a new one each time"""
    for loop in ast.walk(f.node):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        put, fill, bound = {}, set(), set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and n.args:
                if isinstance(n.func.value, ast.Name):
                    fill.add(n.func.value.id)
                if isinstance(n.args[0], ast.Name) and n.func.attr == 'append':
                    put[n.args[0].id] = n
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.For, ast.AugAssign)) else []):
                bound |= set(x.id for x in ast.walk(t) if isinstance(x, ast.Name))
        for v, n in put.items():
            if v in fill:
                cx.check(v in bound, 'C05.refs', 'new path per entry', '%s:%d' % (f.module.rel, n.lineno), 'every path in the table is the same list: it is not started anew')


def value_len(v, x):
    return v[0] == 'call' and v[1] == ('b', 'len') and v[2] == (x,)


def p_index(p, t):
    return p.ev.index(t.ev)


def propstream(cx):
    f = cx.prog.func('core.AAFObject.write_properties')
    me = ('p', f.params[0])
    ent = ('a', me, 'property_entries')
    n = 0
    for p in good(cx.paths(f, inline=UTW, assume=True)):
        toks = wire.writes(p)
        hs, bs = head(toks), body(toks)
        if not hs or any(t.width is None for t in hs):
            continue
        n += 1
        ws = [t.width for t in hs]
        if not cx.check(ws == [1, 1, 2], 'C05.properties', 'header (write)', hs[0].ev.where, 'fields of %s bytes, the stored format has [1, 1, 2]' % ws, p):
            continue
        cx.check(hs[0].v == c(0x4c), 'C05.properties', 'byte order mark', hs[0].ev.where, 'writes %s' % show(hs[0].v), p)
        if is_c(hs[1].v):
            cx.check(hs[1].v == c(32), 'C05.properties', 'version', hs[1].ev.where, 'writes %s' % show(hs[1].v), p)
        cx.check(value_len(hs[2].v, ent) or hs[2].v[0] != 'call', 'C05.properties', 'entry count', hs[2].ev.where, 'the entry count is %s' % show(hs[2].v), p)
        for t in toks:
            cx.check(t.order == '<', 'C05.properties', 'byte order (write)', t.ev.where, 'not little endian', p)
        es = [t for t in bs if isinstance(t.width, int)]
        ds = [t for t in bs if t.width is None]
        if es:
            if cx.check([t.width for t in es] == [2, 2, 2], 'C05.properties', 'entry (write)', es[0].ev.where, 'entry fields of %s bytes, the stored format has [2, 2, 2]' % [t.width for t in es], p):
                a, b, s = (t.v for t in es)
                def nm(x):
                    if x[0] == 'a':
                        return x[2]
                    if x[0] == 'call' and x[1] == ('b', 'len') and x[2][0][0] == 'a':
                        return 'len ' + x[2][0][2]
                    return None
                got = [nm(x) for x in (a, b, s)]
                if None in got:
                    cx.unk('C05.properties', 'entry fields', '; '.join(show(x)[:60] for x in (a, b, s)))
                else:
                    cx.check(got == ['pid', 'format', 'len data'], 'C05.properties', 'entry fields', es[0].ev.where, 'the entry holds %s' % ', '.join(got), p)
        for t in ds:
            if t.v[0] == 'a':
                cx.check(t.v[2] == 'data', 'C05.properties', 'data', t.ev.where, 'writes %s' % show(t.v), p)
                if es:
                    x, y = seq_of(es[0].loop), seq_of(t.loop)
                    if x and y and x[0] == y[0]:
                        cx.check(x[1] == y[1], 'C05.properties', 'data order', t.ev.where, 'entries are written in the order of %s, their data in the order of %s' % (show(es[0].loop), show(t.loop)), p)
                    cx.check(p_index(p, t) > max(p_index(p, x) for x in es), 'C05.properties', 'data after entries', t.ev.where, 'data is written between the entries', p)
                    cx.check(strip_iter(es[0].v[1]) == strip_iter(t.v[1]), 'C05.properties', 'data order', t.ev.where, 'entries and data are not written in the same order', p)
        for e in p.ev:
            if e.kind == 'call' and e.name == 'touch' and e.args and is_c(e.args[0]):
                cx.check(e.args[0] == c('properties'), 'C05.name', 'property stream (write)', e.where, show(e.args[0]), p)
        tail(cx, 'property stream', f, p)
    cx.need('property writing paths', n, 1)
    f = cx.prog.func('core.AAFObject.read_properties')
    me = ('p', f.params[0])
    n = 0
    for p in good(cx.paths(f, inline=UTW, assume=True)):
        toks = wire.reads(p)
        for e in p.ev:
            if e.kind == 'call' and e.name == 'get' and e.args and is_c(e.args[0]) and e.recv == ('a', me, 'dir'):
                cx.check(e.args[0] == c('properties'), 'C05.name', 'property stream (read)', e.where, show(e.args[0]), p)
        hs = [t for t in toks if t.loop is None and isinstance(t.width, int)]
        if not hs:
            continue
        n += 1
        if not cx.check([t.width for t in hs[:3]] == [1, 1, 2] or [t.width for t in hs] == [1, 1, 2], 'C05.properties', 'header (read)', hs[0].ev.where, 'fields of %s bytes, the stored format has [1, 1, 2]' % [t.width for t in hs], p):
            continue
        cnt = hs[2].v
        bulk = [t for t in toks if t.loop is not None and t.loop[0] == 'bulk']
        for t in bulk:
            size = norm(t.ev.args[0]) if t.ev.args else None
            if size is not None and t.v[1][0] == 'call' and not contains(t.v[1], lambda s: s == cnt):
                cx.check(norm(size) == norm(('bin', '*', c(6), cnt)), 'C05.properties', 'entry table size', t.ev.where, 'reads %s bytes of entries' % show(size)[:80], p)
            cx.check(t.width == 2 or len(bulk) == 3, 'C05.properties', 'entry (read)', t.ev.where, 'entry fields of %s bytes' % t.width, p)
        # pid, format, size are fields 0, 1, 2 of entry i
        for e in p.ev:
            if e.kind == 'setitem' and e.a == ('a', me, 'property_entries'):
                k = e.b
                if k[0] == 'i' and bulk and k[1] == bulk[0].v[1]:
                    base = poly(norm(k[2]))
                    cx.check(base.get((), 0) == 0 and sorted(v for m, v in base.items() if m) == [3], 'C05.properties', 'pid field', e.where, 'the pid is field %s' % show(norm(k[2]))[:60], p)
                    mk = e.v
                    if mk[0] == 'call' and mk[1][0] == 'i':
                        fx = mk[1][2]
                        if fx[0] == 'i' and fx[1] == k[1]:
                            d = norm(('bin', '-', fx[2], k[2]))
                            cx.check(d == c(1), 'C05.properties', 'format field', e.where, 'the format is %s fields behind the pid' % show(d)[:60], p)
                    for x in p.ev:
                        if x.kind == 'set' and x.a == e.v and x.b == 'data' and x.v[0] == 'call' and x.v[1][0] == 'a' and x.v[1][2] == 'read' and x.v[2]:
                            sx = x.v[2][0]
                            if sx[0] == 'i' and sx[1] == k[1]:
                                d = norm(('bin', '-', sx[2], k[2]))
                                cx.check(d == c(2), 'C05.properties', 'size field', x.where, 'the data size is %s fields behind the pid' % show(d)[:60], p)
    cx.need('property reading paths', n, 1)
    bigendian(cx, f)


def bigendian(cx, f):
    """arrays read in machine order are swapped on big endian machines, and only there"""
    ps = good(cx.paths(f, inline=UTW, assume=True))
    if any(wire.arrays(p) for p in ps):
        cx.check(any(e.kind == 'call' and e.name == 'byteswap' for p in ps for e in p.ev), 'C05.properties', 'big endian machine', f.where,
                 'entries are read in machine order and never swapped: wrong on big endian machines')
    for p in ps:
        cd = conds(p)
        swaps = [e for e in p.ev if e.kind == 'call' and e.name == 'byteswap']
        arr = wire.arrays(p)
        if not arr:
            continue
        big = query(cx, cd, cmp_('==', ('ext', 'sys.byteorder'), c('big')))
        if big is True:
            cx.check(len(swaps) == 1, 'C05.properties', 'big endian machine', f.where, 'entries are read in the wrong byte order', p)
        elif big is False:
            cx.check(not swaps, 'C05.properties', 'little endian machine', f.where, 'entries are read in the wrong byte order', p)


def links(cx):
    """names that connect objects with their directory entries are coded and decoded alike"""
    for cls in ('StrongRefProperty', 'StrongRefVectorProperty', 'StrongRefSetProperty', 'WeakRefArrayProperty', 'StreamProperty'):
        e = cx.prog.func('properties.%s.encode' % cls)
        d = cx.prog.func('properties.%s.decode' % cls)
        me = ('p', d.params[0])
        arg = ('p', e.params[1])
        off = 0
        for p in good(cx.paths(e)):
            parts = wire.flat_concat(p.ret)
            last = parts[-1]
            enc = last[0] == 'call' and last[1][0] == 'g' and last[1][1].endswith('encode_utf16le') and last[2] == (arg,)
            if last[0] == 'call' and last[1][0] == 'g' and not last[1][1].endswith('encode_utf16le') or last == arg:
                cx.check(enc, 'C05.name', '%s name coding' % cls, e.where, 'names are stored as %s' % show(p.ret), p)
            elif not enc:
                cx.unk('C05.name', '%s name coding' % cls, show(p.ret)[:80])
            pre = [x for x in parts[:-1]]
            if all(is_c(x) and isinstance(cval(x), bytes) for x in pre):
                off = sum(len(cval(x)) for x in pre)
                if cls == 'StreamProperty':
                    cx.check(b''.join(cval(x) for x in pre) == b'\x55', 'C05.name', 'stream byte order mark', e.where, 'stream names start with %r' % b''.join(cval(x) for x in pre), p)
        attr = {'StrongRefProperty': 'ref', 'StreamProperty': 'stream_name'}.get(cls, 'index_name')
        for p in good(cx.paths(d)):
            st = [x for x in p.ev if x.kind == 'set' and x.a == me and x.b in (attr, '_' + attr)]
            if not cx.check(bool(st), 'C05.name', '%s name kept' % cls, d.where, 'the stored name is not kept', p):
                continue
            v = st[-1].v
            if v[0] == 'call' and v[1][0] == 'g':
                cx.check(v[1][1].endswith('decode_utf16le'), 'C05.name', '%s name decoding' % cls, d.where, 'names are read as %s' % show(v), p)
                a = v[2][0]
                lo = 0
                if a[0] == 'i' and a[2][0] == 'slice':
                    lo = int_of(a[2][1]) if a[2][1] != NONE else 0
                    a = a[1]
                if a == ('a', me, 'data'):
                    cx.check(lo == off, 'C05.name', '%s name offset' % cls, d.where, 'names are written behind %d bytes and read behind %s' % (off, lo), p)
    # names of the parts: the reader's and the writer's place for an object are computed by one function
    for cls in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
        f = cx.prog.func('properties.%s.index_ref_name' % cls)
        me, k = ('p', f.params[0]), ('p', f.params[1])
        want = ('i', ('a', me, 'references'), k)
        for p in good(cx.paths(f)):
            r = p.ret
            args = None
            if r[0] == 'bin' and r[1] == '%' and is_c(r[2]):
                args = r[3]
                if args[0] == 'tuple' and len(args[1]) == 2:
                    cx.check(cval(r[2]) == '%s{%x}' and args[1] == (('a', me, 'index_name'), want), 'C05.name', '%s element names' % cls, f.where,
                             'elements are stored as %s, the stored format has name{local key in hex}' % show(r), p)
                    continue
            cx.unk('C05.name', '%s element names' % cls, show(r)[:80])


def text(cx):
    """utf-16 little endian with a terminator, on both sides"""
    f = cx.prog.func('utils.encode_utf16le')
    for p in good(cx.paths(f)):
        r = p.ret
        codec = [cval(s).lower().replace('-', '').replace('_', '') for s in subterms(r) if is_c(s) and isinstance(cval(s), str) and 'utf' in cval(s).lower()]
        for x in codec:
            cx.check(x == 'utf16le', 'C05.text', 'encode codec', f.where, 'text is stored as %s' % x, p)
        parts = wire.flat_concat(r)
        if len(parts) == 1 and parts[0][0] == 'call' and parts[0][1][0] == 'a' and parts[0][1][2] == 'encode':
            src = parts[0][1][1]
            z = src[0] == 'bin' and src[1] == '+' and is_c(src[3]) and cval(src[3]) == '\x00'
            cx.check(z, 'C05.text', 'terminator', f.where, 'stored text has no terminator', p)
        elif is_c(parts[-1]):
            cx.check(cval(parts[-1]) == b'\x00\x00', 'C05.text', 'terminator', f.where, 'stored text ends with %r' % (cval(parts[-1]),), p)
    f = cx.prog.func('utils.decode_utf16le')
    n = 0
    for p in good(cx.paths(f)):
        n += 1
        codec = [cval(s).lower().replace('-', '').replace('_', '') for t in wire.all_terms(p) for s in subterms(t) if is_c(s) and isinstance(cval(s), str) and 'utf' in cval(s).lower()]
        for x in codec:
            cx.check(x == 'utf16le', 'C05.text', 'decode codec', f.where, 'text is read as %s' % x, p)
    cx.need('decode paths', n, 1)


def indexkinds(cx):
    everykind(cx, 'C05.index', 'core.AAFObject.write_properties', 'write_index', 'the index of a %s is not written')
    everykind(cx, 'C05.index', 'core.AAFObject.read_properties', 'read_index', 'the index of a %s is not read')


def C05(cx):
    indexkinds(cx)
    indexes(cx)
    single(cx)
    refprops(cx)
    propstream(cx)
    links(cx)
    text(cx)

