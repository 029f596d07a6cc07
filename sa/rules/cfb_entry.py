"""C03: directory record attributes."""
from .util import *
from .layout import *

# [MS-CFB] 2.6.1 Compound File Directory Entry
SPEC = {'name': [(0, 64), (64, 66)], 'type': [(66, 67)], 'color': [(67, 68)], 'red': [(67, 68)],
        'left_id': [(68, 72)], 'right_id': [(72, 76)], 'child_id': [(76, 80)], 'class_id': [(80, 96)],
        'flags': [(96, 100)], 'create_time': [(100, 108)], 'modify_time': [(108, 116)],
        'sector_id': [(116, 120)], 'byte_size': [(120, 128)]}
SID = ('left_id', 'right_id', 'child_id', 'sector_id')
PLAIN = ('flags', 'create_time', 'modify_time', 'byte_size')
TYPES = {0: 'empty', 1: 'storage', 2: 'stream', 5: 'root storage'}
UT = ('encode_sid', 'decode_sid', 'unpack_u16le_from', 'unpack_u32le_from', 'unpack_u64le_from',
      'int_from_bytes', 'bytes_from_int')
NOSID = 0xFFFFFFFF


def data_writes(p, buf):
    """[(lo, hi, value term, ev)]; lo/hi int or None when not constant"""
    out = []
    for e in p.ev:
        if e.kind == 'setitem' and e.a == buf:
            if e.b[0] == 'slice':
                lo, hi = slice_bounds(e.b)
                out.append((int_of(lo), int_of(hi) if hi is not None else None, e.v, e))
            else:
                o = int_of(e.b)
                out.append((o, None if o is None else o + 1, e.v, e))
        elif e.kind == 'call' and e.name.split('.')[-1] == 'pack_into':
            if e.fn[0] == 'ext':
                fmt, rest = fmt_of(e.args[0]) if e.args else None, e.args[1:]
            elif e.recv is not None and e.recv[0] == 'call' and e.recv[1] == ('ext', 'struct.Struct'):
                fmt, rest = fmt_of(e.recv[2][0]), e.args
            else:
                fmt, rest = None, e.args
            if len(rest) >= 3 and rest[0] == buf:
                o = int_of(rest[1])
                n = fsize(fmt) if fmt else None
                if fmt and norm_fmt(fmt)[0] == '>':
                    out.append((o, -1, rest[2], e))
                elif fmt and norm_fmt(fmt)[1] in ('b', 'h', 'i', 'q', 'l'):
                    out.append((o, -2, rest[2], e))
                else:
                    out.append((o, None if o is None or n is None else o + n, rest[2], e))
    return out


def marked(p, me, after=None):
    """the entry is queued for writing on this path (after event index `after`)"""
    for i, e in enumerate(p.ev):
        if after is not None and i < after:
            continue
        if e.kind == 'call' and e.name == 'mark_modified' and e.recv == me:
            return True
        if e.kind == 'setitem' and ends(e.a, 'modified') and e.v == me:
            return True
    return False


def run(cx):
    k = cx.prog.cls('DirEntry', 'cfb')
    n = 0
    for attr in sorted(SPEC):
        g, s = k.getter(attr), k.setter(attr)
        if g is None or s is None:
            raise AnalysisBroken('directory entry attribute %s has no getter/setter pair' % attr)
        n += 1
        setter(cx, attr, s)
        getter(cx, attr, g)
    # any other property on the record must not reach bytes owned by another attribute silently
    for name, s in sorted(k.setters.items()):
        if name in SPEC:
            continue
        me = self_of_(s)
        buf = ('a', me, 'data')
        for p in cx.paths(s, inline=UT):
            for lo, hi, v, e in data_writes(p, buf):
                cx.check(marked(p, me, p.ev.index(e)) or p.raised, 'C03.persist', 'DirEntry.%s' % name, e.where,
                         'record bytes are changed without queueing the record for writing', p)
    cx.need('directory entry attributes', n, 13)
    mark(cx)
    flush(cx)
    # the type table
    m = cx.prog.module('cfb')
    import ast
    tab = {}
    d = m.consts.get('dir_types')
    if isinstance(d, ast.Dict):
        for kk, vv in zip(d.keys, d.values):
            if isinstance(kk, ast.Constant) and isinstance(vv, ast.Constant):
                tab[kk.value] = vv.value
        for v, nm in TYPES.items():
            cx.check(tab.get(v) == nm, 'C03.type-table', 'dir_types[%d]' % v, m.rel,
                     'object type %d must be %r, the table says %r' % (v, nm, tab.get(v)))
        cx.check(len(set(tab.values())) == len(tab), 'C03.type-table', 'dir_types one-to-one', m.rel,
                 'two object type codes share one name: assigning the name cannot store the right code')


def self_of_(f):
    return ('p', f.params[0])


def setter(cx, attr, s):
    me, val = ('p', s.params[0]), ('p', s.params[1])
    buf = ('a', me, 'data')
    spec = SPEC[attr]
    wrote = 0
    con = 'DirEntry.%s setter' % attr
    for p in cx.paths(s, inline=UT):
        if p.raised:
            continue
        ws = data_writes(p, buf)
        for e in p.ev:
            if e.kind == 'set' and e.a == me and e.b == 'data':
                cx.unk('C03.layout', con, 'replaces the record buffer')
        if attr == 'name':
            name_setter(cx, con, p, me, val, buf, ws)
        else:
            lo, hi = spec[0]
            for a, b, v, e in ws:
                if a is None or b is None:
                    cx.unk('C03.layout', con, 'write at a computed position')
                    continue
                cx.check((a, b) == (lo, hi), 'C03.layout', con, e.where,
                         'stores %s but the record keeps this attribute at bytes %d-%d' % (
                             'big endian' if b == -1 else 'signed' if b == -2 else 'bytes %d-%d' % (a, b), lo, hi), p)
            value_rule(cx, attr, con, p, val, ws)
        wrote += len(ws)
        if ws:
            last = max(p.ev.index(w[3]) for w in ws)
            cx.check(marked(p, me, last), 'C03.persist', con, ws[-1][3].where,
                     'the record is changed but not queued for writing afterwards', p)
        else:
            # nothing written on a path that returns normally: the assignment is lost
            if not same_value_guard(cx, p, me, val, attr):
                cx.bad('C03.stored', con, s.where, 'a path returns normally without storing the assigned value', p)
    cx.check(wrote > 0, 'C03.stored', con, s.where, 'never stores into the record buffer')


def same_value_guard(cx, p, me, val, attr):
    # `if value == current: return`
    for t, v in p.state.facts.items():
        if v and t[0] == 'cmp' and t[1] in ('==', 'is') and val in (t[2], t[3]):
            return True
    return False


def value_rule(cx, attr, con, p, val, ws):
    if len(ws) != 1:
        return
    lo, hi, v, e = ws[0]
    v = norm(v)
    isnone = query(cx, p.state.facts, cmp_('is', val, NONE))
    if attr in SID:
        if isnone is True:
            cx.check(v == c(NOSID), 'C03.value', con, e.where, 'no reference must be stored as 0xFFFFFFFF, stores %s' % show(v), p)
        elif isnone is False:
            cx.check(v == val, 'C03.value', con, e.where, 'stores %s instead of the assigned id' % show(v), p)
        elif v[0] != 'call':
            cx.check(False, 'C03.value', con, e.where, 'None is not encoded as 0xFFFFFFFF (stores %s)' % show(v), p)
    elif attr in PLAIN:
        if roots(v) == {val} or v == val:
            cx.check(v == val or v == ('call', ('b', 'int'), (val,), (), 0), 'C03.value', con, e.where, 'stores %s instead of the assigned value' % show(v), p)
        else:
            cx.check(False, 'C03.value', con, e.where, 'stores %s instead of the assigned value' % show(v), p)
    elif attr == 'class_id':
        if isnone is True:
            z = v[0] == 'call' and v[1] in (('b', 'bytearray'), ('b', 'bytes')) and v[2] == (c(16),)
            z = z or v == c(b'\0' * 16) or (v[0] == 'bin' and v[1] == '*')
            cx.check(z, 'C03.value', con, e.where, 'an absent class id must be stored as 16 zero bytes', p)
        elif isnone is False:
            cx.check(ends(v, 'bytes_le') or not ends(v, 'bytes'), 'C03.value', con, e.where,
                     'class id must be stored in its little endian form', p)
    elif attr in ('color', 'red'):
        code = int_of(v)
        if code is None and v[0] == 'bool':
            return
        if attr == 'red':
            t = query(cx, p.state.facts, val)
            if t is not None and code is not None:
                cx.check(code == (0 if t else 1), 'C03.value', con, e.where, 'red must be stored as 0 and black as 1', p)
        else:
            for nm, want in (('black', 1), ('red', 0)):
                if query(cx, p.state.facts, cmp_('==', val, c(nm))) is True and code is not None:
                    cx.check(code == want, 'C03.value', con, e.where, '%s must be stored as %d' % (nm, want), p)


def name_setter(cx, con, p, me, val, buf, ws):
    fld = [w for w in ws if w[0] == 64]
    cx.check(len(fld) >= 1 and all(w[1] == 66 for w in fld), 'C03.layout', con, ws[0][3].where if ws else '',
             'the name length must be stored in bytes 64-66', p)
    body = [w for w in ws if w[0] == 0]
    cx.check(bool(body), 'C03.layout', con + ' text', ws[0][3].where if ws else '', 'the name is not stored from byte 0', p)
    for w in fld:
        v = norm(w[2])
        enc = [s for s in subterms(v) if s[0] == 'call' and s[1] == ('b', 'len')]
        # min(len+2, 64), or a plain polynomial len+2
        inner = v
        if v[0] == 'call' and v[1] == ('b', 'min'):
            inner = [x for x in v[2] if int_of(x) is None]
            lim = [int_of(x) for x in v[2] if int_of(x) is not None]
            if lim:
                cx.check(lim == [64], 'C03.value', con + ' length', w[3].where, 'length is clamped to %s instead of 64' % lim, p)
            inner = inner[0] if len(inner) == 1 else v
        if inner[0] == 'poly':
            d = dict(inner[1])
            k = d.pop((), 0)
            cx.check(k == 2, 'C03.value', con + ' length', w[3].where, 'the stored length counts the terminator: text length + 2, found + %d' % k, p)
        elif enc and inner == enc[0]:
            cx.bad('C03.value', con + ' length', w[3].where, 'the stored length leaves out the terminator', p)
    cache = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == '_name']
    getter = cx.prog.cls('DirEntry', 'cfb').getter('name')
    uses_cache = any(has_attr(q.ret, '_name') for q in cx.paths(getter, inline=UT))
    if uses_cache:
        okc = any(e.v == val or e.v[0] in ('g',) for e in cache) or any(e.kind == 'delattr' and e.b == '_name' for e in p.ev)
        cx.check(okc, 'C03.cache', con, getter.where, 'the remembered name is not updated when the name changes', p)


def getter(cx, attr, g):
    me = ('p', g.params[0])
    buf = ('a', me, 'data')
    con = 'DirEntry.%s getter' % attr
    lo, hi = SPEC[attr][0]
    for p in cx.paths(g, inline=UT):
        if p.raised:
            continue
        r = norm(p.ret)
        facts = p.state.facts
        if attr in SID:
            fr = [(t, v) for t, v in facts.items() if all_reads(t, buf)]
            if r == NONE:
                good = any(v and t[0] == 'cmp' and t[1] in ('==', 'in') and all_reads(t[2], buf) == [(lo, hi)]
                           and (t[3] == c(NOSID) or t[3] == ('members', (c(NOSID),))) for t, v in fr)
                cx.check(good, 'C03.value', con, g.where, 'reports no reference although the stored id is not 0xFFFFFFFF', p)
            else:
                cx.check(le_interval(r, buf) == (lo, hi - lo), 'C03.layout', con, g.where,
                         'reads %s but the record keeps this attribute at bytes %d-%d' % (all_reads(r, buf), lo, hi), p)
                good = any(not v and t[0] == 'cmp' and (t[3] == c(NOSID) or (t[3][0] == 'members' and c(NOSID) in t[3][1])) for t, v in fr)
                cx.check(good, 'C03.value', con + ' none', g.where, '0xFFFFFFFF is not reported as no reference', p)
        elif attr in PLAIN:
            cx.check(le_interval(r, buf) == (lo, hi - lo), 'C03.layout', con, g.where,
                     'reads %s but the record keeps this attribute at bytes %d-%d' % (all_reads(r, buf), lo, hi), p)
        elif attr == 'name':
            if is_cache_read(r):
                cx.ok('C03.layout', con)
                continue
            rd = [x for x in all_reads(r, buf)]
            sl = [s for s in subterms(r) if s[0] == 'i' and s[1] == buf and s[2][0] == 'slice']
            lens = set()
            for s in sl:
                b = slice_bounds(s[2])
                cx.check(int_of(b[0]) == 0, 'C03.layout', con, g.where, 'the name is read from byte %s' % show(b[0]), p)
                if b[1] is not None and int_of(b[1]) is None:
                    lens |= set(all_reads(b[1], buf))
            for x in lens:
                cx.check(x == (64, 66), 'C03.layout', con + ' length', g.where, 'the name length is read from bytes %s' % (x,), p)
        else:
            rd = all_reads(r, buf)
            if not rd:
                rd = []
                for t in facts:
                    rd += all_reads(t, buf)
            for x in rd:
                cx.check(x == (lo, hi), 'C03.layout', con, g.where, 'reads bytes %s, the record keeps this attribute at %d-%d' % (x, lo, hi), p)
            if not rd:
                cx.unk('C03.layout', con, 'no constant read')
            if attr in ('color', 'red'):
                cell = ('i', buf, c(67))
                b = query(cx, facts, cmp_('==', cell, c(1)))
                z = query(cx, facts, cmp_('==', cell, c(0)))
                black = True if b is True or (z is False and b is None) else False if (b is False or z is True) else None
                want = None
                if is_c(r):
                    want = (r == c('black')) if attr == 'color' else (r == FALSE)
                if black is not None and want is not None:
                    cx.check(black == want, 'C03.value', con, g.where, 'byte 67 is 1 for black and 0 for red', p)
            if attr == 'class_id' and r != NONE:
                if r[0] == 'new':
                    kw = dict(r[3])
                    cx.check('bytes_le' in kw or not ('bytes' in kw or 'bytes_be' in kw or r[2]), 'C03.value', con, g.where,
                             'class id is kept in little endian form', p)


def is_cache_read(r):
    return r[0] == 'a' and r[2] == '_name'


def mark(cx):
    f = cx.prog.maybe_func('cfb.DirEntry.mark_modified')
    if f is None:
        return
    me = ('p', f.params[0])
    mode = ('a', ('a', me, 'storage'), 'mode')
    did = ('a', me, 'dir_id')
    n = 0
    for p in cx.paths(f, assume=True):
        sets = [e for e in p.ev if e.kind == 'setitem' and ends(e.a, 'modified')]
        facts = conds(p)
        ro = query(cx, facts, cmp_('in', mode, members('r', 'rb')))
        none = query(cx, facts, cmp_('is', did, NONE))
        if p.raised:
            continue
        if sets:
            n += 1
            for e in sets:
                cx.check(e.b == did and e.v == me, 'C03.persist', 'mark_modified registers itself', e.where,
                         'queues %s under key %s' % (show(e.v), show(e.b)), p)
        else:
            excused = ro is True or none is True or any(
                v and t[0] == 'cmp' and t[1] == 'in' and t[2] == did and ends(t[3], 'modified') for t, v in facts.items())
            if not excused:
                # writing directly is also persisting
                excused = any(e.kind == 'call' and e.name == 'write' for e in p.ev)
            cx.check(excused, 'C03.persist', 'mark_modified queues writable records', f.where,
                     'a modified record of a writable file is not queued (conditions: %s)' % ', '.join('%s%s' % ('' if v else 'not ', show(t)) for t, v in facts.items()), p)
    cx.need('mark_modified queueing paths', n, 1)


def all_facts(p):
    return p.state.facts


def facts_str(p):
    return ', '.join('%s%s' % ('' if v else 'not ', show(t)) for t, v in p.state.facts.items())


def flush(cx):
    f = cx.prog.func('cfb.CompoundFileBinary.write_modified_dir_entries')
    me = ('p', f.params[0])
    mod = ('a', me, 'modified')
    loops = 0
    for p in cx.paths(f, inline=('dir_entry_pos', 'dir_entry_sid_offset', 'DirEntry.write', 'cfb.DirEntry.write'), unroll=2):
        if p.raised:
            continue
        its = [i for i, e in enumerate(p.ev) if e.kind == 'loop']
        clear = [i for i, e in enumerate(p.ev) if (e.kind == 'set' and e.b == 'modified') or
                 (e.kind == 'call' and e.name in ('clear', 'popitem') and e.recv == mod) or
                 (e.kind == 'delitem' and e.a == mod) or (e.kind == 'call' and e.name == 'pop' and e.recv == mod)]
        writes = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'write' and e.args and ends(e.args[0], 'data')]
        whole = [i for i in clear if p.ev[i].kind == 'set' or p.ev[i].name == 'clear']
        for j, i in enumerate(its):
            loops += 1
            nxt = its[j + 1] if j + 1 < len(its) else len(p.ev)
            w = [x for x in writes if i < x < nxt]
            cx.check(bool(w), 'C03.flush', 'each queued record is written', p.ev[i].where,
                     'a queued record is passed over without writing its bytes', p)
        for x in whole:
            cx.check(not any(y > x for y in writes), 'C03.flush', 'queue is emptied after the writes', p.ev[x].where,
                     'the queue is emptied before the queued records are written', p)
    if not loops:
        cx.unk('C03.flush', 'write_modified_dir_entries', 'no loop recognised')
