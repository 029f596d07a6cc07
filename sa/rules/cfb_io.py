"""C08 the sector read cache never serves stale bytes; C11 stream bytes live where the tables
say they do."""
import ast
from .util import *
from .layout import *
from .cfb_header import sector_of
from .cfb_alloc import small_term, table_of, is_alloc_call

UNROLL = 2
INL = ('is_mini_stream', 'sector_size', 'tell', 'sector_index', 'sector_offset', 'get_sid_offset', 'dir_entry_pos', 'dir_entry_sid_offset')


def fdiv(a, b):
    return norm(('bin', '//', a, b))


def fmod(a, b):
    return norm(('bin', '%', a, b))


def known_only(t):
    """built from attributes, arithmetic and size functions only"""
    for s in subterms(t):
        if s[0] == 'call' and s[1] not in (('b', 'min'), ('b', 'max'), ('b', 'len'), ('b', 'memoryview'), ('b', 'int'),
                                           ('b', 'bytearray'), ('b', 'bytes'), ('b', 'divmod')):
            return False
        if s[0] in ('obj', 'comp', 'elem', 'idx', 'key', 'nth', 'new', 'p') and not (s[0] == 'p'):
            return False
    return True


def path_mini(cx, p, upto, me):
    """the branch the path is in: True mini stream, False regular, None unknown"""
    cd = conds(p, upto)
    root = query(cx, cd, cmp_('==', ('a', ('a', me, 'dir'), 'type'), c('root storage')))
    if root is True:
        return False
    r = None
    for i, e in enumerate(p.ev[:upto]):
        if e.kind == 'assume':
            s = small_term(e.a)
            if s and s[0] != 'bad':
                r = (s[0] == e.b)
    return r


def iterations(p, what):
    """[(k, event index, event)] the what(e) events with the number of sectors done before"""
    out = []
    for i, e in enumerate(p.ev):
        if what(e):
            out.append((len(out), i, e))
    return out


def variants(st, me, mini, k, pos0, posk):
    """allowed (sector, offset) pairs of the k-th piece of a transfer that starts at pos0"""
    stg = ('a', me, 'storage')
    F = ('a', stg, 'sector_size')
    M = ('a', stg, 'mini_stream_sector_size')
    S = M if mini else F
    chain = ('a', me, 'fat_chain')
    idx = {norm(('bin', '+', ('bin', '//', pos0, S), c(k))), fdiv(posk, S)}
    off = {fmod(pos0, S)} if k == 0 else {c(0), fmod(posk, S)}
    out = []
    for i in idx:
        for o in off:
            s = ('i', chain, i)
            if mini:
                msp = ('bin', '+', ('bin', '*', s, M), o)
                sid = ('i', ('a', stg, 'mini_stream_chain'), ('bin', '//', msp, F))
                out.append((norm(sid), fmod(msp, F), norm(o), norm(S)))
            else:
                out.append((norm(s), norm(o), norm(o), norm(S)))
    return out, F


def writes(cx):
    f = cx.prog.func('cfb.Stream.write')
    me = ('p', f.params[0])
    pos0 = ('a', me, 'pos')
    n = 0
    for p in cx.paths(f, assume=True, unroll=UNROLL, inline=INL):
        if p.raised:
            continue
        its = iterations(p, lambda e: e.kind == 'call' and e.name == 'write' and e.recv is not None and ends(e.recv, 'f'))
        done = []
        posk = pos0
        base = None
        for k, i, e in its:
            mini = path_mini(cx, p, i, me)
            sk = [j for j in range(i) if p.ev[j].kind == 'call' and p.ev[j].name == 'seek' and p.ev[j].recv == e.recv]
            con = 'Stream.write %s piece %d' % ({True: 'mini', False: 'regular', None: 'any'}[mini], k)
            if mini is None:
                cx.unk('C11.write', con, 'stream kind not decided on the path')
                continue
            if not cx.check(bool(sk) and (not done or sk[-1] > done[-1]), 'C11.write', con + ' position', e.where, 'data is written without positioning the file', p):
                continue
            done.append(i)
            n += 1
            at = norm(p.ev[sk[-1]].args[0])
            var, F = variants(p, me, mini, k, pos0, posk)
            hit = [v for v in var if norm(('bin', '+', ('bin', '*', ('bin', '+', v[0], c(1)), F), v[1])) == at]
            if not hit and not known_only(at):
                cx.unk('C11.write', con, 'address %s' % show(at))
                continue
            if not cx.check(bool(hit), 'C11.write', con, e.where,
                            'bytes at stream position %s go to file offset %s' % (show(norm(posk)), show(at)), p):
                continue
            sid, soff, ioff, S = hit[0]
            # amount
            d = e.args[0]
            amt = None
            if d[0] == 'i' and d[2][0] == 'slice' and d[2][2] != NONE:
                lo = c(0) if d[2][1] == NONE else d[2][1]
                amt = norm(('bin', '-', d[2][2], lo))
                src = (norm(d[1]), norm(lo))
            room = norm(('bin', '-', S, ioff))
            if amt is None:
                if known_only(d) or d[0] in ('p', 'i'):
                    cx.bad('C11.amount', con, e.where, 'the whole remaining data %s is written at one sector' % show(d), p)
                continue
            mins = minargs(amt)
            if not known_only(amt):
                cx.unk('C11.amount', con, show(amt))
            else:
                cx.check(room in mins, 'C11.amount', con, e.where, 'writes %s bytes at offset %s of a sector of %s bytes' % (show(amt), show(ioff), show(S)), p)
            # position advances by what was written
            nxt = its[k + 1][1] if k + 1 < len(its) else len(p.ev)
            st = [x for x in p.ev[i:nxt] if x.kind == 'set' and x.a == me and x.b == 'pos']
            st0 = [x for x in p.ev[(its[k - 1][1] if k else 0):i] if x.kind == 'set' and x.a == me and x.b == 'pos']
            new = (st or st0 or [None])[-1]
            if new is None and k + 1 == len(its) and not st:
                fin = [x for x in p.ev if x.kind == 'set' and x.a == me and x.b == 'pos']
                cx.check(bool(fin), 'C11.advance', 'Stream.write', e.where, 'the stream position does not advance', p)
            elif new is not None:
                cx.check(norm(new.v) == norm(('bin', '+', posk, amt)) or not known_only(new.v), 'C11.advance', 'Stream.write', new.where,
                         'position becomes %s after writing %s bytes' % (show(norm(new.v)), show(amt)), p)
                posk = new.v
            # data advances
            if base is not None:
                want = {(norm(('i', base[0], ('slice', norm(('bin', '+', base[1], base[2])), NONE, NONE))), c(0)),
                        (base[0], norm(('bin', '+', base[1], base[2])))}
                if base[1] == c(0):
                    want.add((norm(('i', base[0], ('slice', base[2], NONE, NONE))), c(0)))
                cx.check(src in want or not known_only(d), 'C11.data', 'Stream.write', e.where,
                         'piece %d does not continue where the previous one ended' % k, p)
            base = (src[0], src[1], amt)
            # cache
            cleared(cx, p, i, sid, sk[-1], 'Stream.write', e, its[k - 1][1] if k else 0, nxt)
    cx.need('stream write pieces', n, 4)


def minargs(t):
    """terms that bound t from above through min()"""
    t = norm(t)
    if t[0] == 'call' and t[1] == ('b', 'min'):
        out = set()
        for x in t[2]:
            out |= minargs(x)
        return out | {t}
    return {t}


def cleared(cx, p, i, sid, start, con, e, lo, hi):
    """the cached copy of sector sid is dropped in the same step as the write"""
    cd = conds(p, hi)
    ok = False
    for x in p.ev[lo:hi]:
        if x.kind == 'delitem' and ends(x.a, 'sector_cache') and norm(x.b) == norm(sid):
            ok = True
        if x.kind == 'call' and ends(x.recv or NONE, 'sector_cache') and (x.name == 'clear' or x.name == 'pop' and x.args and norm(x.args[0]) == norm(sid)):
            ok = True
        if x.kind == 'setitem' and ends(x.a, 'sector_cache') and norm(x.b) == norm(sid):
            ok = True
        if x.kind == 'assume' and x.b is False and x.a[0] == 'cmp' and x.a[1] == 'in' and norm(x.a[2]) == norm(sid) and ends(x.a[3], 'sector_cache'):
            ok = True
        if x.kind == 'set' and x.b == 'sector_cache':
            ok = True
    cx.check(ok, 'C08.invalidate', con, e.where, 'sector %s is written while a cached copy of it stays' % show(norm(sid)), p)


def reads(cx):
    f = cx.prog.func('cfb.Stream.read')
    me = ('p', f.params[0])
    pos0 = ('a', me, 'pos')
    size = ('a', ('a', me, 'dir'), 'byte_size')
    n = 0
    cap = f.params[1] if len(f.params) > 1 else None
    seen = set()
    for p in cx.paths(f, assume=True, unroll=UNROLL, inline=INL):
        if p.raised:
            continue
        its = iterations(p, lambda e: e.kind == 'setitem' and e.b[0] == 'slice' and e.v[0] == 'i' and e.v[2][0] == 'slice')
        posk = pos0
        prev = None
        for k, i, e in its:
            D = e.v[1]
            mini = path_mini(cx, p, i, me)
            con = 'Stream.read %s piece %d' % ({True: 'mini', False: 'regular', None: 'any'}[mini], k)
            if mini is None:
                cx.unk('C11.read', con, 'stream kind not decided on the path')
                continue
            if D == NONE:
                break        # the walker's "no sector fetched yet" path: the test it takes cannot hold
            if not (D[0] == 'call' and D[1][0] == 'a' and D[1][2] == 'read_sector_data'):
                cx.unk('C11.read', con, 'source %s' % show(D))
                continue
            n += 1
            cd = conds(p, i)
            got = norm(D[2][0])
            lo = c(0) if e.v[2][1] == NONE else norm(e.v[2][1])
            hi = norm(e.v[2][2])
            var, F = variants(p, me, mini, k, pos0, posk)
            hit = [v for v in var if v[1] == lo and (v[0] == got or same(cx, cd, v[0], got))]
            if not hit and not (known_only(got) and known_only(lo)):
                cx.unk('C11.read', con, 'address %s %s' % (show(got), show(lo)))
                continue
            if not cx.check(bool(hit), 'C11.read', con, e.where,
                            'stream position %s is read from sector %s offset %s' % (show(norm(posk)), show(got), show(lo)), p):
                break
            sid, soff, ioff, S = hit[0]
            amt = norm(('bin', '-', hi, lo))
            room = norm(('bin', '-', S, ioff))
            if known_only(amt):
                cx.check(room in minargs(amt), 'C11.amount', con, e.where, 'reads %s bytes at offset %s of a sector of %s bytes' % (show(amt), show(ioff), show(S)), p)
            dlo = c(0) if e.b[1] == NONE else norm(e.b[1])
            if e.b[2] != NONE:
                cx.check(norm(('bin', '-', e.b[2], dlo)) == amt or not known_only(e.b[2]), 'C11.amount', con + ' destination', e.where,
                         '%s bytes are put in a space of %s' % (show(amt), show(norm(('bin', '-', e.b[2], dlo)))), p)
            dst = (norm(e.a), dlo)
            if prev is not None:
                want = {(norm(('i', prev[0], ('slice', norm(('bin', '+', prev[1], prev[2])), NONE, NONE))), c(0)),
                        (prev[0], norm(('bin', '+', prev[1], prev[2])))}
                cx.check(dst in want or not known_only(dst[0]) or not known_only(dlo), 'C11.data', 'Stream.read', e.where,
                         'piece %d is not put behind the previous one' % k, p)
            prev = (dst[0], dst[1], amt)
            nxt = its[k + 1][1] if k + 1 < len(its) else len(p.ev)
            st = [x for x in p.ev[(its[k - 1][1] if k else 0):nxt] if x.kind == 'set' and x.a == me and x.b == 'pos']
            if st:
                cx.check(norm(st[-1].v) == norm(('bin', '+', posk, amt)) or not known_only(st[-1].v) or len(its) > k + 1, 'C11.advance', 'Stream.read', st[-1].where,
                         'position becomes %s after reading %s bytes' % (show(norm(st[-1].v)), show(amt)), p)
                posk = st[-1].v
            elif k + 1 == len(its):
                cx.check(any(x.kind == 'set' and x.a == me and x.b == 'pos' for x in p.ev), 'C11.advance', 'Stream.read', e.where, 'the stream position does not advance', p)
        # length of the result
        r = strip_bytes(p.ret)
        ln = None
        if r[0] == 'call' and r[1] == ('b', 'bytearray') and len(r[2]) == 1:
            ln = norm(r[2][0])
        elif p.ret[0] == 'call' and p.ret[1] == ('b', 'bytearray') and len(p.ret[2]) == 1:
            ln = norm(p.ret[2][0])
        if ln is not None and cap and known_only(ln):
            left = norm(('bin', '-', size, pos0))
            ok = bounded(ln, left)
            cx.check(ok, 'C11.bounds', 'Stream.read length', f.where, 'reads %s bytes with %s left' % (show(ln), show(left)), p)
            allq = query(cx, conds(p), cmp_('==', ('p', cap), c(-1)))
            if allq is False:
                cx.check(contains(ln, lambda s: s == ('p', cap)), 'C11.bounds', 'Stream.read count', f.where, 'reads %s bytes whatever was asked for' % show(ln), p)
    if not n:
        cx.unk('C11.read', 'Stream.read', 'no sector copy recognised')


def bounded(t, left):
    """t <= max(0, left)"""
    t = norm(t)
    if t == left or t == c(0):
        return True
    if t[0] == 'call' and t[1] == ('b', 'max'):
        return all(bounded(x, left) for x in t[2])
    if t[0] == 'call' and t[1] == ('b', 'min'):
        return any(bounded(x, left) for x in t[2])
    return False


def same(cx, cd, a, b):
    for t, v in cd.items():
        if v and t[0] == 'cmp' and t[1] == '==' and {norm(t[2]), norm(t[3])} == {a, b}:
            return True
    return False


def thresholds(cx):
    """every test of a size against the mini stream limit is strict"""
    n = 0
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Compare):
                continue
            seq = [x.left] + x.comparators
            for l, op, r in zip(seq, x.ops, seq[1:]):
                lm = isinstance(l, ast.Attribute) and l.attr == 'min_stream_max_size'
                rm = isinstance(r, ast.Attribute) and r.attr == 'min_stream_max_size'
                if lm == rm:
                    continue
                n += 1
                good = (ast.Lt, ast.GtE) if rm else (ast.Gt, ast.LtE)
                wrong = (ast.LtE, ast.Gt, ast.Eq, ast.NotEq) if rm else (ast.Lt, ast.GtE, ast.Eq, ast.NotEq)
                if isinstance(op, wrong):
                    other = ast.unparse(l if rm else r)
                    if 'header' in f.name or not ('size' in other):
                        continue
                    cx.bad('C11.limit', '%s (%s)' % (f.qual, ast.unparse(x)), '%s:%d' % (f.module.rel, x.lineno),
                           'a stream is a mini stream exactly when it is smaller than the limit')
                elif isinstance(op, good):
                    cx.ok('C11.limit', '%s:%d' % (f.qual, x.lineno))
    cx.need('comparisons with the mini stream limit', n, 3)


def allocation(cx):
    """sectors for n bytes, taken from the table of the new size"""
    f = cx.prog.func('cfb.Stream.allocate')
    me = ('p', f.params[0])
    new = ('p', f.params[1])
    stg = ('a', me, 'storage')
    F, M = ('a', stg, 'sector_size'), ('a', stg, 'mini_stream_sector_size')
    n = 0
    for p in cx.paths(f, assume=True, inline=INL):
        if p.raised or torn(p, 'type', 'min_stream_max_size'):
            continue
        sets = [i for i, e in enumerate(p.ev) if e.kind == 'set' and e.b == 'byte_size' and e.a == ('a', me, 'dir')]
        cx.check(bool(sets) and p.ev[sets[-1]].v == new, 'C11.size', 'Stream.allocate size', f.where, 'the stream size is not recorded in its directory entry', p)
        cd = conds(p)
        small = None
        for t, v in cd.items():
            if t[0] == 'cmp' and t[1] in ('<', '>=') and t[2] == new and ends(t[3], 'min_stream_max_size'):
                small = v == (t[1] == '<')
        root = query(cx, cd, cmp_('==', ('a', ('a', me, 'dir'), 'type'), c('root storage')))
        if root is True:
            small = False
        if root is None and small is True:
            small = None
        # growing: what was regular before stays regular
        was = [e.b == (small_term(e.a) or (e.b,))[0] for e in p.ev[:sets[0]] if e.kind == 'assume' and small_term(e.a)
               and small_term(e.a)[1] == ('a', me, 'dir')] if sets else []
        if was and was[0] is False:
            if small:
                continue
            small = False
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.name == 'fat_chain_append':
                n += 1
                a = e.arg(1, 'minifat', FALSE)
                flag = a if a in (TRUE, FALSE) else None
                if flag is None:
                    q = query(cx, cd, a)
                    if q is not None:
                        flag = c(q)
                if small is not None and flag is not None:
                    cx.check((flag == TRUE) == small, 'C11.alloc-table', 'Stream.allocate table', e.where,
                             'a stream that is now %s grows in the %s' % ('mini' if small else 'regular', 'mini FAT' if flag == TRUE else 'FAT'), p)
                # asked for: chain shorter than the sector count
                for t, v in conds(p, i).items():
                    if t[0] == 'cmp' and any(contains(o, lambda s: s[0] == 'call' and s[1] == ('b', 'len') and ends(s[2][0], 'fat_chain')) or o == c(0) for o in t[2:4]):
                        other = [o for o in t[2:4] if contains(o, lambda s: s == new)]
                        if not other:
                            continue
                        cnt = norm(other[0])
                        S = count_unit(cnt, new)
                        if S is None:
                            cx.unk('C11.count', 'Stream.allocate', show(cnt))
                            continue
                        unit, good = S
                        cx.check(good, 'C11.count', 'Stream.allocate', e.where, '%s bytes are given %s sectors' % (show(new), show(cnt)), p)
                        if small is not None and unit in (F, M):
                            cx.check((unit == M) == small, 'C11.count', 'Stream.allocate unit', e.where, 'a %s stream is counted in sectors of %s' % ('mini' if small else 'regular', show(unit)), p)
    cx.need('stream growth sites', n, 1)
    # rounding in truncate
    f = cx.prog.func('cfb.Stream.truncate')
    me = ('p', f.params[0])
    sz = ('p', f.params[1])
    for p in cx.paths(f, assume=True, inline=INL):
        if p.raised and exc_name(p) != 'AssertionError':
            continue
        cd = conds(p)
        size = ('a', me, 'pos') if query(cx, cd, cmp_('is', sz, NONE)) else sz
        grow = query(cx, cd, cmp_('<', ('a', ('a', me, 'dir'), 'byte_size'), size))
        fin = [e for e in p.ev if e.kind == 'set' and e.b == 'byte_size' and e.a == ('a', me, 'dir')]
        calls_ = [e for e in p.ev if e.kind == 'call' and e.recv == me and e.name in ('allocate', 'write', 'truncate')]
        lastset = max([i for i, e in enumerate(p.ev) if e in fin] or [-1])
        lastcall = max([i for i, e in enumerate(p.ev) if e in calls_] or [-1])
        if lastcall > lastset:
            e = p.ev[lastcall]
            if e.name == 'allocate':
                cx.check(e.args and e.args[0] == size, 'C11.size', 'Stream.truncate growth', e.where, 'grows to %s' % show(e.args[0]), p)
            elif e.name == 'write' and lastset >= 0:
                d = e.args[0]
                cx.check(p.ev[lastset].v == c(0), 'C11.size', 'Stream.truncate move', e.where, 'the moved stream keeps size %s' % show(p.ev[lastset].v), p)
                if d[0] == 'call' and d[1] == ('a', me, 'read'):
                    cx.check(d[2] and d[2][0] == size, 'C11.size', 'Stream.truncate move', e.where, 'keeps %s bytes' % show(d[2][0] if d[2] else NONE), p)
        elif lastset >= 0:
            v = p.ev[lastset].v
            zero = query(cx, cd, cmp_('==', size, c(0)))
            cx.check(v == size or v == c(0) and zero is True, 'C11.size', 'Stream.truncate size', p.ev[lastset].where, 'the size becomes %s' % show(v), p)
        else:
            cx.bad('C11.size', 'Stream.truncate size', f.where, 'the size is not changed', p)
        for e in p.ev:
            if e.kind == 'call' and e.name == 'free_fat_chain' and e.args and e.args[0][0] == 'i' and ends(e.args[0][1], 'fat_chain'):
                k = norm(e.args[0][2])
                S = count_unit(k, size)
                if S is None:
                    cx.unk('C11.count', 'Stream.truncate', show(k))
                    continue
                cx.check(S[1], 'C11.count', 'Stream.truncate', e.where, '%s bytes keep %s sectors' % (show(size), show(k)), p)
                mini = path_mini(cx, p, p.ev.index(e), me)
                F = ('a', ('a', me, 'storage'), 'sector_size')
                M = ('a', ('a', me, 'storage'), 'mini_stream_sector_size')
                if mini is not None and S[0] in (F, M):
                    cx.check((S[0] == M) == mini, 'C11.count', 'Stream.truncate unit', e.where, 'sectors of %s are counted for a %s stream' % (show(S[0]), 'mini' if mini else 'regular'), p)


def count_unit(t, size):
    """(unit, is ceil(size/unit)) of a sector count, None when the shape is unknown"""
    t = norm(t)
    if t[0] == 'floordiv':
        num, S = t[1], t[2]
        want = norm(('bin', '+', size, ('bin', '-', S, c(1))))
        d = norm(('bin', '-', num, size))
        if not known_only(d):
            return None
        return S, num == want
    from ..terms import poly
    d = poly(t)
    # -(-size // S)  and  q + (1 if r else 0)
    if len(d) == 1:
        (m, co), = d.items()
        if co == -1 and len(m) == 1 and m[0][0] == 'floordiv':
            return m[0][2], norm(('un', '-', size)) == m[0][1]
    if len(d) == 2 and d.get((), None) is not None:
        for m in d:
            if len(m) == 1 and m[0][0] == 'floordiv' and d[m] == 1:
                num, S = m[0][1], m[0][2]
                k = d[()]
                # (size - 1)//S + 1
                return S, (k == 1 and num == norm(('bin', '-', size, c(1)))) or (k == 0)
    return None


def seeks(cx):
    f = cx.prog.func('cfb.Stream.seek')
    me = ('p', f.params[0])
    off, wh = ('p', f.params[1]), ('p', f.params[2])
    n = 0
    for p in cx.paths(f, assume=True, inline=INL):
        cd = conds(p)
        which = None
        for t, v in cd.items():
            if t[0] == 'cmp' and t[1] == '==' and wh in (t[2], t[3]):
                o = t[3] if t[2] == wh else t[2]
                if v:
                    which = {'io.SEEK_CUR': 'cur', 'io.SEEK_END': 'end', 'io.SEEK_SET': 'set', 'os.SEEK_CUR': 'cur', 'os.SEEK_END': 'end'}.get(show(o)) or \
                        {0: 'set', 1: 'cur', 2: 'end'}.get(int_of(o) if is_c(o) else None)
        base = {'cur': ('a', me, 'pos'), 'end': ('a', ('a', me, 'dir'), 'byte_size'), 'set': c(0), None: c(0)}[which]
        want = norm(('bin', '+', base, off))
        if p.raised:
            continue
        st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'pos']
        n += 1
        cx.check(bool(st) and norm(st[-1].v) == want, 'C11.seek', 'Stream.seek %s' % (which or 'set'), f.where,
                 'position becomes %s instead of %s' % (show(norm(st[-1].v)) if st else 'nothing', show(want)), p)
        neg = query(cx, cd, cmp_('<', want, c(0)))
        if neg is None:
            neg = next((v for t, v in cd.items() if t[0] == 'cmp' and t[1] == '<' and norm(t[2]) == want and t[3] == c(0)), None)
        cx.check(neg is False, 'C11.seek', 'Stream.seek negative', f.where, 'a position before the start is accepted', p)
    cx.need('seek paths', n, 2)


def dir_addresses(cx):
    """record n is bytes n*128.. of the directory chain, whoever reads or writes it"""
    n = 0
    for q in ('write_modified_dir_entries', 'write_dir_entries', 'read_dir_entry', 'dir_entry_pos'):
        f = cx.prog.func('cfb.CompoundFileBinary.' + q)
        me = ('p', f.params[0])
        ss = ('a', me, 'sector_size')
        chain = ('a', me, 'dir_fat_chain')
        for p in cx.paths(f, assume=True, inline=INL):
            if p.raised:
                continue
            found = []
            for e in p.ev:
                if e.kind == 'call' and e.name == 'seek' and e.args:
                    found.append((e, norm(e.args[0]), None))
                if e.kind == 'call' and e.name == 'read_sector_data':
                    found.append((e, None, norm(e.args[0])))
            if q == 'dir_entry_pos' and p.ret != NONE:
                found.append((None, norm(p.ret), None))
            for e, at, sid in found:
                where = e.where if e is not None else f.where
                off = None
                if at is not None:
                    so = sector_of(at, ss)
                    if so is None:
                        if known_dir(at):
                            cx.bad('C11.record', q, where, 'record address %s is not in a sector of the directory' % show(at), p)
                        else:
                            cx.unk('C11.record', q, show(at))
                        continue
                    sid, off = so
                if not (sid[0] == 'i' and sid[1] == chain):
                    if contains(sid, lambda s: s == chain):
                        cx.bad('C11.record', q, where, 'record address %s' % show(at or sid), p)
                    continue
                n += 1
                idx = norm(sid[2])
                if idx[0] != 'floordiv':
                    cx.unk('C11.record', q, show(idx))
                    continue
                num = idx[1]
                rec = record_no(num)
                cx.check(rec is not None and norm(idx[2]) == norm(ss), 'C11.record', q, where, 'records are 128 bytes: %s' % show(idx), p)
                if off is not None:
                    cx.check(off == norm(('mod', num, ss)), 'C11.record', q + ' offset', where, 'record sector %s, offset %s' % (show(idx), show(off)), p)
            if q == 'read_dir_entry':
                for e in p.ev:
                    if e.kind == 'new' and e.name == 'DirEntry':
                        d = e.arg(2, 'data')
                        i = e.arg(1, 'dir_id')
                        cx.check(i == ('p', f.params[1]), 'C11.record', q + ' number', e.where, 'the entry gets number %s' % show(i or NONE), p)
                        if d is not None:
                            s = strip_bytes(d)
                            if s[0] == 'i' and s[2][0] == 'slice':
                                lo, hi = slice_bounds(s[2])
                                w = norm(('mod', norm(('bin', '*', i, c(128))), ss))
                                cx.check(norm(lo) == w and norm(('bin', '-', hi, lo)) == c(128), 'C11.record', q + ' bytes', e.where,
                                         'the entry is read from bytes %s to %s of its sector' % (show(lo), show(hi)), p)
                                copy = d[0] == 'call' and d[1] in (('b', 'bytearray'),) or s[1][0] != 'call' or s[1][1] != ('b', 'memoryview')
                                cx.check(copy, 'C08.alias', q, e.where, 'the entry shares its bytes with the cached sector', p)
    cx.need('directory record addresses', n, 3)


def known_dir(t):
    return contains(t, lambda s: s[0] == 'a' and s[2] == 'dir_fat_chain') or known_only(t) and contains(t, lambda s: s == c(128))


def record_no(num):
    from ..terms import poly
    d = poly(num)
    if all(co % 128 == 0 for co in d.values()):
        if sum(abs(co) for co in d.values()) == 128:
            return True
    return None


def C11(cx):
    writes(cx)
    reads(cx)
    thresholds(cx)
    allocation(cx)
    seeks(cx)
    dir_addresses(cx)


# -- C08 -------------------------------------------------------------------------------------

META = ('write_header', 'write_fat', 'write_difat', 'write_minifat')


def callers(cx):
    """name -> set of function quals that mention it as a call in cfb"""
    out = {}
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
                out.setdefault(n, set()).add(f)
    return out


def known_users(cx, cl, g):
    """names of the functions that use g, helpers not known by name replaced by their users"""
    out, todo, seen = set(), [u for u in cl.get(g.name, ()) if u is not g], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.qual not in cx.known and cl.get(u.name):
            todo += [v for v in cl.get(u.name) if v is not u]
        else:
            out.add(u.name)
    return out


def C08(cx):
    writes(cx)
    dir_addresses(cx)
    keep = ('C08.',)
    cx.findings = [x for x in cx.findings if x.rule.startswith(keep)]
    cx.done = [x for x in cx.done if x[0].startswith(keep)]
    cx.undecided = [x for x in cx.undecided if x[0].startswith(keep)]
    n = 0
    f = cx.prog.func('cfb.CompoundFileBinary.write_modified_dir_entries')
    for p in cx.paths(f, assume=True, inline=INL):
        if p.raised:
            continue
        me = ('p', f.params[0])
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.name == 'write' and e.recv is not None and ends(e.recv, 'f'):
                sk = [x for x in p.ev[:i] if x.kind == 'call' and x.name == 'seek']
                if not sk:
                    continue
                so = sector_of(norm(sk[-1].args[0]), ('a', me, 'sector_size'))
                if so is None:
                    continue
                n += 1
                cleared(cx, p, i, so[0], i, f.name, e, 0, len(p.ev))
    cx.need('directory record writes', n, 1)
    # any other writer of sectors that can be cached runs only when nothing reads afterwards
    cl = callers(cx)
    fin = ('close', 'write_dir_entries') + META
    for g in cx.prog.funcs:
        if g.module.name != 'cfb' or g.name in META or g.qual in ('cfb.Stream.write', f.qual):
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'write' for x in ast.walk(g.node)):
            continue
        for p in cx.paths(g):
            for i, e in enumerate(p.ev):
                if e.kind == 'call' and e.name == 'write' and e.recv is not None and ends(e.recv, 'f'):
                    users = known_users(cx, cl, g)
                    if g.cls is not None and g.cls.name == 'DirEntry':
                        users = set()
                        for u in cl.get('write', ()):
                            for x in ast.walk(u.node):
                                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'write' and \
                                        isinstance(x.func.value, ast.Attribute) and x.func.value.attr in ('root', 'dir'):
                                    users.add(u.name)
                    late = users <= set(fin) | {'__init__', 'setup_empty'}
                    if g.name in ('close', '__init__', 'setup_empty') or late:
                        cx.ok('C08.writers', g.qual)
                        continue
                    inv = any(x.kind == 'delitem' and ends(x.a, 'sector_cache') or x.kind == 'call' and x.recv is not None and ends(x.recv, 'sector_cache') and x.name in ('pop', 'clear')
                              for x in p.ev) or any(x.kind == 'assume' and x.a[0] == 'cmp' and ends(x.a[3], 'sector_cache') for x in p.ev)
                    cx.check(inv, 'C08.writers', g.qual, e.where, 'writes sectors of the file without dropping cached copies', p)
    # what is cached under a number is what was read for that number
    f = cx.prog.func('cfb.CompoundFileBinary.read_sector_data')
    me = ('p', f.params[0])
    sid = ('p', f.params[1])
    m = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        sets = [e for e in p.ev if e.kind == 'setitem' and ends(e.a, 'sector_cache')]
        sk = [e for e in p.ev if e.kind == 'call' and e.name == 'seek']
        for e in sets:
            m += 1
            cx.check(e.b == sid, 'C08.key', 'read_sector_data', e.where, 'sector %s is remembered under %s' % (show(sid), show(e.b)), p)
            cx.check(e.v == p.ret, 'C08.key', 'read_sector_data value', e.where, 'what is remembered is not what is returned', p)
        for e in sk:
            so = sector_of(norm(e.args[0]), ('a', me, 'sector_size'))
            if so is not None:
                cx.check(so == (sid, c(0)), 'C08.key', 'read_sector_data address', e.where, 'sector %s is read at %s' % (show(sid), show(norm(e.args[0]))), p)
            elif known_only(e.args[0]):
                cx.bad('C08.key', 'read_sector_data address', e.where, 'sector %s is read at %s' % (show(sid), show(norm(e.args[0]))), p)
        if not sk:
            r = p.ret
            hit = contains(r, lambda s: s[0] == 'a' and s[2] == 'sector_cache') and contains(r, lambda s: s == sid)
            cx.check(hit, 'C08.key', 'read_sector_data hit', f.where, 'returns %s without reading the sector' % show(r), p)
    lru(cx)


def lru(cx):
    """the bounded dict: a value found under a key is the last one stored under it"""
    k = cx.prog.cls('LRUCacheDict', 'cache')
    f = k.method('__setitem__')
    me, key, val = [('p', x) for x in f.params[:3]]
    data = ('a', me, 'data')
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        n += 1
        cd = conds(p)
        old = query(cx, cd, cmp_('in', key, data))
        vs = [e for e in p.ev if e.kind == 'set' and e.b == 'value']
        cx.check(bool(vs) and vs[-1].v == val, 'C08.cache', '__setitem__ value', f.where, 'the new value is not stored', p)
        if old is False and vs:
            node = vs[-1].a
            st = [e for e in p.ev if e.kind == 'setitem' and e.a == data]
            cx.check(any(e.b == key and e.v == node for e in st), 'C08.cache', '__setitem__ index', f.where, 'the new key does not lead to its value', p)
            cx.check(any(e.kind == 'set' and e.a == node and e.b == 'key' and e.v == key for e in p.ev), 'C08.cache', '__setitem__ key', f.where, 'the reused node keeps its old key', p)
            emp = [v for t, v in cd.items() if t == ('a', node, 'empty')]
            dl = [e for e in p.ev if e.kind == 'delitem' and e.a == data or e.kind == 'call' and e.recv == data and e.name == 'pop']
            if not (emp and emp[0] is True):
                cx.check(bool(dl), 'C08.cache', '__setitem__ evict', f.where, 'the evicted key still leads to the reused node', p)
            for e in dl:
                kk = e.b if e.kind == 'delitem' else e.args[0]
                cx.check(kk != key, 'C08.cache', '__setitem__ evict', e.where, 'the wrong key is evicted', p)
                ks = [x for x in p.ev[:p.ev.index(e)] if x.kind == 'set' and x.a == node and x.b == 'key']
                cx.check(not ks, 'C08.cache', '__setitem__ evict', e.where, 'the key is replaced before the old one is dropped', p)
        elif old is True and vs:
            cx.check(vs[-1].a == ('i', data, key) or not known_only(vs[-1].a), 'C08.cache', '__setitem__ replace', vs[-1].where, 'another key gets the value', p)
    f = k.method('__delitem__')
    for p in cx.paths(f):
        if p.raised:
            continue
        key = ('p', f.params[1])
        gone = any(e.kind == 'delitem' and e.a == data and e.b == key for e in p.ev) or any(e.kind == 'call' and e.name == 'pop' and e.recv == data and e.args and e.args[0] == key for e in p.ev)
        cx.check(gone, 'C08.cache', '__delitem__', f.where, 'the key still leads to its value', p)
    f = k.method('get')
    for p in cx.paths(f, assume=True):
        if p.raised or p.ret == ('p', f.params[-1]):
            continue
        key = ('p', f.params[1])
        cx.check(contains(p.ret, lambda s: s == key) and contains(p.ret, lambda s: s == data), 'C08.cache', 'get', f.where, 'returns %s' % show(p.ret), p)
    cx.need('cache store paths', n, 2)
