"""C07 sector and record allocation; C10 storage is released when its owner goes."""
import ast
from .util import *
from .layout import *

FREE, END, FATS, DIFS = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
PAIR = {'fat': 'fat_freelist', 'minifat': 'minifat_freelist'}
RANGELOCK = 0x7FFFFF00 // 4096 - 1
ALLOC = {'next_free_sect': 'fat', 'next_free_minifat_sect': 'minifat'}


def table_of(t):
    """'fat' / 'minifat' when the term is that table"""
    if t is not None and t[0] == 'a' and t[2] in PAIR:
        return t[2]
    return None


def freelist_of(t):
    if t is not None and t[0] == 'a' and t[2] in ('fat_freelist', 'minifat_freelist'):
        return t[2]
    return None


def popped(t):
    """freelist name when t is an element taken out of a free list"""
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('pop', 'popleft'):
        return freelist_of(t[1][1])
    return None


def is_alloc_call(t):
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ALLOC:
        return t[1][2]
    return None


def takes(cx):
    """an id handed out was taken out of the free list of the same table"""
    for name, table in ALLOC.items():
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        me = ('p', f.params[0])
        n = 0
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            r = p.ret
            con = name
            if is_alloc_call(r):
                cx.check(is_alloc_call(r) == name, 'C07.take', con, f.where, 'hands out a sector of the other table', p)
                n += 1
                continue
            pl = popped(r)
            if pl is None and r[0] == 'i' and freelist_of(r[1]):
                pl = freelist_of(r[1])
                gone = any(e.kind == 'delitem' and e.a == r[1] and e.b == r[2] for e in p.ev) or \
                    any(e.kind == 'call' and e.name in ('remove', 'pop') and e.recv == r[1] for e in p.ev)
                cx.check(gone, 'C07.take', con, f.where, 'the sector handed out stays in the free list', p)
            if pl is None:
                # fresh sector past the end of the table
                cx.unk('C07.take', con, 'result %s not recognised' % show(r))
                continue
            n += 1
            cx.check(pl == PAIR[table], 'C07.take', con, f.where, 'hands out a sector from %s' % pl, p)
            if table == 'fat':
                cd = conds(p)
                lock = query(cx, cd, cmp_('==', r, c(RANGELOCK)))
                big = query(cx, cd, cmp_('==', ('a', me, 'sector_size'), c(4096)))
                lk = [t for t, v in cd.items() if t[0] == 'cmp' and r in (t[2], t[3])]
                known = lock is False or big is False or lock_excluded(cd, r, me)
                cx.check(known, 'C07.range-lock', con, f.where,
                         'the range lock sector of a 4096 byte sector file can be handed out', p)
            # every other id popped on the way must be marked used
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for e in p.ev:
                if e.kind == 'call' and popped(e.v) and e.v != p.ret:
                    mk = any(x.kind == 'setitem' and table_of(x.a) == table and x.b == e.v and norm(x.v) != c(FREE) for x in p.ev)
                    cx.check(mk, 'C07.take', name + ' discarded id', e.where, 'a sector is taken from the free list and then lost without being marked in the table', p)
        cx.need(name + ' results', n, 1)


def lock_excluded(cd, r, me):
    """the disjunction `not (r == lock and size == 4096)` in other spellings"""
    for t, v in cd.items():
        if v is False and contains(t, lambda s: s == r) and contains(t, lambda s: int_of_safe(s) == RANGELOCK):
            return True
    return False


def int_of_safe(t):
    try:
        return int_of(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else None
    except Exception:
        return None


def filtered(t, k, cd):
    """what is listed free (t) leaves out sector k"""
    def mem(s):
        return norm(s) == k or isinstance(s, tuple) and s and s[0] in ('list', 'set', 'tuple') and any(norm(y) == k for y in s[1])

    comps = [s for s in subterms(t) if s[0] == 'comp']
    for s in comps:
        for ct, pol in s[4]:
            if ct[0] == 'cmp' and any(contains(o, mem) for o in ct[2:4] if not contains(o, lambda x: x[0] in ('elem', 'idx', 'nth'))):
                return True
    src = [x for s in comps for x in s[3]] + [strip_iter(t)]
    for x in src:
        if x[0] == 'call' and x[1] == ('b', 'range') and len(x[2]) >= 2 and norm(x[2][0]) == norm(('bin', '+', k, c(1))):
            return True
    el = strip_iter(t)
    for ct, v in cd.items():
        if ct[0] == 'cmp' and contains(ct[3], mem) and contains(ct[2], lambda s: s == t or strip_iter(s) == el):
            return True
    return False


def growth(cx):
    """a grown table: every new id is either free and listed free, or marked"""
    for name, table in ALLOC.items():
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        me = ('p', f.params[0])
        T = ('a', me, table)
        L = ('a', me, PAIR[table])
        ng = listed = 0
        resv = False
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            ext = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.name in ('extend', 'append') and e.recv == T]
            if not ext:
                continue
            ng += 1
            fr = [e for e in p.ev if e.kind == 'call' and e.recv == L and e.name in ('extend', 'append', 'insert')]
            con = '%s growth' % name
            fr += [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == PAIR[table]]
            if fr or not any(e.kind == 'iter' for e in p.ev[ext[0]:]):
                listed += bool(fr)
                cx.check(bool(fr), 'C07.grow', con, p.ev[ext[0]].where, 'the new entries are never listed free', p)
            for e in p.ev[ext[0]:ext[0] + 1]:
                fill = e.args[0] if e.args else NONE
                v = [s for s in subterms(fill) if is_c(s) and isinstance(cval(s), int) and cval(s) > 0xFFFFFFF0]
                if v:
                    cx.check(c(FREE) in v, 'C07.grow', con + ' fill', e.where, 'new entries are initialised to %s, not to free' % show(v[0]), p)
            if not fr:
                # the listing loop had nothing to list on this path
                if any(e.kind == 'iter' and any(x.kind == 'loopexit' and x.line == e.line for x in p.ev) and
                       not any(x.kind == 'loop' and x.a == e.a for x in p.ev) for e in p.ev[ext[0]:]):
                    continue
            cd = conds(p)
            marks = [e for e in p.ev if e.kind == 'setitem' and e.a == T and norm(e.v) != c(FREE)]
            exclusions = set()
            for e in p.ev:
                if e.kind == 'call' and e.name in ('add', 'append', 'update', 'discard', 'remove') and e.args and e.recv != L and e.recv != T:
                    exclusions.add(norm(e.args[0]))
                if e.kind == 'call' and e.name == 'remove' and e.recv == L:
                    exclusions.add(norm(e.args[0]))
            for m in marks:
                k = norm(m.b)
                if popped(m.b) or is_alloc_call(m.b) or (m.b[0] == 'i' and m.b[1][0] == 'a' and 'chain' in m.b[1][2]):
                    continue
                inside = any(filtered(e.args[-1] if e.args else e.v, k, cd) for e in fr)
                cx.check(inside or k in exclusions, 'C07.grow', con + ' reserved ids', m.where,
                         'sector %s is put to use but also listed free' % show(m.b), p)
                if int_of(k) == RANGELOCK:
                    resv = True
                    cx.check(norm(m.v) == c(END), 'C07.range-lock', con, m.where, 'the range lock sector is marked %s' % show(m.v), p)
            if table == 'fat' and not any(int_of(norm(m.b)) == RANGELOCK for m in marks):
                cd = conds(p)
                ok = any(contains(t, lambda s: int_of_safe(s) == RANGELOCK) for t in cd) or \
                    any(not v and contains(t, lambda s: s == c(4096)) for t, v in cd.items()) or \
                    any(contains(e.args[-1] if e.args else e.v, lambda s: int_of_safe(s) == RANGELOCK) for e in fr)
                cx.check(ok, 'C07.range-lock', con, p.ev[ext[0]].where, 'the table grows over the range lock sector without reserving it', p)
        cx.need(name + ' growth paths', ng, 1)
        cx.check(listed > 0, 'C07.grow', '%s growth' % name, f.where, 'the new entries are never listed free')
        if table == 'fat':
            cx.check(resv, 'C07.range-lock', 'growth reserves the range lock', f.where, 'no path reserves the range lock sector')


def uses(cx):
    """an allocated sector is terminated and linked in the table it came from"""
    k = cx.prog.cls('CompoundFileBinary', 'cfb')
    n = 0
    for f in sorted(k.all_funcs(), key=lambda x: x.qual):
        if not any(isinstance(x, ast.Attribute) and x.attr in ('next_free_sect', 'next_free_minifat_sect', 'fat_chain_append') for x in ast.walk(f.node)):
            continue
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for i, e in enumerate(p.ev):
                if e.kind != 'call' or e.name not in ('next_free_sect', 'next_free_minifat_sect', 'fat_chain_append'):
                    continue
                if f.name == e.name and e.v == p.ret:
                    continue
                if e.name == 'fat_chain_append':
                    # callers must remember the new tail in the chain they grow
                    continue
                r = e.v
                table = ALLOC[e.name]
                later = p.ev[i:]
                con = '%s uses %s' % (f.qual.split('.', 1)[1], e.name)
                n += 1
                ends_ = [x for x in later if x.kind == 'setitem' and x.b == r and table_of(x.a)]
                if not cx.check(bool(ends_) or r == p.ret and f.name in ALLOC, 'C07.link', con, e.where, 'the allocated sector is never marked used in the table', p):
                    continue
                for x in ends_:
                    cx.check(table_of(x.a) == table, 'C07.link', con, x.where, 'the sector comes from the %s but is marked in the %s' % (table, table_of(x.a)), p)
                    cx.check(norm(x.v) != c(FREE), 'C07.link', con, x.where, 'the allocated sector is marked free', p)
                if ends_:
                    cx.check(any(norm(x.v) == c(END) for x in ends_), 'C07.link', con + ' end', ends_[-1].where, 'the new last sector does not end its chain', p)
                links = [x for x in later if x.kind == 'setitem' and norm(x.v) == norm(r) and table_of(x.a)]
                starts = [x for x in later if x.kind == 'set' and norm(x.v) == norm(r)]
                nostart = p.ret == r and any(v and t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE for t, v in conds(p).items())
                cx.check(bool(links or starts or nostart), 'C07.link', con + ' chain', e.where, 'nothing points to the allocated sector', p)
                for x in links:
                    cx.check(table_of(x.a) == table, 'C07.link', con + ' chain', x.where, 'the link is stored in the other table', p)
                if links and p.ret == r:
                    # last link written wins: terminator after link on the tail only
                    for x in links:
                        cx.check(norm(x.b) != norm(r), 'C07.link', con + ' chain', x.where, 'the sector is linked to itself', p)
    cx.need('sector allocation sites', n, 3)
    # flag and table agree
    f = cx.prog.func('cfb.CompoundFileBinary.fat_chain_append')
    flagged(cx, f, 'C07.table', 'fat_chain_append')
    # stream growth keeps chain list and directory start
    f = cx.prog.func('cfb.Stream.allocate')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.name == 'fat_chain_append':
                later = p.ev[i:]
                ap = any(x.kind == 'call' and x.name in ('append', 'extend') and x.args and contains(x.args[0], lambda s: s == e.v) for x in later) or \
                    any(x.kind == 'set' and x.b == 'fat_chain' and contains(x.v, lambda s: s == e.v) for x in later)
                cx.check(ap, 'C07.link', 'Stream.allocate chain', e.where, 'a sector added to the stream is missing from its chain', p)
                cd = conds(p)
                none = query(cx, cd, cmp_('is', ('a', ('a', me, 'dir'), 'sector_id'), NONE))
                if none is not False:
                    st = any(x.kind == 'set' and x.b == 'sector_id' and norm(x.v) == norm(e.v) for x in later)
                    cx.check(st or none is None and not any(t[0] == 'cmp' for t in cd), 'C07.link', 'Stream.allocate start', e.where,
                             'the first sector of a stream is not recorded in its directory entry', p)


def flagged(cx, f, rule, con):
    """the minifat flag selects table, allocator and free list together"""
    flag = ('p', 'minifat') if 'minifat' in f.params else None
    if flag is None:
        return
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        v = query(cx, conds(p), flag)
        if v is None:
            # table picked by a conditional expression is forked by the walker; nothing decided
            continue
        want = 'minifat' if v else 'fat'
        for e in p.ev:
            t = None
            if e.kind == 'setitem':
                t = table_of(e.a)
            elif e.kind == 'call' and e.name in ALLOC:
                t = ALLOC[e.name]
            elif e.kind == 'call' and e.recv is not None and freelist_of(e.recv):
                t = freelist_of(e.recv).split('_')[0]
            elif e.kind == 'call' and e.name == 'get_fat_chain':
                a = e.arg(1, 'minifat', FALSE)
                a = {TRUE: 'minifat', FALSE: 'fat', flag: want}.get(a)
                t = a
            if t is not None:
                cx.check(t == want, rule, con, e.where, 'the %s is used for a %s chain' % (t, want), p)


def frees(cx):
    f = cx.prog.func('cfb.CompoundFileBinary.free_fat_chain')
    flagged(cx, f, 'C07.free', 'free_fat_chain table')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        loops = [i for i, e in enumerate(p.ev) if e.kind == 'loop']
        fs = [e for e in p.ev if e.kind == 'setitem' and table_of(e.a)]
        ls = [e for e in p.ev if e.kind == 'call' and e.recv is not None and freelist_of(e.recv) and e.name in ('insert', 'append', 'extend', 'appendleft')]
        if loops:
            n += 1
            cx.check(bool(fs) and all(norm(e.v) == c(FREE) for e in fs), 'C07.free', 'free_fat_chain marks', f.where, 'a freed sector is not marked free in its table', p)
            cx.check(bool(ls), 'C07.free', 'free_fat_chain lists', f.where, 'a freed sector does not return to the free list', p)
            for e in fs:
                for l in ls:
                    cx.check(contains(l.args[-1], lambda s: s == e.b) or contains(e.b, lambda s: s == l.args[-1]) or strip_iter(e.b) == strip_iter(l.args[-1]),
                             'C07.free', 'free_fat_chain same sector', l.where, 'sector %s is marked free but %s is listed' % (show(e.b), show(l.args[-1])), p)
        g = calls(p, 'get_fat_chain')
        for e in g:
            cx.check(e.args and e.args[0] == ('p', f.params[1]), 'C07.free', 'free_fat_chain start', e.where, 'frees the chain of %s' % show(e.args[0]), p)
    cx.need('free_fat_chain paths', n, 1)
    # nowhere else is a table entry freed without being listed, or listed without being free
    for f in cx.prog.funcs:
        if f.module.name != 'cfb' or f.name in ('free_fat_chain', 'setup_empty', 'next_free_sect', 'next_free_minifat_sect'):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in ('fat_freelist', 'minifat_freelist', 'fat', 'minifat') for x in ast.walk(f.node)):
            continue
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for e in p.ev:
                if e.kind == 'setitem' and norm(e.v) == c(FREE) and table_of(e.a):
                    l = [x for x in p.ev if x.kind == 'call' and x.recv is not None and freelist_of(x.recv) == PAIR[table_of(e.a)]
                         and x.args and strip_iter(x.args[-1]) == strip_iter(e.b)]
                    cx.check(bool(l), 'C07.free', f.qual, e.where, 'sector %s is marked free but not listed free' % show(e.b), p)
                if e.kind == 'call' and e.recv is not None and freelist_of(e.recv) and e.name in ('insert', 'append', 'extend'):
                    tb = freelist_of(e.recv).split('_')[0]
                    x = e.args[-1]
                    isfree = any(s.kind == 'setitem' and table_of(s.a) == tb and norm(s.v) == c(FREE) and strip_iter(s.b) == strip_iter(x) for s in p.ev)
                    cd = conds(p, p.ev.index(e))
                    isfree = isfree or any(v and t[0] == 'cmp' and t[1] == '==' and int_of_safe(t[3]) == FREE and
                                           contains(t[2], lambda s: s[0] == 'a' and s[2] == tb) for t, v in cd.items())
                    isfree = isfree or contains(x, lambda s: int_of_safe(s) == FREE)
                    cx.check(isfree, 'C07.free', f.qual + ' listing', e.where, 'sector %s is listed free in %s without being free in the %s' % (show(x), freelist_of(e.recv), tb), p)


def loads(cx):
    """after opening, the free lists hold exactly the free entries"""
    for name, table in (('read_fat', 'fat'), ('read_minifat', 'minifat')):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        seen = {True: 0, False: 0}
        compr = 0
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for i, e in enumerate(p.ev):
                if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == '==' and int_of_safe(e.a[3]) == FREE and \
                        contains(e.a[2], lambda s: s[0] == 'a' and s[2] == table):
                    nxt = next((j for j in range(i + 1, len(p.ev)) if p.ev[j].kind in ('loop', 'loopexit')), len(p.ev))
                    ls = [x for x in p.ev[i:nxt] if x.kind == 'call' and x.recv is not None and freelist_of(x.recv)]
                    seen[e.b] += 1
                    if e.b:
                        cx.check(any(freelist_of(x.recv) == PAIR[table] for x in ls), 'C07.load', name, e.where,
                                 'a free entry read from the file is not listed free', p)
                        for x in ls:
                            cx.check(x.args[-1][0] in ('idx', 'nth', 'bin', 'poly'), 'C07.load', name + ' index', x.where, 'lists %s instead of the sector number' % show(x.args[-1]), p)
                    else:
                        cx.check(not ls, 'C07.load', name, e.where, 'an entry in use is listed free', p)
            if any(e.kind in ('call', 'set') and contains(e.args[-1] if e.kind == 'call' and e.args else (e.v or NONE), lambda s: s[0] == 'comp') for e in p.ev):
                compr += 1
        if not compr:
            cx.check(seen[True] > 0, 'C07.load', name + ' builds its free list', f.where, 'the free list is not rebuilt from the table')


def records(cx):
    """directory record numbers"""
    f = cx.prog.func('cfb.CompoundFileBinary.next_free_dir_id')
    me = ('p', f.params[0])
    ss = ('a', me, 'sector_size')
    per = norm(('bin', '//', ss, c(128)))
    chain = ('a', me, 'dir_fat_chain')
    for p in cx.paths(f, getitem=True):
        if p.raised:
            continue
        r = p.ret
        good = r[0] == 'call' and r[1][0] == 'a' and (r[1][2] == f.name or (r[1][2] in ('pop', 'popleft') and ends(r[1][1], 'dir_freelist')))
        if not good and r[0] == 'i' and ends(r[1], 'dir_freelist'):
            good = any(e.kind == 'delitem' and e.a == r[1] for e in p.ev)
        cx.check(good, 'C07.record', 'next_free_dir_id result', f.where, 'record number %s stays available to the next caller' % show(r), p)
        ext = [i for i, e in enumerate(p.ev) if e.kind == 'call' and ends(e.recv, 'dir_freelist') and e.name == 'extend']
        app = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.recv == chain and e.name == 'append']
        lens = [i for i, e in enumerate(p.ev) if e.kind == 'len' and e.a == chain]
        for i in ext:
            a = p.ev[i].args[0]
            if a[0] == 'call' and a[1] == ('b', 'range') and len(a[2]) == 2 and app and lens:
                lo, hi = norm(a[2][0]), norm(a[2][1])
                cx.check(norm(('bin', '-', hi, lo)) == per, 'C07.record', 'records per sector', p.ev[i].where,
                         'a directory sector holds sector_size // 128 records, %s are added' % show(norm(('bin', '-', hi, lo))), p)
                ln = ('call', ('b', 'len'), (chain,), (), 0)
                before = sum(1 for j in lens if j < app[0])
                k = 0 if before else 1
                from ..terms import poly
                alt = []
                for kk in (c(k),):
                    nsec = ('bin', '-', ln, kk)
                    alt.append(norm(('bin', '//', ('bin', '*', nsec, ss), c(128))))
                    alt.append(norm(('bin', '*', nsec, ('bin', '//', ss, c(128)))))
                cx.check(lo in alt, 'C07.record', 'first record of a new sector', p.ev[i].where,
                         'new record numbers start at %s, the new sector is number %s of the directory' % (show(lo), show(norm(('bin', '-', ln, c(k))))), p)
        for i, e in enumerate(p.ev):
            if e.kind == 'call' and e.name == 'fat_chain_append':
                cx.check(any(p.ev[j].args[0] == e.v for j in app), 'C07.record', 'new directory sector', e.where,
                         'the new directory sector is not added to the directory chain', p)
                a = e.args[0] if e.args else NONE
                cx.check(a[0] == 'i' and ends(a[1], 'dir_fat_chain') and int_of(a[2]) in (-1, 0), 'C07.record', 'directory chain tail', e.where,
                         'the directory chain is extended after %s' % show(a), p)
    f = cx.prog.func('cfb.CompoundFileBinary.free_dir_entry')
    ent = ('p', f.params[1])
    did = ('a', ent, 'dir_id')
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        cd = conds(p)
        ap = [i for i, e in enumerate(p.ev) if e.kind == 'call' and ends(e.recv, 'dir_freelist') and e.args and e.args[-1] == did]
        cx.check(len(ap) == 1, 'C07.record', 'free_dir_entry', f.where, 'the record number is listed free %d times' % len(ap), p)
        for cache in ('dir_cache', 'children_cache', 'modified'):
            gone = any(e.kind == 'delitem' and ends(e.a, cache) and e.b == did for e in p.ev) or \
                any(e.kind == 'call' and e.name == 'pop' and ends(e.recv, cache) and e.args and e.args[0] == did for e in p.ev)
            absent = any(not v and t[0] == 'cmp' and t[1] == 'in' and t[2] == did and ends(t[3], cache) for t, v in cd.items())
            cx.check(gone or absent, 'C07.record', 'free_dir_entry forgets (%s)' % cache, f.where,
                     'a freed record is still remembered in %s: the next record with its number is confused with it' % cache, p)
        last = [e for e in p.ev if e.kind == 'set' and e.a == ent and e.b == 'dir_id']
        cx.check(bool(last) and last[-1].v == NONE, 'C07.record', 'free_dir_entry detaches', f.where, 'the freed entry keeps its record number', p)


def C07(cx):
    takes(cx)
    growth(cx)
    uses(cx)
    frees(cx)
    loads(cx)
    records(cx)


# -- C10 --------------------------------------------------------------------------------

def small_term(t):
    """t compares a byte size with the mini stream limit: returns ('lt', entry) ..."""
    pol = True
    while t[0] == 'un' and t[1] == 'not':
        t, pol = t[2], not pol
    if t[0] == 'cmp':
        op, l, r = t[1], t[2], t[3]
        if ends(r, 'min_stream_max_size') and ends(l, 'byte_size'):
            if op == '<':
                return pol, l[1]
            if op == '>=':
                return not pol, l[1]
            return 'bad', l[1]
        if ends(l, 'min_stream_max_size') and ends(r, 'byte_size'):
            if op == '>':
                return pol, r[1]
            if op == '<=':
                return not pol, r[1]
            return 'bad', r[1]
    return None


def C10(cx):
    """every release names the table the stream's size puts it in, and is followed by dropping
    the owner's reference"""
    n = 0
    for f in sorted(cx.prog.funcs, key=lambda x: x.qual):
        if f.module.name != 'cfb' or f.name == 'free_fat_chain':
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in ('free_fat_chain', 'free_dir_entry') for x in ast.walk(f.node)):
            if f.qual in cx.known:
                continue
            if not any(isinstance(x, ast.Attribute) and x.attr == 'sector_id' for x in ast.walk(f.node)):
                continue
        if f.qual not in cx.known and is_helper(cx, f):
            continue
        for p in cx.paths(f, inline=('is_mini_stream',), assume=True):
            for i, e in enumerate(p.ev):
                if e.kind != 'call' or e.name != 'free_fat_chain':
                    continue
                n += 1
                con = f.qual
                start = e.arg(0, 'start_sid', NONE)
                flag = e.arg(1, 'minifat', FALSE)
                cd = conds(p, i)
                if ends(start, 'sector_id'):
                    ent = start[1]
                    check_flag(cx, f, p, e, ent, flag, cd)
                    if p.raised:
                        continue
                    later = p.ev[i + 1:]
                    gone = any(x.kind == 'set' and x.a == ent and x.b == 'sector_id' for x in later) or \
                        any(x.kind == 'call' and x.name == 'free_dir_entry' and x.args and x.args[-1] == ent for x in later)
                    cx.check(gone, 'C10.owner', con, e.where, 'the entry keeps pointing at the sectors that were released', p)
                    # size must agree afterwards
                    if any(x.kind == 'set' and x.a == ent and x.b == 'sector_id' and x.v == NONE for x in later):
                        sz = [x for x in p.ev if x.kind == 'set' and x.a == ent and x.b == 'byte_size']
                        cx.check(bool(sz), 'C10.owner', con + ' size', e.where, 'the sectors are released but the size is kept', p)
                        wr = [x for x in p.ev if x.kind == 'set' and x.b == 'fat_chain']
                        if f.cls is not None and f.cls.name == 'Stream':
                            cx.check(bool(wr), 'C10.owner', con + ' chain', e.where, 'the open stream keeps the list of the released sectors', p)
                elif has_attr(start, 'fat_chain'):
                    # tail of an open stream
                    me = ('p', f.params[0])
                    check_flag(cx, f, p, e, ('a', me, 'dir'), flag, cd)
                    tail(cx, f, p, i, e, start)
                else:
                    cx.unk('C10.table', con, 'start %s not recognised' % show(start))
    cx.need('release sites', n, 5)
    losses(cx)


def is_helper(cx, f):
    """a function never seen before that is only called from the package: looked into at its
    call sites"""
    for g in cx.prog.funcs:
        if g is f:
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr == f.name or isinstance(x, ast.Name) and x.id == f.name:
                return True
    return False


def check_flag(cx, f, p, e, ent, flag, cd):
    con = f.qual
    sm = small_term(flag)
    if sm is not None:
        pol, who = sm
        cx.check(pol is True, 'C10.table', con, e.where, 'streams below the mini stream limit live in the mini FAT, the others in the FAT: got %s' % show(flag), p)
        cx.check(who == ent, 'C10.table', con + ' entry', e.where, 'the size of %s decides where %s is released' % (show(who), show(ent)), p)
        return
    # a comparison of the size after it was changed
    i = p.ev.index(e)
    for x in p.ev[:i]:
        if x.kind == 'set' and x.a == ent and x.b == 'byte_size':
            tests = [flag] + [k for k in cd]
            for t in tests:
                while t[0] == 'un' and t[1] == 'not':
                    t = t[2]
                if t[0] == 'cmp' and (ends(t[3], 'min_stream_max_size') and t[2] == x.v or ends(t[2], 'min_stream_max_size') and t[3] == x.v) and \
                        (t == flag or is_c(x.v)):
                    cx.bad('C10.table', con + ' order', e.where, 'the size is changed before it is used to pick the table', p)
                    return
    want = None
    for t, v in cd.items():
        s = small_term(t)
        if s is not None and s[1] == ent and s[0] != 'bad':
            want = (s[0] == v)
    root = query(cx, cd, cmp_('==', ('a', ent, 'type'), c('root storage')))
    if root is True:
        want = False
    got = {TRUE: True, FALSE: False}.get(flag)
    if got is None:
        q = query(cx, cd, flag)
        got = q
    if want is None and got is not None:
        # constant flag without a test of the size on the path
        if flag in (TRUE, FALSE):
            cx.bad('C10.table', con, e.where, 'always released in the %s whatever the size of the stream' % ('mini FAT' if got else 'FAT'), p)
        return
    if got is not None and want is not None:
        cx.check(got == want, 'C10.table', con, e.where, 'a stream kept in the %s is released in the %s' % (
            'mini FAT' if want else 'FAT', 'mini FAT' if got else 'FAT'), p)
    elif flag[0] == 'call' and flag[1][0] == 'a' and flag[1][2] == 'is_mini_stream':
        cx.ok('C10.table', con)
    else:
        cx.unk('C10.table', con, 'flag %s' % show(flag))


def tail(cx, f, p, i, e, start):
    """cutting a chain: sector k and later go, k is what stays"""
    con = f.qual + ' cut'
    if p.raised or start[0] != 'i':
        return
    k = norm(start[2])
    later = p.ev[i + 1:]
    keep = norm(('bin', '-', k, c(1)))
    endm = [x for x in p.ev if x.kind == 'setitem' and table_of(x.a) and norm(x.v) == c(END)]
    if not cx.check(bool(endm), 'C10.cut', con, e.where, 'the kept part of the chain is not terminated', p):
        return
    for x in endm:
        good = x.b[0] == 'i' and x.b[1] == start[1] and norm(x.b[2]) == keep
        if x.b[0] == 'i' and x.b[1] == start[1]:
            cx.check(good, 'C10.cut', con, x.where, 'sectors from index %s on are released but the chain ends at index %s' % (show(k), show(norm(x.b[2]))), p)
        cx.check(p.ev.index(x) > i, 'C10.cut', con + ' order', x.where, 'the chain is cut before its tail is walked for release', p)
        cd = conds(p)
        me = ('p', f.params[0])
        for t, v in cd.items():
            s = small_term(t)
            if s is not None and s[0] != 'bad':
                mini = (s[0] == v) and query(cx, cd, cmp_('==', ('a', ('a', me, 'dir'), 'type'), c('root storage'))) is not True
                cx.check((table_of(x.a) == 'minifat') == mini, 'C10.cut', con + ' table', x.where, 'the end mark goes to the %s' % table_of(x.a), p)
    ch = [x for x in later if x.kind == 'set' and x.b == 'fat_chain'] + [x for x in later if x.kind == 'delitem' and ends(x.a, 'fat_chain')]
    cx.check(bool(ch), 'C10.cut', con + ' chain', e.where, 'the open stream keeps the released sectors in its chain', p)
    for x in ch:
        if x.kind == 'set' and x.v[0] == 'i' and x.v[2][0] == 'slice':
            hi = x.v[2][2]
            cx.check(norm(hi) == k, 'C10.cut', con + ' chain', x.where, 'the stream keeps %s sectors, %s stay allocated' % (show(norm(hi)), show(k)), p)


def losses(cx):
    """an entry leaves the directory, or its start sector is cleared, only after its sectors
    were released"""
    n = 0
    targets = [('cfb.CompoundFileBinary.remove', 'stream'), ('cfb.CompoundFileBinary.rmtree', None),
               ('cfb.CompoundFileBinary.open', None), ('cfb.Stream.truncate', None), ('cfb.Stream.allocate', None)]
    for q, _ in targets:
        f = cx.prog.func(q)
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for i, e in enumerate(p.ev):
                ent = None
                if e.kind == 'call' and e.name == 'free_dir_entry':
                    ent = e.args[-1] if e.args else None
                    kind = 'removed'
                elif e.kind == 'set' and e.b == 'sector_id' and e.v == NONE:
                    ent = e.a
                    kind = 'cleared'
                if ent is None:
                    continue
                n += 1
                con = '%s %s' % (f.qual, kind)
                cd = conds(p)
                freed = any(x.kind == 'call' and x.name == 'free_fat_chain' and x.args and x.args[0] == ('a', ent, 'sector_id') for x in p.ev[:i])
                if kind == 'removed':
                    notstream = query(cx, cd, cmp_('==', ('a', ent, 'type'), c('stream'))) is False or \
                        any(v and t[0] == 'cmp' and t[1] == '==' and t[2] == ('a', ent, 'type') and t[3] != c('stream') for t, v in cd.items()) or \
                        any(v and t[0] == 'call' and t[1] == ('a', ent, 'isdir') or not v and t[0] == 'call' and t[1] == ('a', ent, 'isfile') for t, v in cd.items()) or \
                        storage_list(ent)
                    cx.check(freed or notstream, 'C10.leak', con, e.where, 'a stream entry is removed without releasing its sectors', p)
                else:
                    new = ent[0] == 'new'
                    cx.check(freed or new, 'C10.leak', con, e.where, 'the start sector is forgotten without releasing the chain', p)
    cx.need('entry removal and clearing sites', n, 5)
    # overwriting an existing stream must release what it held
    f = cx.prog.func('cfb.CompoundFileBinary.open')
    if 'mode' in f.params:
        for mode in ('w', 'r', 'rw'):
            for p in cx.paths(f, args={'mode': c(mode)}, assume=True):
                if p.raised:
                    continue
                created = any(e.kind == 'call' and e.name == 'create_dir_entry' for e in p.ev)
                fr = any(e.kind == 'call' and e.name in ('free_fat_chain', 'truncate') for e in p.ev)
                if mode == 'w' and not created:
                    cx.check(fr, 'C10.overwrite', 'open for writing', f.where, 'an existing stream opened for writing keeps its old content', p)
                if mode != 'w':
                    cx.check(not fr, 'C10.overwrite', 'open without overwriting', f.where, 'opening a stream in mode %s drops its content' % mode, p)
    # removing a tree visits everything below
    f = cx.prog.func('cfb.CompoundFileBinary.rmtree')
    for p in cx.paths(f):
        if p.raised:
            continue
        top = [e for e in p.ev if e.kind == 'call' and e.name == 'remove']
        cx.check(bool(top), 'C10.leak', 'rmtree removes its root', f.where, 'the directory itself stays', p)


def storage_list(t):
    """element of the second list (storages) of a walk() item"""
    t2 = strip_iter(t)
    return t2[0] == 'i' and int_of(t2[2]) == 1 and contains(t2[1], lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'walk')
