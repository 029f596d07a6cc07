"""C09 the directory namespace; C22 damaged containers are refused and reading ends."""
import ast
from .util import *
from .layout import *
from . import order

I = ('exists', 'isdir', 'isfile', 'isroot')


def is_find(t):
    return t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('find', 'get')


def finds(p):
    return [e for e in p.ev if e.kind == 'call' and is_find(e.v)]


def present(cx, cd, t):
    """True/False/None: the looked up entry exists"""
    r = query(cx, cd, cmp_('is', t, NONE))
    if r is not None:
        return not r
    v = query(cx, cd, t)
    return v


def never_type(cx, cd, t, *types):
    ty = ('a', t, 'type')
    return all(query(cx, cd, cmp_('==', ty, c(x))) is False for x in types)


def first(p, pred):
    for i, e in enumerate(p.ev):
        if pred(e):
            return i
    return None


def guards(cx):
    # creating an entry
    f = cx.prog.func('cfb.CompoundFileBinary.create_dir_entry')
    path = ('p', f.params[1])
    n = 0
    for p in cx.paths(f, assume=True, inline=I):
        if p.raised:
            i = first(p, lambda e: e.kind == 'call' and e.name == 'next_free_dir_id')
            cx.check(i is None, 'C09.create', 'refused creation', f.where, 'a record is taken before the creation is refused: it is lost', p)
            continue
        i = first(p, lambda e: e.kind == 'call' and e.name in ('next_free_dir_id', 'add_child'))
        if i is None:
            continue
        n += 1
        cd = conds(p, i)
        fs = [e.v for e in p.ev[:i] if e.kind == 'call' and is_find(e.v)]
        own = [t for t in fs if t[2] and t[2][0] == path]
        cx.check(any(present(cx, cd, t) is False for t in own), 'C09.create', 'name taken', f.where, 'an entry is created although one with its path may exist', p)
        add = [e for e in p.ev if e.kind == 'call' and e.name == 'add_child']
        if cx.check(len(add) == 1, 'C09.create', 'linked', f.where, 'the new entry is linked %d times' % len(add), p):
            par = add[0].recv
            if is_find(par):
                cx.check(present(cx, cd, par) is True, 'C09.create', 'parent exists', f.where, 'the parent may not exist', p)
                cx.check(never_type(cx, cd, par, 'stream', 'empty'), 'C09.create', 'parent type', f.where, 'an entry can be created below a stream', p)
                a = par[2][0]
                cx.check(contains(a, lambda s: s == path), 'C09.create', 'parent path', f.where, 'the parent is looked up at %s' % show(a), p)
            new = add[0].args[0]
            did = new[2][1] if new[0] == 'new' and len(new[2]) > 1 else None
            if did is not None:
                cx.check(did[0] == 'call' and did[1][0] == 'a' and did[1][2] == 'next_free_dir_id' or 'free' in show(did), 'C09.create', 'record number', f.where, 'the new entry uses record %s' % show(did), p)
                ca = [e for e in p.ev if e.kind == 'setitem' and ends(e.a, 'dir_cache')]
                cx.check(any(e.b in (did, ('a', new, 'dir_id')) and e.v == new for e in ca), 'C09.cache', 'create_dir_entry', f.where, 'the new entry is not known under its record number', p)
            for e in p.ev:
                if e.kind == 'set' and e.a == new and e.b in ('name', 'type') and p.ev.index(e) > p.ev.index(add[0]) and e.b == 'name':
                    cx.bad('C09.rename', 'create_dir_entry', e.where, 'the entry is named after it was put in the sorted tree', p)
            nm = [e for e in p.ev if e.kind == 'set' and e.a == new and e.b == 'name']
            cx.check(bool(nm) and contains(nm[-1].v, lambda s: s == path), 'C09.create', 'name', f.where, 'the new entry has no name of the path', p)
    cx.need('creation paths', n, 1)
    # removing
    f = cx.prog.func('cfb.CompoundFileBinary.remove')
    n = 0
    for p in cx.paths(f, assume=True, inline=I):
        i = first(p, lambda e: e.kind == 'call' and (e.name in ('free_dir_entry', 'free_fat_chain') or e.name == 'pop' and is_find(e.recv)))
        if i is None:
            if not p.raised:
                cx.bad('C09.remove', 'remove does nothing', f.where, 'returns without removing or refusing', p)
            continue
        if p.raised:
            cx.bad('C09.remove', 'refused removal', f.where, 'the entry is taken apart before the removal is refused', p)
            continue
        n += 1
        cd = conds(p, i)
        fd = [e for e in p.ev if e.kind == 'call' and e.name == 'free_dir_entry']
        if not cx.check(len(fd) == 1, 'C09.remove', 'record', f.where, 'the record is freed %d times' % len(fd), p):
            continue
        ent = fd[0].args[-1]
        if not is_find(ent):
            continue
        cx.check(present(cx, cd, ent) is True, 'C09.remove', 'missing', f.where, 'a missing entry is not refused', p)
        cx.check(never_type(cx, cd, ent, 'root storage'), 'C09.remove', 'root', f.where, 'the root entry can be removed', p)
        empty = query(cx, cd, cmp_('is', ('a', ent, 'child_id'), NONE))
        if empty is None and query(cx, cd, ('a', ent, 'child_id')) is False:
            empty = True
        cx.check(empty is True or never_type(cx, cd, ent, 'storage'), 'C09.remove', 'children', f.where, 'a storage that still has children can be removed', p)
        pop = [j for j, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'pop' and e.recv == ent]
        cx.check(bool(pop), 'C09.remove', 'unlinked', f.where, 'the removed entry stays linked in its parent', p)
        if pop:
            cx.check(pop[0] < p.ev.index(fd[0]), 'C09.remove', 'order', f.where, 'the record is freed before the entry is unlinked', p)
    cx.need('removal paths', n, 1)
    # moving
    f = cx.prog.func('cfb.CompoundFileBinary.move')
    src, dst = ('p', f.params[1]), ('p', f.params[2])
    n = 0
    for p in cx.paths(f, assume=True, inline=I):
        i = first(p, lambda e: e.kind == 'call' and e.name == 'pop' and is_find(e.recv) or e.kind == 'set' and is_find(e.a) or e.kind == 'call' and e.name == 'add_child')
        if i is None:
            cx.check(p.raised, 'C09.move', 'move does nothing', f.where, 'returns without moving or refusing', p)
            continue
        if p.raised:
            cx.bad('C09.move', 'refused move', f.where, 'the entry is changed before the move is refused', p)
            continue
        n += 1
        cd = conds(p, i)
        add = [j for j, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'add_child']
        if not cx.check(len(add) == 1, 'C09.move', 'linked', f.where, 'the entry is linked %d times' % len(add), p):
            continue
        ent, par = p.ev[add[0]].args[0], p.ev[add[0]].recv
        pop = [j for j, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'pop' and e.recv == ent]
        cx.check(bool(pop) and pop[0] < add[0], 'C09.move', 'unlinked', f.where, 'the entry is still linked at its old place', p)
        if is_find(ent):
            cx.check(present(cx, cd, ent) is True, 'C09.move', 'source', f.where, 'a missing source is not refused', p)
            cx.check(ent[2][0] == src, 'C09.move', 'source', f.where, 'moves %s' % show(ent), p)
        if is_find(par):
            cx.check(present(cx, cd, par) is True, 'C09.move', 'target parent', f.where, 'a missing target directory is not refused', p)
            cx.check(never_type(cx, cd, par, 'stream', 'empty'), 'C09.move', 'target parent', f.where, 'an entry can be moved below a stream', p)
        fs = [e.v for e in p.ev[:i] if e.kind == 'call' and is_find(e.v)]
        tgt = [t for t in fs if t not in (ent, par) and contains(t, lambda s: s == dst)]
        cx.check(any(present(cx, cd, t) is False for t in tgt), 'C09.move', 'target taken', f.where, 'an existing target is not refused', p)
        for j, e in enumerate(p.ev):
            if e.kind == 'set' and e.a == ent and e.b == 'name':
                cx.check(pop and pop[0] < j < add[0], 'C09.rename', 'move', e.where, 'the name changes while the entry is in a tree sorted by name', p)
        nm = [e for e in p.ev if e.kind == 'set' and e.a == ent and e.b == 'name']
        cx.check(bool(nm), 'C09.move', 'name', f.where, 'the moved entry keeps its old name', p)
    cx.need('move paths', n, 1)
    # opening
    f = cx.prog.func('cfb.CompoundFileBinary.open')
    for p in cx.paths(f, assume=True, inline=I):
        cr = [e for e in p.ev if e.kind == 'call' and e.name == 'create_dir_entry']
        if p.raised:
            cx.check(not any(e.kind == 'call' and e.name in ('create_dir_entry', 'free_fat_chain') for e in p.ev), 'C09.open', 'refused open', f.where, 'changes the container before refusing', p)
            continue
        s = [e for e in p.ev if e.kind == 'new' and e.name == 'Stream']
        if not s:
            continue
        ent = s[-1].args[1] if len(s[-1].args) > 1 else NONE
        if is_find(ent):
            cd = conds(p)
            cx.check(never_type(cx, cd, ent, 'storage', 'root storage', 'empty'), 'C09.open', 'type', f.where, 'a storage can be opened as a stream', p)
        for e in cr:
            cx.check(e.arg(1, 'dir_type') == c('stream'), 'C09.open', 'created type', e.where, 'opening creates a %s' % show(e.arg(1, 'dir_type', NONE)), p)
    for mode in ('r',):
        for p in cx.paths(f, args={'mode': c(mode)} if 'mode' in f.params else None, assume=True, inline=I):
            cr = [e for e in p.ev if e.kind == 'call' and e.name == 'create_dir_entry']
            cx.check(not cr, 'C09.open', 'reading a missing stream', f.where, 'opening a missing stream for reading creates it', p)
    # listing
    f = cx.prog.func('cfb.CompoundFileBinary.listdir_dict')
    n = 0
    for p in cx.paths(f, assume=True, inline=I):
        if p.raised:
            continue
        st = [e for e in p.ev if e.kind == 'setitem' and ends(e.a, 'children_cache')]
        cd = conds(p)
        roots_ = [e.v for e in finds(p)]
        for t in roots_[:1]:
            cx.check(present(cx, cd, t) is True and never_type(cx, cd, t, 'stream', 'empty'), 'C09.list', 'listed entry', f.where, 'something that is not a storage is listed', p)
        for e in st:
            n += 1
            cx.check(e.b[0] == 'a' and e.b[2] == 'dir_id', 'C09.cache', 'listdir_dict key', e.where, 'the listing is remembered under %s' % show(e.b), p)
            same = e.v == p.ret
            cx.check(same, 'C09.cache', 'listdir_dict value', e.where, 'what is remembered is not what is returned', p)
            g = [x for x in p.ev if x.kind == 'call' and ends(x.recv or NONE, 'children_cache') and x.name == 'get']
            for x in g:
                cx.check(x.args[0] == e.b, 'C09.cache', 'listdir_dict key', e.where, 'looked up under %s, remembered under %s' % (show(x.args[0]), show(e.b)), p)
        for e in p.ev:
            if e.kind == 'setitem' and not ends(e.a, 'children_cache'):
                cx.check(e.b == ('a', e.v, 'name'), 'C09.list', 'names', e.where, 'child %s is listed as %s' % (show(e.v), show(e.b)), p)
                # both subtrees are visited
                if any(x.kind == 'loopexit' for x in p.ev):
                    for side in ('left', 'right'):
                        got = any(x.kind == 'call' and x.name == side and x.recv == e.v for x in p.ev) or \
                            any(contains(s, lambda q: q[0] == 'i' and q[1] == e.v) for x in p.ev for s in x.args) or \
                            any(x.kind in ('assume', 'set') and isinstance(x.a, tuple) and contains(x.a, lambda q: q[0] == 'a' and q[1] == e.v and q[2].startswith(side)) for x in p.ev)
                        if any(x.kind == 'call' and x.name in ('left', 'right') for x in p.ev):
                            cx.check(got, 'C09.list', 'both subtrees', f.where, 'the %s subtree of a child is not listed' % side, p)
    for p in cx.paths(f, assume=True, inline=I):
        if p.raised:
            continue
        for side in ('left', 'right'):
            for x in p.ev:
                if x.kind == 'call' and x.name == side and not x.args:
                    v = conds(p).get(x.v)
                    if v is None:
                        q = query(cx, conds(p), cmp_('is', x.v, NONE))
                        v = None if q is None else not q
                    pushed = any(y.kind == 'call' and y.name in ('append', 'appendleft', 'extend', 'push') and any(contains(a, lambda s: s == x.v) for a in y.args) for y in p.ev)
                    if v is True:
                        cx.check(pushed, 'C09.list', 'both subtrees', x.where, 'the %s subtree of a child is dropped' % side, p)


def caches(cx):
    """children listings follow every link change; entries are unique per record number"""
    f = cx.prog.func('cfb.DirEntry.add_child')
    me, ent = ('p', f.params[0]), ('p', f.params[1])
    n = 0
    for p in cx.paths(f, assume=True, inline=I):
        if p.raised:
            continue
        n += 1
        cd = conds(p)
        kk = ('a', me, 'dir_id')
        st = [e for e in p.ev if e.kind == 'setitem' and e.a[0] == 'i' and ends(e.a[1], 'children_cache')]
        gone = [e for e in p.ev if e.kind == 'delitem' and ends(e.a, 'children_cache') or e.kind == 'call' and ends(e.recv or NONE, 'children_cache') and e.name in ('pop', 'clear')]
        absent = any(not v and t[0] == 'cmp' and t[1] == 'in' and ends(t[3], 'children_cache') for t, v in cd.items()) or \
            any(v and t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and contains(t[2], lambda s: s[0] == 'a' and s[2] == 'children_cache') for t, v in cd.items())
        via = [e for e in p.ev if e.kind == 'setitem' and contains(e.a, lambda s: s[0] == 'a' and s[2] == 'children_cache')]
        cx.check(bool(st or gone or absent or via), 'C09.cache', 'add_child listing', f.where, 'a listing made before does not show the new child', p)
        for e in via:
            cx.check(e.v == ent and e.b == ('a', ent, 'name'), 'C09.cache', 'add_child listing', e.where, 'the listing shows %s as %s' % (show(e.v), show(e.b)), p)
            if e.a[0] == 'i':
                cx.check(e.a[2] == kk, 'C09.cache', 'add_child listing', e.where, 'the child is added to the listing of %s' % show(e.a[2]), p)
        par = [e for e in p.ev if e.kind == 'set' and e.a == ent and e.b == 'parent']
        cx.check(bool(par) and par[-1].v == me, 'C09.link', 'add_child parent', f.where, 'the child does not know its parent', p)
        lnk = any(e.kind == 'call' and e.name == 'insert' and e.args and e.args[0] == ent for e in p.ev)
        rooted = any(e.kind == 'set' and e.a == me and e.b == 'child_id' and e.v == ('a', ent, 'dir_id') for e in p.ev)
        ch = [e for e in p.ev if e.kind == 'call' and e.name == 'child']
        none = any(query(cx, cd, cmp_('is', e.v, NONE)) for e in ch) or query(cx, cd, cmp_('is', ('a', me, 'child_id'), NONE)) is True
        cx.check(lnk or rooted, 'C09.link', 'add_child', f.where, 'the child is not linked', p)
        if rooted and not lnk:
            cx.check(none, 'C09.link', 'add_child replaces', f.where, 'the existing children are dropped', p)
    cx.need('add_child paths', n, 1)
    f = cx.prog.func('cfb.DirEntry.pop')
    me = ('p', f.params[0])
    par = ('a', me, 'parent')
    n = 0
    for p in popped_tail(cx, f):
        if p.raised:
            continue
        n += 1
        # the tail of the function: cache and link fields
        cd = conds(p)
        dl = [e for e in p.ev if e.kind == 'delitem' and contains(e.a, lambda s: s[0] == 'a' and s[2] == 'children_cache')] + \
            [e for e in p.ev if e.kind == 'call' and e.name in ('pop', 'clear') and e.recv is not None and contains(e.recv, lambda s: s[0] == 'a' and s[2] == 'children_cache')]
        absent = any(not v and t[0] == 'cmp' and t[1] == 'in' and ends(t[3], 'children_cache') for t, v in cd.items()) or \
            any(v and t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and contains(t[2], lambda s: s[0] == 'a' and s[2] == 'children_cache') for t, v in cd.items())
        cx.check(bool(dl) or absent, 'C09.cache', 'pop listing', f.where, 'a listing made before still shows the removed child', p)
        lst = [i for i, e in enumerate(p.ev) if e.kind == 'set' and e.a == me and e.b == 'parent']
        if cx.check(bool(lst) and p.ev[lst[-1]].v == NONE, 'C09.link', 'pop parent', f.where, 'the removed entry keeps its parent', p):
            for e in dl:
                cx.check(p.ev.index(e) < lst[-1], 'C09.cache', 'pop order', e.where, 'the parent is forgotten before its listing is corrected', p)
        for a in ('left_id', 'right_id'):
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == a]
            cx.check(bool(st) and st[-1].v == NONE, 'C09.link', 'pop %s' % a, f.where, 'the removed entry keeps its siblings', p)
        rt = [e for e in p.ev if e.kind == 'set' and e.b == 'child_id']
        cx.check(bool(rt), 'C09.link', 'pop root', f.where, 'the parent does not learn the new root of its tree', p)
    cx.need('pop paths', n, 1)
    f = cx.prog.func('cfb.CompoundFileBinary.read_dir_entry')
    did = ('p', f.params[1])
    for p in cx.paths(f, assume=True):
        if p.raised or p.ret == NONE:
            continue
        new = [e for e in p.ev if e.kind == 'new' and e.name == 'DirEntry']
        if new:
            ca = [e for e in p.ev if e.kind == 'setitem' and ends(e.a, 'dir_cache')]
            cx.check(any(e.b == did and e.v == new[-1].v for e in ca), 'C09.cache', 'read_dir_entry', f.where, 'the entry is not remembered: two copies of one record can exist', p)
            cx.check(p.ret == new[-1].v, 'C09.cache', 'read_dir_entry result', f.where, 'returns %s' % show(p.ret), p)
            lk = any(e.kind == 'call' and ends(e.recv or NONE, 'dir_cache') and e.name == 'get' and e.args and e.args[0] == did for e in p.ev) or \
                any(t[0] == 'cmp' and t[1] == 'in' and t[2] == did and ends(t[3], 'dir_cache') for t in conds(p))
            cx.check(lk, 'C09.cache', 'read_dir_entry lookup', f.where, 'a second copy of a known record is made', p)
            pa = [e for e in p.ev if e.kind == 'set' and e.a == new[-1].v and e.b == 'parent']
            if len(f.params) > 2:
                cx.check(bool(pa) and pa[-1].v == ('p', f.params[2]), 'C09.link', 'read_dir_entry parent', f.where, 'the entry does not know its parent', p)
    for nm, attr in (('left', 'left_id'), ('right', 'right_id'), ('child', 'child_id')):
        f = cx.prog.func('cfb.DirEntry.' + nm)
        me = ('p', f.params[0])
        for p in cx.paths(f):
            for e in p.ev:
                if e.kind == 'call' and e.name == 'read_dir_entry':
                    cx.check(e.args and e.args[0] == ('a', me, attr), 'C09.link', nm, e.where, '%s() reads record %s' % (nm, show(e.args[0])), p)
                    pa = e.arg(1, 'parent')
                    want = me if nm == 'child' else ('a', me, 'parent')
                    cx.check(pa == want, 'C09.link', nm + ' parent', e.where, '%s() gets parent %s' % (nm, show(pa or NONE)), p)
    for nm, kind in (('__getitem__', 'get'), ('__setitem__', 'set')):
        f = cx.prog.func('cfb.DirEntry.' + nm)
        me, ix = ('p', f.params[0]), f.params[1]
        for v, side in ((0, 'left'), (1, 'right')):
            for p in cx.paths(f, args={ix: c(v)}, assume=True):
                if p.raised:
                    continue
                if kind == 'get':
                    got = p.ret[0] == 'call' and p.ret[1] == ('a', me, side) or contains(p.ret, lambda s: s == ('a', me, side + '_id'))
                    cx.check(got, 'C09.link', 'entry[%d]' % v, f.where, 'is not the %s sibling' % side, p)
                else:
                    st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b.endswith('_id')]
                    cx.check(bool(st) and all(e.b == side + '_id' for e in st), 'C09.link', 'entry[%d] =' % v, f.where, 'does not set the %s sibling' % side, p)


def popped_tail(cx, f):
    return cx.paths(f, assume=True, raises=True, max_states=40000)


def freed(cx):
    """a freed record is forgotten everywhere"""
    f = cx.prog.func('cfb.CompoundFileBinary.free_dir_entry')
    ent = ('p', f.params[1])
    did = ('a', ent, 'dir_id')
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        n += 1
        cd = conds(p)
        for cache, msg in (('dir_cache', 'a record taken again is answered with the freed entry'),
                           ('children_cache', 'a record taken again shows the freed directory\'s listing'),
                           ('modified', 'the freed entry is written over the record\'s next use')):
            out = False
            for e in p.ev:
                if e.kind == 'delitem' and ends(e.a, cache) and e.b == did:
                    out = True
                if e.kind == 'call' and e.recv is not None and ends(e.recv, cache) and (e.name == 'clear' or e.name in ('pop', '__delitem__', 'discard') and e.args and e.args[0] == did):
                    out = True
                if e.kind == 'set' and e.b == cache:
                    out = True
            absent = any(not v and t[0] == 'cmp' and t[1] == 'in' and t[2] == did and ends(t[3], cache) for t, v in cd.items())
            if not out and not absent and any(e.kind == 'iter' for e in p.ev) and not any(ends(s, cache) for e in p.ev for s in ([e.a] if isinstance(e.a, tuple) else [])):
                cx.unk('C09.freed', cache, 'loop over caches')
                continue
            cx.check(out or absent, 'C09.freed', cache, f.where, msg, p)
        gone = [e for e in p.ev if e.kind == 'set' and e.a == ent and e.b == 'dir_id']
        cx.check(bool(gone) and gone[-1].v == NONE, 'C09.freed', 'dir_id', f.where, 'the freed entry can still write its record', p)
    cx.need('freeing paths', n, 1)


def ordering(cx):
    """siblings are sorted by name length, then by upper case name, and every walk agrees"""
    f = cx.prog.func('cfb.DirEntry.__lt__')
    me, other = ('p', f.params[0]), ('p', f.params[1])
    ps = [p for p in cx.paths(f, assume=True) if not p.raised]

    class Raw(Exception):
        pass
    n = 0
    for ins in (True, False):
        oname = ('a', other, 'name') if ins else other
        for l1, l2, u1, u2 in [(a, b, x, y) for a in (1, 2) for b in (1, 2) for x in (1, 2) for y in (1, 2)]:
            def leaf(t):
                if t[0] == 'call' and t[1] == ('b', 'isinstance') and t[2][0] == other:
                    return (ins,)
                if t[0] == 'call' and t[1] == ('b', 'len') and len(t[2]) == 1:
                    if t[2][0] in (('a', me, 'name'), me):
                        return (l1,)
                    if t[2][0] == oname:
                        return (l2,)
                if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('upper', 'lower', 'casefold', 'swapcase') and not t[2]:
                    if t[1][1] == ('a', me, 'name'):
                        return (u1,)
                    if t[1][1] == oname:
                        return (u2,)
                if t in (('a', me, 'name'), oname):
                    raise Raw()
                if t[0] == 'cmp' and me in (t[2], t[3]) and other in (t[2], t[3]):
                    if t[1] in ('is', 'is not'):
                        return None
                    if t[1] in ('==', '!='):
                        return (((l1, u1) == (l2, u2)) == (t[1] == '=='),)
                return None
            want = (l1, u1) < (l2, u2)
            try:
                got = set()
                for p in order.cases(ps, leaf):
                    got.add(bool(order.ev(p.ret, leaf)))
            except Raw:
                cx.bad('C09.order', 'exact case', f.where, 'names are compared with regard to case: other readers search the tree in another order')
                return
            except order.Unk as e:
                cx.unk('C09.order', '__lt__', 'cannot fold %s' % show(e.args[0])[:80])
                continue
            if got:
                n += 1
                cx.check(got == {want}, 'C09.order', 'length, then upper case', f.where,
                         'a name of length %d / case folded rank %d is%s before one of length %d / rank %d' % (l1, u1, '' if True in got else ' not', l2, u2))
    # every walk down the tree goes to the left for the smaller name
    for q in ('cfb.find_entry_parent', 'cfb.get_entry_path', 'cfb.DirEntry.insert', 'cfb.DirEntry.pop'):
        f = next((x for x in cx.prog.funcs if x.qual == q), None)
        if f is None:
            continue
        key = f.params[-1] if q.endswith('insert') else (f.params[0] if q.endswith('pop') else f.params[1])
        alias = {key}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in alias and isinstance(x.targets[0], ast.Name) and \
                    not any(isinstance(y, ast.Assign) and y is not x and any(isinstance(t, ast.Name) and t.id == x.targets[0].id for t in y.targets) for y in ast.walk(f.node)):
                alias.add(x.targets[0].id)
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Assign):
                continue
            side = direction(x.value, alias)
            if side is None:
                continue
            cx.check(side, 'C09.order', '%s descends' % q, '%s:%d' % (f.module.rel, x.lineno), 'looks for a name on the wrong side: entries with a smaller name are on the left (0)')


def direction(e, alias):
    """True/False: a direction (0 left, 1 right) computed from comparing the entry with a node agrees
    with 'smaller names are on the left'; None: not such an expression"""
    def less(t):
        # ('entry' smaller than node) as polarity: returns +1 when true means entry < node (or <=), -1 when entry > node
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = less(t.operand)
            return None if r is None else -r
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Name)):
            return None
        le, ri = t.left.id in alias, t.comparators[0].id in alias
        if le == ri or not isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return None
        lt = isinstance(t.ops[0], (ast.Lt, ast.LtE))
        return 1 if lt == le else -1
    if isinstance(e, ast.IfExp) and isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant):
        r = less(e.test)
        if r is None or (e.body.value, e.orelse.value) not in ((0, 1), (1, 0)):
            return None
        return (e.body.value == 0) == (r > 0)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
        r = less(e.args[0])
        return None if r is None else r < 0
    r = less(e)
    return None if r is None else r < 0


def C09(cx):
    guards(cx)
    caches(cx)
    freed(cx)
    ordering(cx)


# -- C22 ---------------------------------------------------------------------------------------

LINKED = {
    'cfb.CompoundFileBinary.get_fat_chain': 'sector chains',
    'cfb.CompoundFileBinary.listdir_dict': 'directory listing',
    'cfb.CompoundFileBinary.read_header': 'DIFAT chain',
    'cfb.find_entry_parent': 'directory search',
    'cfb.get_entry_path': 'directory search',
    'cfb.DirEntry.insert': 'directory insertion',
    'cfb.DirEntry.pop': 'directory removal',
}


def leaves(stmts):
    """the statements leave the loop"""
    return any(isinstance(x, (ast.Raise, ast.Return, ast.Break)) for s in stmts for x in ast.walk(s))


def names_in(e):
    return set(x.id for x in ast.walk(e) if isinstance(x, ast.Name)) | set(ast.unparse(x) for x in ast.walk(e) if isinstance(x, ast.Attribute))


def always(stmts):
    """statements run on every turn of the loop that reaches its end"""
    out = []
    for s in stmts:
        out.append(s)
        if isinstance(s, ast.With):
            out += always(s.body)
        if isinstance(s, ast.Try):
            out += always(s.body)
    return out


def steps(stmts):
    """counters changed on every turn: {name: sign}"""
    out = {}
    for s in always(stmts):
        t = v = None
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            t = ast.unparse(s.target)
            v = s.value.value * (1 if isinstance(s.op, ast.Add) else -1)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)) and \
                isinstance(s.value.right, ast.Constant) and isinstance(s.value.right.value, int) and ast.unparse(s.value.left) == ast.unparse(s.targets[0]):
            t = ast.unparse(s.targets[0])
            v = s.value.right.value * (1 if isinstance(s.value.op, ast.Add) else -1)
        if t is not None and v:
            out[t] = 1 if v > 0 else -1
    return out


def tests(loop):
    """(expression, holds while looping) conditions that end the loop"""
    out = []
    if isinstance(loop, ast.While):
        for x in (loop.test.values if isinstance(loop.test, ast.BoolOp) and isinstance(loop.test.op, ast.And) else [loop.test]):
            out.append((x, True))
    for s in ast.walk(loop):
        if isinstance(s, ast.If) and leaves(s.body):
            out.append((s.test, False))
        if isinstance(s, ast.If) and s.orelse and leaves(s.orelse):
            out.append((s.test, True))
        if isinstance(s, ast.Assert):
            out.append((s.test, True))
    return out


def certificate(loop):
    """why the loop ends whatever the file says, or None"""
    st = steps(loop.body)
    for e, hold in tests(loop):
        for t in ast.walk(e):
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                l, r, op = t.left, t.comparators[0], t.ops[0]
                for n, sg in st.items():
                    if ast.unparse(l) == n or ast.unparse(r) == n:
                        left = ast.unparse(l) == n
                        up = isinstance(op, (ast.Lt, ast.LtE)) == left     # continues while n is below
                        if not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                            continue
                        if not hold:
                            up = not up
                        if up == (sg > 0):
                            return 'counter %s' % n
            if isinstance(t, ast.Name) and t.id in st and st[t.id] < 0 and e is t and hold:
                return 'countdown %s' % t.id
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)):
                seen = ast.unparse(t.comparators[0])
                leaves_when_in = isinstance(t.ops[0], ast.In) != hold
                if leaves_when_in:
                    for s in always(loop.body):
                        for x in ast.walk(s):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'append') and ast.unparse(x.func.value) == seen:
                                return 'visited set %s' % seen
                            if isinstance(x, ast.Assign) and any(isinstance(q, ast.Subscript) and ast.unparse(q.value) == seen for q in x.targets):
                                return 'visited map %s' % seen
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                for a, b, flip in ((t.left, t.comparators[0], False), (t.comparators[0], t.left, True)):
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and a.args:
                        seq = ast.unparse(a.args[0])
                        grows = any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and
                                    s.value.func.attr == 'append' and ast.unparse(s.value.func.value) == seq for s in always(loop.body))
                        op = t.ops[0]
                        ends_high = (isinstance(op, (ast.Gt, ast.GtE)) != flip) if isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE)) else False
                        if not isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                            continue
                        if hold:
                            ends_high = not ends_high
                        if grows and ends_high:
                            return 'length of %s' % seq
    # two pointers over the same links, one twice as fast, compared every turn
    adv = {}
    for s in ast.walk(loop):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Subscript):
            n = s.targets[0].id
            x, depth = s.value, 0
            base = None
            while isinstance(x, ast.Subscript):
                depth += 1
                base = ast.unparse(x.value)
                x = x.slice
            if isinstance(x, ast.Name) and x.id == n:
                adv.setdefault((n, base), 0)
                adv[(n, base)] += depth
    for (n1, b1), k1 in adv.items():
        for (n2, b2), k2 in adv.items():
            if n1 != n2 and b1 == b2 and k1 == 2 * k2 and k2:
                for s in ast.walk(loop):
                    if isinstance(s, ast.If) and leaves(s.body) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and \
                            isinstance(s.test.ops[0], (ast.Eq, ast.Is)) and {ast.unparse(s.test.left), ast.unparse(s.test.comparators[0])} == {n1, n2}:
                        return 'two speed pointers %s %s' % (n1, n2)
    return None


def bounded_somehow(loop):
    """an exit test that may bound the loop in a way certificate() does not know"""
    aug = set(ast.unparse(s.target) for s in ast.walk(loop) if isinstance(s, ast.AugAssign))
    for e, hold in tests(loop):
        for t in ast.walk(e):
            if isinstance(t, ast.Compare):
                if isinstance(t.ops[0], (ast.In, ast.NotIn)):
                    return True
                for x in ast.walk(t):
                    if isinstance(x, ast.Call) or ast.unparse(x) in aug:
                        return True
    return False


def ends_check(cx, x, q, what, w):
    why = certificate(x)
    if why is None and bounded_somehow(x):
        cx.unk('C22.ends', '%s (%s)' % (q, what), 'bounded in a way that is not recognised')
        return
    cx.check(why is not None, 'C22.ends', '%s (%s)' % (q, what), w, 'the %s can go round a cycle in the file for ever' % what)


def loops(cx):
    n = 0
    for q, what in sorted(LINKED.items()):
        f = cx.prog.funcs_by_qual().get(q) if hasattr(cx.prog, 'funcs_by_qual') else next((x for x in cx.prog.funcs if x.qual == q), None)
        if f is None:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.While):
                n += 1
                ends_check(cx, x, q, what, '%s:%d' % (f.module.rel, x.lineno))
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, (ast.Name, ast.Attribute)):
                nm = x.iter.func.id if isinstance(x.iter.func, ast.Name) else x.iter.func.attr
                if nm in ('count', 'repeat', 'cycle', 'iter'):
                    ends_check(cx, x, q, what, '%s:%d' % (f.module.rel, x.lineno))
    for f in cx.prog.funcs:
        if f.module.name != 'cfb' or f.qual in LINKED:
            continue
        if f.qual not in cx.known:
            for x in ast.walk(f.node):
                if isinstance(x, ast.While) and certificate(x) is None:
                    cx.unk('C22.ends', f.qual, 'new loop')
    cx.need('loops over links of the file', n, 3)


def header(cx):
    f = cx.prog.func('cfb.CompoundFileBinary.read_header')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        n += 1
        cd = conds(p)
        # value bindings of attributes at the end of the path
        def val(a):
            s = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == a]
            return s[-1].v if s else ('a', me, a)
        mg = any(v and t[0] == 'cmp' and t[1] == '==' and is_c(t[3]) and cval(t[3]) == b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' for t, v in cd.items())
        cx.check(mg, 'C22.header', 'magic', f.where, 'a file without the compound file signature is accepted', p)
        bo = any(v and t[0] == 'cmp' and t[1] == '==' and is_c(t[3]) and cval(t[3]) in (0xFFFE, b'\xfe\xff') for t, v in cd.items())
        cx.check(bo, 'C22.header', 'byte order', f.where, 'a file in another byte order is accepted', p)
        def one_of(term, vals, exps):
            for t, v in cd.items():
                if t[0] != 'cmp' or not v:
                    continue
                if t[2] in (term, exps) or norm(t[2]) == norm(term):
                    if t[1] == '==' and is_c(t[3]) and cval(t[3]) in vals:
                        return True
                    if t[1] == 'in' and t[3][0] == 'members':
                        return set(cval(x) for x in t[3][1]) <= set(vals)
            for k in (1, 2, 16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 65536):
                if k in vals:
                    continue
                if query(cx, cd, cmp_('==', term, c(k))) is not False:
                    return False
            return True
        ss = val('sector_size')
        cx.check(one_of(ss, (512, 4096), None), 'C22.header', 'sector size', f.where, 'a sector size other than 512 and 4096 is accepted', p)
        ms = val('mini_stream_sector_size')
        cx.check(one_of(ms, (64,), None), 'C22.header', 'mini sector size', f.where, 'a mini sector size other than 64 is accepted', p)
    cx.need('accepted headers', n, 1)


def errors(cx):
    """running out of the bound is an error, not a result"""
    for q in ('find_entry_parent',):
        f = next((x for x in cx.prog.funcs if x.qual == 'cfb.' + q), None)
        if f is None:
            continue
        ent = ('p', f.params[1])
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            hit = any(v and t[0] == 'cmp' and t[1] in ('is', '==') and ent in (t[2], t[3]) for t, v in conds(p).items())
            cx.check(hit, 'C22.error', q, f.where, 'gives an answer although the entry was not found', p)
    f = cx.prog.func('cfb.CompoundFileBinary.get_fat_chain')
    rs = [p for p in cx.paths(f, assume=True, unroll=2) if p.raised and exc_name(p) == 'CompoundFileBinaryError']
    other = [p for p in cx.paths(f, assume=True, unroll=2) if p.raised]
    cx.check(bool(rs or other), 'C22.error', 'get_fat_chain', f.where, 'a cyclic chain is not reported as an error')
    f = cx.prog.func('cfb.CompoundFileBinary.listdir_dict')
    rs = [p for p in cx.paths(f, assume=True, inline=I) if p.raised and any(e.kind == 'loop' for e in p.ev)]
    cx.check(bool(rs), 'C22.error', 'listdir_dict', f.where, 'a directory with cyclic links is not reported as an error')
    for q in ('insert', 'pop'):
        f = cx.prog.func('cfb.DirEntry.' + q)
        found = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.If) and any(isinstance(y, ast.Raise) for y in x.body):
                for t in ast.walk(x.test):
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.GtE, ast.Gt, ast.Eq, ast.Lt, ast.LtE)):
                        found = True
            if isinstance(x, ast.While) and x.orelse and any(isinstance(y, ast.Raise) for y in x.orelse):
                found = True
        new = [g for g in cx.prog.funcs if g.module.name == 'cfb' and g.qual not in cx.known]
        if new and not found:
            cx.unk('C22.error', 'DirEntry.' + q, 'split into new functions')
        else:
            cx.check(found, 'C22.error', 'DirEntry.' + q, f.where, 'running out of the depth limit is not reported as an error')


def C22(cx):
    loops(cx)
    header(cx)
    errors(cx)
    props(cx)


def props(cx):
    """the property stream of another byte order is refused"""
    n = 0
    f = cx.prog.func('core.AAFObject.read_properties')
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        if not any(e.kind == 'call' and e.name == 'read' for e in p.ev) and not any(e.kind == 'iter' for e in p.ev):
            continue
        n += 1
        cd = conds(p)
        ok = any(v and t[0] == 'cmp' and t[1] == '==' and is_c(t[3]) and cval(t[3]) == 0x4c for t, v in cd.items())
        cx.check(ok, 'C22.properties', 'byte order', f.where, 'properties stored in another byte order are read', p)
    if not n:
        cx.unk('C22.properties', 'read_properties', 'no reading path recognised')
