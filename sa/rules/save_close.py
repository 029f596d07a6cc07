"""C06 saving and closing: complete, and in an order that keeps what was written true"""
from .util import *
from .effects import Effects

STATE = ('fat', 'minifat', 'difat', 'fat_sector_count', 'dir_sector_count', 'dir_sector_start', 'minifat_sector_start',
         'minifat_sector_count', 'difat_sector_start', 'difat_sector_count', 'modified', 'dir_freelist')
FREE = 0xFFFFFFFF


def good(ps):
    return [p for p in ps if not p.raised]


def callee(cx, e):
    """package functions a call event may reach"""
    if e.recv is not None and (ends(e.recv, 'f') or e.recv[0] == 'a' and e.recv[2] == 'f'):
        return []
    k = None
    if e.recv is not None:
        it = query_interp(cx)
        k = it.typeof(e.recv)
        if k is None and e.recv[0] == 'new':
            r = cx.types.global_obj(e.recv[1], cx.prog)
            k = r if isinstance(r, Class) else None
        if k is None and e.recv[0] == 'p' and e.recv[1] == 'self':
            k = cx.prog.cls('CompoundFileBinary')
    name = e.name.split('.')[-1]
    if k is not None:
        m = k.method(name)
        return [m] if m is not None else []
    if e.recv is None:
        r = cx.types.global_obj(e.name, cx.prog)
        return [r] if isinstance(r, Func) else []
    return [f for f in cx.prog.funcs if f.name == name and f.cls is not None and f.module.name == 'cfb']


def query_interp(cx):
    it = getattr(cx, '_qi', None)
    if it is None:
        it = cx._qi = Interp(cx.prog, cx.types)
        it.typeenv = {}
        it.stack = [(None, cx.prog.modules['cfb'], None)]
    return it


def container(cx):
    f = cx.prog.func('cfb.CompoundFileBinary.close')
    me = ('p', f.params[0])
    E = Effects(cx)
    n = 0
    for mode in ('rb+', 'wb+', 'r+', 'w'):
        for p in good(cx.paths(f, assume=True, heap={(me, 'mode'): c(mode)}, selfcls=cx.prog.cls('CompoundFileBinary'))):
            written = {}
            n += 1
            for i, e in enumerate(p.ev):
                muts, sers = set(), set()
                if e.kind == 'call':
                    for g in callee(cx, e):
                        muts |= E.mut(g) & set(STATE)
                        sers |= E.serialised(g) & set(STATE)
                    muts_only = muts - sers
                elif e.kind == 'set':
                    muts_only = {e.b} & set(STATE)
                    for k in cx.prog.classes.get('DirEntry', []):
                        s = k.setter(e.b)
                        if s is not None and e.a != me:
                            muts_only |= E.mut(s) & set(STATE)
                elif e.kind == 'setitem':
                    muts_only = set(s[2] for s in subterms(e.a) if s[0] == 'a') & set(STATE)
                else:
                    continue
                for x in sorted(muts_only):
                    if x in written:
                        cx.bad('C06.order', 'container close: %s' % x, e.where, '%s can change (%s) after it was written (%s)' % (x, show(e.v)[:60] if isinstance(e.v, tuple) else e.b, written[x]), p)
                        written.pop(x)
                for x in sers:
                    written[x] = e.where
            for x in STATE:
                cx.check(x in written or any(f_.construct == 'container close: %s' % x for f_ in cx.findings), 'C06.complete', 'container close: %s' % x, f.where,
                         'a writable container is closed without writing %s' % x, p)
            # cut behind the last used sector
            tr = [k for k, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'truncate' and e.recv is not None and ends(e.recv, 'f')]
            if not tr:
                cx.unk('C06.cut', 'file length', 'the file is not cut')
                continue
            e = p.ev[tr[-1]]
            pos = e.arg(0, 'size')
            if pos is None or pos == NONE:
                sk = [x for x in p.ev[:tr[-1]] if x.kind == 'call' and x.name in ('seek', 'write') and x.recv == e.recv]
                pos = sk[-1].args[0] if sk and sk[-1].name == 'seek' else None
            if pos is None:
                cx.unk('C06.cut', 'file length', 'position not recognised')
                continue
            last_used(cx, f, p, e, pos, ('a', me, 'fat'), ('a', me, 'sector_size'), 1, 'file length', me)
            for x in p.ev[tr[-1] + 1:]:
                if x.kind == 'call' and x.name == 'write' or x.kind == 'call' and any(E.writes(g) for g in callee(cx, x)):
                    cx.bad('C06.order', 'file length', x.where, 'something is written after the file was cut', p)
            # the mini stream ends with its last used sector
            for x in p.ev:
                if x.kind == 'set' and x.b == 'byte_size' and x.a == ('a', me, 'root'):
                    last_used(cx, f, p, x, x.v, ('a', me, 'minifat'), ('a', me, 'mini_stream_sector_size'), 0, 'mini stream length', me)
                    t = [y for y in p.ev if y.kind == 'call' and y.name == 'truncate' and y.recv is not None and y.recv[0] in ('new', 'call') and y.args]
                    for y in t:
                        cx.check(norm(y.args[0]) == norm(x.v), 'C06.cut', 'mini stream length', y.where, 'the mini stream is cut at %s but its size is %s' % (show(y.args[0]), show(x.v)), p)
    cx.need('container close paths', n, 4)
    for mode in ('r', 'rb'):
        for p in good(cx.paths(f, assume=True, heap={(me, 'mode'): c(mode)}, selfcls=cx.prog.cls('CompoundFileBinary'))):
            pass


def last_used(cx, f, p, e, pos, table, size, plus, what, me):
    """pos is (index after the last non-free entry of the table + plus) * size"""
    want = None
    for s in subterms(pos):
        if s[0] == 'idx' and s[1][0] == 'call' and s[1][1] == ('b', 'reversed') and s[1][2] == (table,):
            want = norm(('bin', '*', ('bin', '+', ('bin', '-', ('call', ('b', 'len'), (table,), (), 0), s), c(plus)), size))
    if want is None:
        q = poly(norm(pos))
        if len(q) and contains(pos, lambda s: s == table):
            want2 = norm(('bin', '*', ('bin', '+', ('call', ('b', 'len'), (table,), (), 0), c(plus)), size))
            # the whole table is kept: longer, never wrong
            if norm(pos) == want2:
                cx.ok('C06.cut', what)
                return
        cx.unk('C06.cut', what, show(pos)[:120])
        return
    cx.check(norm(pos) == want, 'C06.cut', what, e.where, 'cut at %s; the last sector in use ends at %s' % (show(norm(pos))[:100], show(want)[:100]), p)
    # the search stops at the first entry that is not free
    for k, x in enumerate(p.ev):
        if x.kind == 'loop' and contains(x.a, lambda s: s == table):
            nxt = [y for y in p.ev[k + 1:] if y.kind in ('assume', 'loopexit')]
            a = nxt[0] if nxt else None
            if a is not None and a.kind == 'assume' and contains(a.a, lambda s: s == c(FREE)):
                ex = [y for y in nxt if y.kind == 'loopexit']
                isfree = a.a[1] == '==' and a.b is True or a.a[1] == '!=' and a.b is False
                if a.a[1] in ('==', '!=') and ex:
                    cx.check((ex[0].a == 'break') == (not isfree), 'C06.cut', what + ' search', a.where,
                             'the search %s at a sector in use' % ('does not stop' if not isfree else 'stops at a free one instead of'), p)


def aaf(cx):
    A = cx.prog.cls('AAFFile')
    f = cx.prog.func('file.AAFFile.save')
    me = ('p', f.params[0])
    n = 0
    for mode in ('wb+', 'rb+'):
        for op in (True, False):
            for p in cx.paths(f, assume=True, heap={(me, 'mode'): c(mode), (me, 'is_open'): c(op)}, inline=('writeable',)):
                names = [e.name for e in p.ev if e.kind == 'call']
                if not op:
                    continue
                if p.raised:
                    continue
                n += 1
                cx.check('write_reference_properties' in names or writes_table(p, me), 'C06.complete', 'save: weak reference table', f.where, 'a save in mode %s does not write the weak reference table' % mode, p)
                cx.check('write_objects' in names or 'write_properties' in names, 'C06.complete', 'save: objects', f.where, 'a save in mode %s does not write the changed objects' % mode, p)
    cx.need('save paths', n, 2)
    f = cx.prog.func('file.AAFFile.close')
    me = ('p', f.params[0])
    n = 0
    for mode in ('wb+', 'rb+', 'rb'):
        for p in good(cx.paths(f, assume=True, heap={(me, 'mode'): c(mode)}, inline=('writeable',))):
            n += 1
            ev = [e for e in p.ev if e.kind == 'call']
            def at(pred):
                return [i for i, e in enumerate(ev) if pred(e)]
            sv = at(lambda e: e.name == 'save' or e.name == 'write_objects')
            cc = at(lambda e: e.name == 'close' and e.recv is not None and ends(e.recv, 'cfb'))
            fc = at(lambda e: e.name == 'close' and e.recv is not None and ends(e.recv, 'f'))
            if mode != 'rb':
                cx.check(bool(sv), 'C06.complete', 'close saves', f.where, 'closing a writable file does not save it', p)
                cx.check(bool(cc), 'C06.complete', 'close writes the container', f.where, 'closing a writable file does not write the container tables', p)
            if sv and cc:
                cx.check(max(sv) < cc[0], 'C06.order', 'objects before container', f.where, 'objects are written after the container tables', p)
            cx.check(bool(fc), 'C06.complete', 'close closes the file', f.where, 'the file handle stays open', p)
            if cc and fc:
                cx.check(max(cc) < fc[-1] and max(cc) < fc[0], 'C06.order', 'container before handle', f.where, 'the file handle is closed before the container tables are written', p)
            if cc:
                late = [e for i, e in enumerate(ev) if i > max(cc) and e.recv is not None and (has_attr(e.recv, 'manager') or has_attr(e.recv, 'cfb') or e.recv == ('a', me, 'cfb'))
                        and e.name not in ('close', 'exists', 'find')]
                for e in late:
                    cx.bad('C06.order', 'nothing behind the container', e.where, '%s runs after the container tables are written' % show(e.v)[:80], p)
                if not late:
                    cx.ok('C06.order', 'nothing behind the container')
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'is_open']
            cx.check(bool(st) and st[-1].v == FALSE, 'C06.complete', 'closed state', f.where, 'a closed file still counts as open', p)
    cx.need('close paths', n, 3)
    # with block that ends well closes
    f = cx.prog.func('file.AAFFile.__exit__')
    me = ('p', f.params[0])
    n = 0
    for p in good(cx.paths(f, assume=True, args={k: NONE for k in f.params[1:4]})):
        n += 1
        cx.check(any(e.kind == 'call' and e.name == 'close' and e.recv == me for e in p.ev) or
                 any(e.kind == 'call' and e.name in ('save', 'write_objects') for e in p.ev), 'C06.complete', 'with block', f.where, 'a with block that ends well does not save', p)
    cx.need('with block', n, 1)


def writes_table(p, me):
    return any(e.kind == 'call' and e.name == 'open' and e.args and e.args[0] == c('/referenced properties') for e in p.ev)


def objects(cx):
    """every queued object is written, and only a written one leaves the queue"""
    f = cx.prog.func('file.AAFObjectManager.write_objects')
    me = ('p', f.params[0])
    q = ('a', me, 'modified')
    n = 0
    for p in good(cx.paths(f, assume=True)):
        loops = [e for e in p.ev if e.kind == 'loop' and contains(e.a, lambda s: s == q)]
        if not loops:
            continue
        n += 1
        wr = [e for e in p.ev if e.kind == 'call' and e.name == 'write_properties']
        drop = [e for e in p.ev if e.kind == 'call' and e.name in ('pop', 'clear', 'popitem') and e.recv == q or e.kind == 'delitem' and e.a == q or
                e.kind == 'set' and e.a == me and e.b == 'modified']
        if not wr:
            tested = [e for e in p.ev if e.kind == 'assume' and contains(e.a, lambda s: s == q)]
            if drop:
                cx.bad('C06.complete', 'queued objects', f.where, 'a queued object is dropped without being written', p)
            elif not tested:
                cx.bad('C06.complete', 'queued objects', f.where, 'a queued object is not written', p)
            else:
                cx.unk('C06.complete', 'queued objects', 'not written under a condition')
        else:
            cx.ok('C06.complete', 'queued objects')
            for e in wr:
                cx.check(e.recv is not None and contains(e.recv, lambda s: s == q), 'C06.complete', 'queued objects', e.where, 'writes %s' % show(e.recv), p)
                v = e.arg(0, 'validate', TRUE)
    cx.need('object writing paths', n, 1)


def C06(cx):
    container(cx)
    aaf(cx)
    objects(cx)
