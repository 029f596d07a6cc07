"""C01 read-only files are refused before anything changes; C02 every change is scheduled"""
from .util import *
from .order import ev as fold, Unk
from ..interp import MUTATORS

STATE = ('data', 'ref', 'references', 'next_free_key', 'last_free_key', 'weakref_index', 'key_pid', 'key_size', 'stream_name')
TABLES = ('references', 'property_entries')
DIRS = ('touch', 'makedir', 'makedirs', 'create_temp_dir', 'rmtree', 'move', 'create_dir_entry')
# construction, loading, and steps that are judged where they are used
INNER = set('''__init__ __new__ decode encode read_index read_properties copy attach detach add_pid_entry remove_pid_entry
index_name object mark_modified swap_temp walk_references'''.split())


def owner(t):
    """the object a term is a property (or part of a property) of"""
    while t[0] == 'i' and t[1][0] != 'a':
        t = t[1]
    if t[0] == 'i' and t[1][0] == 'a' and t[1][2] == 'property_entries':
        return t[1][1]
    if t[0] == 'a' and t[2] in ('unique_property',):
        return t[1]
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('get', 'pop', '__getitem__'):
        x = t[1][1]
        return x[1] if x[0] == 'a' and x[2] == 'property_entries' else x
    if t[0] == 'i':
        return t[1]
    return ('a', t, 'parent')


def fresh(t):
    """made on this path"""
    while True:
        if t[0] == 'new':
            return True
        if t[0] == 'call':
            g = t[1]
            if g[0] == 'a' and g[2] in ('__class__', '__new__'):
                return True
            if g[0] == 'i' and contains(g, lambda s: s[0] in ('g', 'a') and str(s[1] if s[0] == 'g' else s[2]).endswith('property_formats')):
                return True
            if g[0] == 'a' and contains(g, lambda s: s[0] == 'a' and s[2] == 'create'):
                return True
            if g[0] == 'a' and g[2] == 'copy':
                return True
            if g[0] == 'a':
                t = g[1]
                continue
            return False
        if t[0] in ('a', 'i'):
            t = t[1]
            continue
        return False


def change(e, propcls):
    """(owner, what) when the event changes stored state of an object"""
    if e.kind == 'set' and e.b in STATE:
        if e.b == 'data' and not propcls and e.a[0] == 'p':
            return None
        return owner(e.a), e.b
    if e.kind in ('setitem', 'delitem'):
        b = e.a
        while b[0] == 'i':
            b = b[1]
        if b[0] == 'a' and b[2] in TABLES:
            return (b[1] if b[2] == 'property_entries' else owner(b[1])), b[2]
    if e.kind == 'call' and e.name in MUTATORS and e.recv is not None:
        b = e.recv
        if b[0] == 'a' and b[2] in TABLES:
            return (b[1] if b[2] == 'property_entries' else owner(b[1])), b[2]
    if e.kind == 'call' and e.name in ('add_pid_entry', 'remove_pid_entry') and e.recv is not None:
        return owner(e.recv), 'property_entries'
    return None


def ro_leaf(t):
    if t[0] == 'a' and t[2] == 'mode' or t == ('p', 'mode'):
        return ('rb',)
    if t[0] == 'a' and t[2] == 'writeable':
        return (False,)
    return None


def refused(p, i):
    """the path up to event i cannot be taken on a read-only file"""
    for e in p.ev[:i]:
        if e.kind == 'assume':
            try:
                if bool(fold(e.a, ro_leaf)) != e.b:
                    return True
            except Unk:
                pass
        if e.kind == 'call' and e.name in ('mark_modified', 'add_modified') and e.name != '' and certain(p, e):
            return True
    return False


def certain(p, e):
    """the notification raises on a read-only file (only add_modified always does)"""
    return e.name == 'add_modified'


def scheduled(p, own, i):
    """the owner is queued on this path, or known not to belong to a file"""
    for k, e in enumerate(p.ev):
        if e.kind == 'call':
            if e.name == 'mark_modified' and e.recv is not None and same(owner(e.recv), own):
                return True
            if e.name == 'add_modified' and e.args and same(e.args[0], own):
                return True
            if k > i and e.name in ('append', 'extend', 'attach', 'insert', 'add2set') and any(contains(a, lambda s: s == own) for a in e.args):
                return True
            if e.name == 'attach' and e.recv is not None and same(e.recv, own):
                return True
            # the setter or mutator of a property of the same object marks it
            f = e.func
            if f is not None and k > i and any('writeonly' in d_name(d) for d in f.decorators) and e.recv is not None and same(owner(e.recv), own):
                return True
        if e.kind == 'set' and e.b == 'value' and same(owner(e.a), own):
            return True
        if e.kind == 'assume' and detached(e, own):
            return True
    return False


def d_name(d):
    import ast
    return ast.unparse(d)


def same(a, b):
    if a == b:
        return True
    # obj.prop.parent is obj
    return a[0] == 'a' and a[2] == 'parent' and owner(a[1]) == b or b[0] == 'a' and b[2] == 'parent' and owner(b[1]) == a


def detached(e, own):
    t, v = e.a, e.b
    if t[0] == 'cmp' and t[1] in ('is', '==') and NONE in (t[2], t[3]):
        t, v = (t[2] if t[3] == NONE else t[3]), not v
    elif t[0] == 'cmp' and t[1] in ('is not', '!=') and NONE in (t[2], t[3]):
        t = t[2] if t[3] == NONE else t[3]
    if t[0] == 'a' and t[2] == 'dir' and v is False and same(t[1], own):
        return True
    if t[0] == 'a' and t[2] == 'attached' and v is False and same(('a', t[1], 'parent'), own):
        return True
    return False


def entries(cx, modules):
    """functions judged: everything but construction, loading and helpers judged where used"""
    called = {}
    for g in cx.prog.funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm:
                    called.setdefault(nm, set()).add(g.qual)
            elif isinstance(n, ast.Attribute):
                called.setdefault('.' + n.attr, set()).add(g.qual)
    for f in cx.prog.funcs:
        if f.module.name not in modules or f.name in INNER:
            continue
        if f.cls is None and f.name.startswith('add_') and f.params[:1] == ['parent']:
            continue
        if f.cls is None and f.name == 'writeonly' or isinstance(f.node, ast.Lambda):
            continue
        if f.qual not in cx.known and (called.get(f.name, set()) | called.get('.' + f.name, set())) - {f.qual} and not f.decorators:
            continue
        yield f


def touches(f, names):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names:
            return True
    return False


import ast
PROPMODS = ('properties', 'core', 'misc', 'mobs', 'mobslots', 'components', 'content', 'dictionary', 'essence', 'ama', 'file')


def kind_of_prop(f):
    return f.cls is not None and f.cls.is_subclass('Property')


def C02(cx):
    n = 0
    for f in entries(cx, PROPMODS + ('types', 'metadict')):
        if not touches(f, STATE + TABLES + ('add_pid_entry', 'remove_pid_entry', 'set_data')):
            continue
        hit = False
        try:
            ps = cx.paths(f, assume=True, inline=('setup_stream', 'add_pid_entry', 'remove_pid_entry', 'set_data'))
        except AnalysisBroken as x:
            cx.unk('C02.scheduled', f.qual, str(x))
            continue
        for p in ps:
            if p.raised:
                continue
            done = set()
            for i, e in enumerate(p.ev):
                ch = change(e, kind_of_prop(f))
                if ch is None or ch[0] in done or fresh(ch[0]) or fresh_entry(ch[0], e):
                    continue
                own, what = ch
                if what in ('weakref_index', 'key_pid', 'key_size') and not kind_of_prop(f):
                    continue
                done.add(own)
                hit = True
                cx.check(scheduled(p, own, i), 'C02.scheduled', f.qual, e.where,
                         '%s changes %s of %s and ends without queueing the object for the next save' % (f.qual, what, show(own)), p)
        n += hit
    cx.need('changing operations', n, 12)
    notification(cx)
    decorator(cx)


def fresh_entry(own, e):
    return False


def notification(cx):
    """mark_modified reaches the queue whenever the object belongs to a file"""
    f = cx.prog.func('properties.Property.mark_modified')
    me = ('p', f.params[0])
    own = ('a', me, 'parent')
    for k in [cx.prog.cls('Property')] + [k for k in cx.prog.subclasses('Property')]:
        g = k.method('mark_modified')
        if g is None:
            continue
        me = ('p', g.params[0])
        own = ('a', me, 'parent')
        for p in cx.paths(g, assume=True, selfcls=k, inline=('attached',)):
            if p.raised:
                continue
            q = any(e.kind == 'call' and e.name == 'add_modified' and e.args and e.args[0] == own for e in p.ev)
            off = any(e.kind == 'assume' and detached(e, own) for e in p.ev)
            cx.check(q or off, 'C02.notify', 'mark_modified of %s' % k.name, g.where, 'a change of an object that belongs to a file is not passed on to its manager', p)
    f = cx.prog.func('file.AAFObjectManager.add_modified')
    me, ob = ('p', f.params[0]), ('p', f.params[1])
    for mode in ('rb+', 'wb+'):
        for p in cx.paths(f, assume=True, heap={(('a', me, 'root'), 'mode'): c(mode)}, inline=('writeable',)):
            if p.raised:
                cx.bad('C02.notify', 'queue', f.where, 'queueing a changed object of a file opened %s raises' % mode, p)
                continue
            st = [e for e in p.ev if e.kind == 'setitem' and e.a == ('a', me, 'modified') and e.v == ob]
            cl = [e for e in p.ev if e.kind == 'call' and e.recv == ('a', me, 'modified') and e.name in ('setdefault', 'update')]
            cx.check(bool(st or cl), 'C02.notify', 'queue', f.where, 'the changed object is not put into the queue', p)
            for e in st:
                k = e.b
                good = k[0] == 'call' and k[1][0] == 'a' and k[1][2] == 'path' and k[1][1] == ('a', ob, 'dir')
                cx.check(good, 'C02.notify', 'queue key', e.where, 'queued under %s, not under its own path' % show(k), p)
            # a live object must be what the next read of its path gives
            up = any(e.kind == 'setitem' and e.a == me and e.v == ob for e in p.ev) or \
                any(e.kind == 'setitem' and e.a == ('a', me, 'path_cache') and e.v == ob for e in p.ev) or \
                any(e.kind == 'call' and e.name == '__setitem__' and e.recv == me for e in p.ev)
            cx.check(up, 'C02.notify', 'queue cache', f.where, 'the changed object is queued but a later read of its path makes another object', p)


def decorator(cx):
    """the guard of mutators runs them and notifies"""
    f = cx.prog.func('properties.Property.add_pid_entry')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        put = any(e.kind == 'setitem' and ends(e.a, 'parent', 'property_entries') and e.v == me and e.b == ('a', me, 'pid') for e in p.ev)
        sd = any(e.kind == 'call' and e.name == 'setdefault' and ends(e.recv, 'parent', 'property_entries') and e.args == (('a', me, 'pid'), me) for e in p.ev)
        there = any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'in' and e.b is True and ends(e.a[3], 'parent', 'property_entries') or
                    e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'not in' and e.b is False and ends(e.a[3], 'parent', 'property_entries') for e in p.ev)
        cx.check(put or there or sd, 'C02.entry', 'add_pid_entry', f.where, 'a new property is not put into the table of its object', p)
    # setting a value of a property that is not in the table yet enters it
    for k in cx.prog.subclasses('Property'):
        for nm in ('extend', 'insert', 'value'):
            g = k.methods.get(nm) if nm != 'value' else k.setters.get(nm)
            if g is None or g.qual not in cx.known:
                continue
            bad = None
            n = 0
            for p in cx.paths(g, assume=True):
                if p.raised:
                    continue
                none = any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('is', '==') and e.a[2][0] == 'p' and e.a[3] == NONE and e.b is True for e in p.ev)
                if none:
                    continue
                n += 1
                m = ('p', g.params[0])
                put = any(e.kind == 'setitem' and ends(e.a, 'parent', 'property_entries') for e in p.ev) or \
                    any(e.kind == 'call' and e.name in ('add_pid_entry', 'extend', 'set_data', 'setdefault') and e.recv is not None and (e.recv == m or has_attr(e.recv, 'property_entries')) for e in p.ev) or \
                    any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('in', 'not in') and e.b is (e.a[1] == 'in') and ends(e.a[3], 'parent', 'property_entries') for e in p.ev)
                if not put:
                    bad = bad or p
            if n:
                cx.check(bad is None, 'C02.entry', g.qual, g.where, 'a value is set without entering the property into its object', bad)


# ---------------------------------------------------------------------------- C01

def C01(cx):
    refuse(cx)
    queue(cx)
    container(cx)
    opening(cx)


def refuse(cx):
    n = 0
    for f in entries(cx, PROPMODS):
        if f.module.name == 'file' or f.name == 'add2set':
            continue
        if not touches(f, STATE + TABLES + DIRS + ('add_pid_entry', 'remove_pid_entry', 'detach', 'set_data')):
            continue
        if f.module.name not in ('properties', 'core', 'misc'):
            if not touches(f, STATE + TABLES + ('set_data',)):
                continue
        try:
            ps = cx.paths(f, assume=True, inline=('setup_stream', 'add_pid_entry', 'remove_pid_entry', 'set_data'))
        except AnalysisBroken as x:
            cx.unk('C01.refuse', f.qual, str(x))
            continue
        hit = False
        for p in ps:
            for i, e in enumerate(p.ev):
                ch = change(e, kind_of_prop(f))
                what = None
                if ch is not None and not fresh(ch[0]):
                    what = 'changes %s' % ch[1]
                    if ch[1] in ('weakref_index', 'key_pid', 'key_size') and not kind_of_prop(f):
                        continue
                elif e.kind == 'call' and f.module.name == 'properties' and e.name in DIRS:
                    what = 'calls %s' % e.name
                elif e.kind == 'call' and e.name == 'detach' and f.module.name == 'properties' and e.recv is not None:
                    what = 'detaches %s' % show(e.recv)
                if what is None:
                    continue
                hit = True
                cx.check(refused(p, i), 'C01.refuse', f.qual, e.where, '%s %s before a read-only file is refused' % (f.qual, what), p)
                break
        n += hit
    cx.need('refusing operations', n, 10)
    # the test itself
    for k in [cx.prog.cls('Property')] + list(cx.prog.subclasses('Property')):
        g = k.getters.get('writeable')
        if g is None:
            continue
        me = ('p', g.params[0])
        for mode, want in (('rb', False), ('rb+', True), ('wb+', True)):
            for p in cx.paths(g, heap={(('a', ('a', me, 'parent'), 'root'), 'mode'): c(mode)}, inline=('writeable',), assume=True):
                if p.raised:
                    continue
                v = p.ret
                try:
                    r = bool(fold(v, lambda t: ((mode,) if t[0] == 'a' and t[2] == 'mode' else (mode != 'rb',) if t[0] == 'a' and t[2] == 'writeable' else None)))
                except Unk:
                    cx.unk('C01.test', g.qual, show(v))
                    continue
                cx.check(r == want, 'C01.test', g.qual, g.where, 'a file opened %s counts as %s' % (mode, 'writable' if r else 'read only'), p)


def queue(cx):
    f = cx.prog.func('file.AAFObjectManager.add_modified')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True, heap={(('a', me, 'root'), 'mode'): c('rb')}, inline=('writeable',)):
        ch = [e for e in p.ev if e.kind == 'setitem' or e.kind == 'call' and e.name in MUTATORS]
        cx.check(p.raised, 'C01.queue', 'add_modified', f.where, 'an object of a read-only file is queued for saving', p)
        if ch:
            cx.bad('C01.queue', 'add_modified', ch[0].where, 'the queue changes before the refusal', p)


def writes_event(e):
    if e.kind == 'call':
        if e.recv is not None and ends(e.recv, 'f') and e.name in ('write', 'truncate', 'writelines'):
            return 'the file is %s' % ('written' if e.name != 'truncate' else 'cut')
        if e.name.startswith('write_') or e.name in ('truncate', 'setup_empty', 'register_extensions', 'write'):
            return '%s runs' % e.name
    if e.kind == 'set' and e.b in ('byte_size', 'sector_id', 'class_id', 'name'):
        return '%s is changed' % e.b
    return None


def container(cx):
    K = cx.prog.cls('CompoundFileBinary')
    f = cx.prog.func('cfb.CompoundFileBinary.close')
    me = ('p', f.params[0])
    n = 0
    for mode in ('r', 'rb'):
        for p in cx.paths(f, assume=True, heap={(me, 'mode'): c(mode)}, selfcls=K):
            n += 1
            w = [(e, writes_event(e)) for e in p.ev if writes_event(e)]
            cx.check(not w, 'C01.close', 'container close', w[0][0].where if w else f.where, 'closing a container opened %s: %s' % (mode, w[0][1] if w else ''), p)
    cx.need('read-only container close', n, 2)
    f = cx.prog.func('cfb.DirEntry.mark_modified')
    me = ('p', f.params[0])
    for mode in ('r', 'rb'):
        for p in cx.paths(f, assume=True, heap={(('a', me, 'storage'), 'mode'): c(mode)}):
            ch = [e for e in p.ev if e.kind == 'setitem' or e.kind == 'call']
            cx.check(not ch, 'C01.close', 'changed directory entries', ch[0].where if ch else f.where, 'a directory entry of a container opened %s is queued for writing' % mode, p)
    f = cx.prog.func('cfb.CompoundFileBinary.__init__')
    me = ('p', f.params[0])
    n = 0
    for mode in ('r', 'rb'):
        args = {f.params[2]: c(mode)}
        for p in cx.paths(f, assume=True, args=args):
            if any(e.kind == 'assume' and e.b is True and e.a[0] == 'call' and e.a[1] == ('b', 'isinstance') for e in p.ev):
                continue        # a memory file, always writable
            n += 1
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'mode']
            if not st:
                cx.unk('C01.open', 'container mode', 'not found')
            elif is_c(st[-1].v):
                cx.check(cval(st[-1].v) in ('r', 'rb'), 'C01.open', 'container mode', st[-1].where, 'a container opened %s works in mode %s' % (mode, cval(st[-1].v)), p)
            w = [(e, writes_event(e)) for e in p.ev if writes_event(e) and e.kind == 'call']
            cx.check(not w, 'C01.open', 'container open', w[0][0].where if w else f.where, 'opening a container %s: %s' % (mode, w[0][1] if w else ''), p)
    cx.need('read-only container open', n, 2)
    # the manager's scratch storage goes away without writing
    for q in ('file.AAFFile.save', 'file.AAFFile.close'):
        f = cx.prog.func(q)
        me = ('p', f.params[0])
        for p in cx.paths(f, assume=True, heap={(me, 'mode'): c('rb')}, inline=('writeable', 'save')):
            w = [(e, writes_event(e)) for e in p.ev if writes_event(e)]
            cx.check(not w, 'C01.close', q, w[0][0].where if w else f.where, '%s of a read-only file: %s' % (f.name, w[0][1] if w else ''), p)


def opening(cx):
    f = cx.prog.func('file.AAFFile.__init__')
    me = ('p', f.params[0])
    names = f.params
    n = 0
    cases = [('r', True), ('rb', True), (None, True), ('rb+', False), ('r+', False), ('rw', False), ('w', False), ('wb+', False)]
    for mode, ro in cases:
        if mode is None:
            d = f.node.args.defaults
            mode = dict(zip(names[len(names) - len(d):], d)).get('mode')
            mode = mode.value if isinstance(mode, ast.Constant) else None
            if mode not in ('r', 'rb'):
                cx.bad('C01.open', 'default mode', f.where, 'a file opened without a mode is opened %r' % mode)
                continue
            cx.ok('C01.open', 'default mode')
        for p in cx.paths(f, assume=True, args={'mode': c(mode), 'path': ('p', 'path')}, inline=('writeable',), facts={('cmp', 'is', ('p', 'path'), NONE): False}):
            if p.raised or any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[2] == ('p', 'path') and e.a[3] == NONE and (e.b is True) == (e.a[1] in ('is', '==')) for e in p.ev):
                continue
            op = [e for e in p.ev if e.kind == 'call' and e.name.split('.')[-1] in ('open',) and (e.recv is None or e.recv[0] in ('ext', 'mod')) and e.args and e.args[0] == ('p', 'path')]
            for e in op:
                m = e.arg(1, 'mode', c('r'))
                if is_c(m) and isinstance(cval(m), str):
                    n += 1
                    if ro:
                        cx.check(not set(cval(m)) & set('wa+x'), 'C01.open', 'file handle', e.where, 'mode %s opens the file %s' % (mode, cval(m)), p)
                    if not mode.startswith('w'):
                        cx.check('w' not in cval(m), 'C01.open', 'file contents', e.where, 'mode %s empties the file' % mode, p)
            if ro:
                w = [(e, writes_event(e)) for e in p.ev if e.kind == 'call' and writes_event(e)]
                cx.check(not w, 'C01.open', 'opening writes nothing', w[0][0].where if w else f.where, 'opening a file %s: %s' % (mode, w[0][1] if w else ''), p)
                nw = [e for e in p.ev if e.kind == 'new' and e.name == 'CompoundFileBinary']
                for e in nw:
                    m = e.arg(1, 'mode', c('rb'))
                    if is_c(m):
                        cx.check(cval(m) in ('r', 'rb'), 'C01.open', 'container of the file', e.where, 'a file opened %s has a container opened %s' % (mode, cval(m)), p)
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'mode']
            if st and is_c(st[-1].v):
                v = cval(st[-1].v)
                cx.check((v == 'rb') == ro, 'C01.open', 'file mode', st[-1].where, 'a file opened %s works in mode %s' % (mode, v), p)
    cx.need('modes of opening', n, 3)
    # what counts as writable is exactly what is not read only
    g = cx.prog.cls('AAFFile').getters.get('writeable')
    if g is not None:
        me = ('p', g.params[0])
        for mode in ('rb', 'rb+', 'wb+'):
            for p in cx.paths(g, heap={(me, 'mode'): c(mode)}, assume=True):
                if not p.raised and is_c(p.ret):
                    cx.check(bool(cval(p.ret)) == (mode != 'rb'), 'C01.test', g.qual, g.where, 'a file opened %s counts as %s' % (mode, 'writable' if cval(p.ret) else 'read only'), p)
