"""C20 failed sessions, C21 the weak reference table, C24 unknown, abstract and incomplete objects"""
import ast
from .util import *
from ..interp import MUTATORS
from .order import ev as fold, Unk


def good(ps):
    return [p for p in ps if not p.raised]


def callers(prog):
    """name -> functions calling something of that name"""
    out = {}
    for g in prog.funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm:
                    out.setdefault(nm, set()).add(g.qual)
    return out


# ---------------------------------------------------------------------------- C20

SAVES = ('save', 'write_objects', 'write_properties', 'write_reference_properties')


def C20(cx):
    f = cx.prog.func('file.AAFFile.__exit__')
    me = ('p', f.params[0])
    n = 0
    exc = {k: c('an exception') for k in f.params[1:4]}
    cases_ = [dict((k, ('new', 'Exception', ())) for k in f.params[1:4]), None]
    for args in cases_:
        for p in cx.paths(f, assume=True, calls_raise=True, args=args):
            if args is None and not failing(p, f):
                continue
            if args is not None and not feasible(p, args):
                continue
            n += 1
            sv = [e for e in p.ev if e.kind == 'call' and (e.name in SAVES or e.name == 'close' and e.recv == me)]
            cx.check(not sv, 'C20.nosave', 'failed with block', sv[0].where if sv else f.where, 'a with block that failed runs %s, which writes the pending changes' % (sv[0].name if sv else ''), p)
            fc = [e for e in p.ev if e.kind == 'call' and e.name == 'close' and e.recv == ('a', me, 'f')]
            cx.check(bool(fc), 'C20.handle', 'failed with block', f.where, 'a with block that failed can end with the file handle open', p)
            op = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'is_open']
            cx.check(bool(op) and op[-1].v == FALSE, 'C20.state', 'failed with block', f.where, 'the file still counts as open after a with block failed, so a later save is not refused', p)
            if not p.raised:
                v = p.ret
                cx.check(v is None or not (is_c(v) and bool(cval(v))), 'C20.error', 'failed with block', f.where, 'the error of the with block is swallowed', p)
    cx.need('failing with block paths', n, 2)
    # refusals
    f = cx.prog.func('file.AAFFile.save')
    me = ('p', f.params[0])
    n = 0
    for mode in ('wb+', 'rb+'):
        for p in cx.paths(f, assume=True, heap={(me, 'mode'): c(mode), (me, 'is_open'): FALSE}, inline=('writeable',)):
            n += 1
            cx.check(p.raised, 'C20.refuse', 'save of a closed file', f.where, 'saving a closed file (mode %s) is not refused' % mode, p)
            w = [e for e in p.ev if e.kind == 'call' and e.name in SAVES]
            cx.check(not w, 'C20.refuse', 'save of a closed file', w[0].where if w else f.where, 'saving a closed file runs %s before it is refused' % (w[0].name if w else ''), p)
    cx.need('closed save paths', n, 1)
    f = cx.prog.func('file.AAFFile.close')
    me = ('p', f.params[0])
    for mode in ('wb+', 'rb+', 'rb'):
        for p in good(cx.paths(f, assume=True, heap={(me, 'mode'): c(mode)}, inline=('writeable',))):
            op = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'is_open']
            cx.check(bool(op) and op[-1].v == FALSE, 'C20.state', 'closed file', f.where, 'a closed file (mode %s) still counts as open' % mode, p)
    # a file that fails to open is closed
    f = cx.prog.func('file.AAFFile.__init__')
    # a failed object stays queued
    f = cx.prog.func('file.AAFObjectManager.write_objects')
    me = ('p', f.params[0])
    q = ('a', me, 'modified')
    n = 0
    for p in cx.paths(f, assume=True, calls_raise=True):
        done = []
        bad = None
        loops = 0
        for e in p.ev:
            if e.kind == 'call' and e.name == 'write_properties' and e.recv is not None:
                done.append(e.recv)
            if e.kind == 'loop' and contains(e.a, lambda s: s == q):
                loops += 1
            if e.kind == 'call' and e.recv == q and e.name == 'pop' or e.kind == 'delitem' and e.a == q:
                k = e.args[0] if e.kind == 'call' else e.b
                if not any(contains(d, lambda s: s == k) for d in done) and not is_c(k):
                    bad = bad or (e, 'leaves the queue before it was written')
            elif e.kind == 'call' and e.recv == q and e.name in ('clear', 'popitem') or e.kind == 'set' and e.a == me and e.b == 'modified':
                if e.kind == 'call' and e.name == 'popitem' and not done:
                    bad = bad or (e, 'leaves the queue before it was written')
                elif p.raised or len(done) < loops:
                    bad = bad or (e, 'leaves the queue although writing failed')
        n += 1
        cx.check(bad is None, 'C20.queue', 'objects that failed to be written', bad[0].where if bad else f.where, 'an object %s' % (bad[1] if bad else ''), p)
    cx.need('object writing paths', n, 2)
    keep = queue_drops(cx)


def queue_drops(cx):
    """the queue is emptied only by writing and by objects that leave the file"""
    for f in cx.prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.qual in ('file.AAFObjectManager.write_objects', 'file.AAFObjectManager.__init__', 'file.AAFObjectManager.pop'):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == 'modified' for n in ast.walk(f.node)):
            continue
        if f.module.name == 'cfb' or f.qual not in cx.known:
            continue
        for p in cx.paths(f, assume=True):
            for e in p.ev:
                d = e.kind == 'call' and e.recv is not None and ends(e.recv, 'modified') and e.name in ('clear', 'pop', 'popitem') or \
                    e.kind == 'delitem' and ends(e.a, 'modified') or e.kind == 'set' and e.b == 'modified'
                if d:
                    cx.bad('C20.queue', f.qual, e.where, 'objects leave the queue without being written', p)
        cx.ok('C20.queue', f.qual)


def failing(p, f):
    """the path knows that an exception came in"""
    for e in p.ev:
        if e.kind == 'assume':
            t, v = e.a, e.b
            ps = [('p', k) for k in f.params[1:4]]
            if t[0] == 'cmp' and t[1] in ('is', '==') and t[2] in ps and t[3] == NONE and v is False:
                return True
            if t[0] == 'cmp' and t[1] in ('is not', '!=') and t[2] in ps and t[3] == NONE and v is True:
                return True
            if t in ps and v is True:
                return True
    return False


def feasible(p, args):
    """tests on a given exception are not taken the other way"""
    for e in p.ev:
        if e.kind == 'assume':
            t, v = e.a, e.b
            if t[0] == 'cmp' and t[1] in ('is', '==') and t[2][0] == 'new' and t[3] == NONE and v is True:
                return False
            if t[0] == 'cmp' and t[1] in ('is not', '!=') and t[2][0] == 'new' and t[3] == NONE and v is False:
                return False
            if t[0] == 'new' and v is False:
                return False
    return True


# ---------------------------------------------------------------------------- C21

LOADING = ('read_reference_properties', 'load', '__init__', 'setup_empty')


def C21(cx):
    index(cx)
    table(cx)
    stores(cx)
    resolve(cx)
    written(cx)


def index(cx):
    f = cx.prog.func('file.AAFFile.weakref_index')
    me, pp = ('p', f.params[0]), ('p', f.params[1])
    tb = ('a', me, 'weakref_table')
    size = ('call', ('b', 'len'), (tb,), (), 0)
    n = 0
    for p in good(cx.paths(f, assume=True, getitem=True)):
        ch = [e for e in p.ev if e.kind == 'call' and e.recv == tb and e.name in MUTATORS or e.kind in ('setitem', 'delitem') and e.a == tb or e.kind == 'set' and e.b == 'weakref_table']
        app = [e for e in ch if e.kind == 'call' and e.name == 'append']
        other = [e for e in ch if e not in app]
        for e in other:
            cx.bad('C21.append', 'weak reference table', e.where, 'the table is changed other than at its end (%s)' % (e.name or e.kind), p)
        n += 1
        ret = p.ret
        there = member(p, pp, tb, True)
        miss = member(p, pp, tb, False) or searched(p, tb)
        if app:
            cx.check(len(app) == 1 and norm_path(app[0].args[0]) == pp, 'C21.append', 'new target path', app[0].where, 'adds %s' % [show(e.args[0]) for e in app], p)
            if there is True and not searched(p, tb):
                cx.bad('C21.shared', 'known target path', app[0].where, 'a path that is in the table is added again', p)
            elif not miss and not there:
                cx.bad('C21.shared', 'known target path', app[0].where, 'a path is added without looking whether it is in the table', p)
            i = p.ev.index(app[0])
            # number of the appended entry
            k = late(p, ret, app[0], i)
            if k is None:
                cx.unk('C21.number', 'number of a new path', show(ret))
            else:
                cx.check(k, 'C21.number', 'number of a new path', f.where, 'returns %s for the path that was added last' % show(ret), p)
        else:
            r = known_number(p, ret, tb, pp)
            if r is None:
                cx.unk('C21.number', 'number of a known path', show(ret))
            else:
                cx.check(r, 'C21.number', 'number of a known path', f.where, 'returns %s, not the position of the path in the table' % show(ret), p)
    cx.need('weak reference numbers', n, 1)


def norm_path(t):
    if t[0] == 'call' and t[1] in (('b', 'list'), ('b', 'tuple')) and len(t[2]) == 1:
        return t[2][0]
    return t


def member(p, x, tb, want):
    for e in p.ev:
        if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('in', 'not in') and norm_path(e.a[2]) == x and contains(e.a[3], lambda s: s == tb):
            if (e.b == (e.a[1] == 'in')) == want:
                return True
    return None


def searched(p, tb):
    """the path went through the table or asked it for the position"""
    return any(e.kind == 'iter' and contains(e.a, lambda s: s == tb) for e in p.ev) or any(e.kind == 'except' for e in p.ev) or \
        any(e.kind == 'assume' and contains(e.a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'index', 'count') and contains(s, lambda u: u == tb)) for e in p.ev) or \
        any(e.kind == 'assume' and contains(e.a, lambda s: s[0] in ('idx', 'elem', 'nth') and contains(s, lambda u: u == tb)) for e in p.ev)


def late(p, ret, app, i):
    """the returned term is the number of the entry added by app"""
    tb = app.recv
    ln = [s for s in subterms(ret) if s[0] == 'call' and s[1] == ('b', 'len') and s[2] == (tb,)]
    if not ln:
        # position asked from the table afterwards
        if ret[0] == 'call' and ret[1] == ('a', tb, 'index'):
            return True
        if is_c(ret):
            return False
        return None
    pos = [k for k, e in enumerate(p.ev) if e.kind == 'len' and e.a == tb]
    if not pos or min(pos) < i < max(pos):
        return None
    before = max(pos) < i
    d = poly(norm(('bin', '-', ret, ln[0])))
    if d == {} or norm(('bin', '-', ret, ln[0])) == c(0):
        off = 0
    else:
        q = norm(('bin', '-', ret, ln[0]))
        if not is_c(q):
            return None
        off = cval(q)
    return off == (0 if before else -1)


def known_number(p, ret, tb, pp):
    if ret is None or ret == NONE:
        return False
    if ret[0] == 'call' and ret[1] == ('a', tb, 'index'):
        return len(ret[2]) >= 1 and norm_path(ret[2][0]) == pp
    if ret[0] == 'idx' and ret[1] == tb:
        return True
    if contains(ret, lambda s: s[0] == 'call' and s[1] == ('a', tb, 'index') or s[0] == 'idx' and s[1] == tb):
        if ret[0] == 'bin' and ret[1] in ('+', '-') and (is_c(ret[2]) and cval(ret[2]) != 0 or is_c(ret[3]) and cval(ret[3]) != 0):
            return False
    if contains(ret, lambda s: s[0] == 'call' and s[1] == ('b', 'len')):
        return False if ret[0] == 'call' and ret[1] == ('b', 'len') else None
    return None


def table(cx):
    """who changes the table"""
    cs = callers(cx.prog)
    for f in cx.prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.name == 'weakref_index':
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == 'weakref_table' for n in ast.walk(f.node)):
            continue
        loading = f.name in LOADING or f.qual not in cx.known
        try:
            ps = cx.paths(f, assume=True)
        except AnalysisBroken as x:
            cx.unk('C21.append', f.qual, str(x))
            continue
        for p in ps:
            for e in p.ev:
                w = None
                if e.kind == 'call' and e.recv is not None and ends(e.recv, 'weakref_table') and e.name in MUTATORS:
                    w = e.name
                    if loading and w == 'append':
                        w = None
                elif e.kind in ('setitem', 'delitem') and ends(e.a, 'weakref_table'):
                    w = 'an item is replaced'
                elif e.kind == 'set' and e.b == 'weakref_table' and not loading:
                    w = 'the table is replaced'
                if w:
                    cx.bad('C21.append', f.qual, e.where, 'the table of weak reference targets is changed outside its one place: %s' % w, p)
        cx.ok('C21.append', f.qual)


def stores(cx):
    """every stored number comes from the table of the own file, or from the same file"""
    n = 0
    for f in cx.prog.funcs:
        if isinstance(f.node, ast.Lambda) or f.module.name == 'file':
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr == 'weakref_index' and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for i, e in enumerate(p.ev):
                if e.kind != 'set' or e.b != 'weakref_index' or e.v == NONE:
                    continue
                n += 1
                v = e.v
                name = '%s %s' % (f.qual, show(e.a)[:40])
                if v[0] == 'call' and v[1][0] == 'a' and v[1][2] == 'weakref_index':
                    root = v[1][1]
                    want = root_of(e.a)
                    mine = root == ('a', ('a', e.a, 'parent'), 'root') or root in want or same_root(cx, p, root, e.a, f)
                    if mine:
                        cx.ok('C21.own', name)
                    elif foreign(root, e.a, f):
                        cx.bad('C21.own', name, e.where, 'the number comes from the table of another file (%s)' % show(root), p)
                    else:
                        cx.unk('C21.own', name, show(root))
                    arg = v[2][0]
                    if arg[0] == 'tuple' or arg[0] == 'call' and arg[1] == ('b', 'tuple'):
                        cx.check(norms(cx), 'C21.shared', name, e.where, 'the path is given as a tuple, which never equals a path read from the file', p)
                elif v[0] == 'a' and v[2] == 'weakref_index':
                    src = v[1]
                    if src == e.a or is_same_file(p, i, src, f):
                        cx.ok('C21.own', name)
                    else:
                        cx.bad('C21.own', name, e.where, 'the number of another file is stored (%s)' % show(v), p)
                elif is_c(v):
                    cx.bad('C21.own', name, e.where, 'a fixed number is stored', p)
                else:
                    cx.ok('C21.own', name)
    cx.need('stored weak reference numbers', n, 5)
    # the types say where their targets live
    for k in [x for ks in cx.prog.classes.values() for x in ks]:
        g = k.getters.get('pid_path')
        if g is None or k.module.name == 'properties':
            continue
        for p in good(cx.paths(g, assume=True)):
            if p.ret is None:
                continue
            t = p.ret
            if t[0] == 'tuple' or t[0] == 'call' and t[1] == ('b', 'tuple'):
                cx.check(norms(cx), 'C21.shared', g.qual, g.where, 'the path is a tuple, which never equals a path read from the file', p)
            else:
                cx.ok('C21.shared', g.qual)


def norms(cx):
    """the table compares paths independent of their sequence type"""
    f = cx.prog.func('file.AAFFile.weakref_index')
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple') for n in ast.walk(f.node))


def root_of(t):
    if t[0] == 'new':
        args = t[2] if len(t) > 2 else ()
        return [('a', a, 'root') for a in args if isinstance(a, tuple)]
    if t[0] == 'call':
        return [('a', a, 'root') for a in t[2] if isinstance(a, tuple)]
    return []


def same_root(cx, p, root, prop, f):
    # parent given to the constructor of the property
    if root[0] == 'a' and root[2] == 'root' and root[1] == ('p', 'parent'):
        return True
    return False


def foreign(root, prop, f):
    return root == ('a', ('a', ('p', f.params[0]), 'parent'), 'root') and prop != ('p', f.params[0])


def is_same_file(p, i, src, f):
    """a test on this path says both sides belong to one file"""
    for e in p.ev[:i]:
        if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('is', '==', 'is not', '!='):
            l, r = e.a[2], e.a[3]
            if l[0] == 'a' and l[2] == 'root' and r[0] == 'a' and r[2] == 'root':
                return e.b == (e.a[1] in ('is', '=='))
    return False


def resolve(cx):
    f = cx.prog.func('file.AAFFile.weakref_prop')
    me, ix = ('p', f.params[0]), ('p', f.params[1])
    tb = ('a', me, 'weakref_table')
    n = 0
    for p in cx.paths(f, assume=True):
        used = set()
        ts = [e.v for e in p.ev if isinstance(e.v, tuple)] + [e.a for e in p.ev if isinstance(e.a, tuple)] + ([p.ret] if p.ret is not None else [])
        for t in ts:
            for s in subterms(t):
                if s[0] == 'i' and s[1] == tb:
                    used.add(s[2])
        for u in used:
            n += 1
            cx.check(u == ix, 'C21.resolve', 'entry a number denotes', f.where, 'number %s is looked up as %s' % (show(ix), show(u)), p)
    cx.need('weak reference lookups', n, 1)


def written(cx):
    f = cx.prog.func('file.AAFFile.write_reference_properties')
    me = ('p', f.params[0])
    tb = ('a', me, 'weakref_table')
    n = 0
    for p in good(cx.paths(f, assume=True)):
        for e in p.ev:
            if e.kind in ('iter', 'loop', 'compiter') and contains(e.a, lambda s: s == tb) and e.a != tb:
                t = e.a
                if t[0] == 'call' and t[1][0] == 'b' and t[1][1] in ('sorted', 'reversed', 'set', 'frozenset'):
                    cx.bad('C21.written', 'order of the table', e.where, 'the table is written in another order (%s)' % show(t), p)
                elif t[0] == 'i' and t[1] == tb and t[2][0] == 'slice':
                    cx.bad('C21.written', 'order of the table', e.where, 'only a part of the table is written (%s)' % show(t), p)
        loops = [e for e in p.ev if e.kind == 'loop' and contains(e.a, lambda s: s == tb)]
        n += len(loops)
        # inside the writing loop nothing is left out
        for i, e in enumerate(p.ev):
            if e.kind == 'loop' and e.a == tb:
                nxt = [x for x in p.ev[i + 1:]]
                for x in nxt:
                    if x.kind in ('loopexit',):
                        break
                    if x.kind == 'assume' and contains(x.a, lambda s: s[0] in ('elem', 'nth', 'i', 'idx') and contains(s, lambda u: u == tb)) and not contains(x.a, lambda s: s[0] == 'call' and s[1] == ('b', 'len')):
                        cx.unk('C21.written', 'whole table', 'depends on a test on the entry')
        cx.ok('C21.written', 'order of the table')
    cx.need('loops over the weak reference table', n, 1)
    f = cx.prog.func('file.AAFFile.save')
    me = ('p', f.params[0])
    for mode in ('wb+', 'rb+'):
        for p in good(cx.paths(f, assume=True, heap={(me, 'mode'): c(mode), (me, 'is_open'): TRUE}, inline=('writeable',))):
            got = any(e.kind == 'call' and (e.name == 'write_reference_properties' or e.name == 'open' and e.args and e.args[0] == c('/referenced properties')) for e in p.ev)
            cx.check(got, 'C21.written', 'saved table', f.where, 'a save in mode %s does not write the table' % mode, p)


# ---------------------------------------------------------------------------- C24

def C24(cx):
    factory(cx)
    required(cx)
    checked(cx)
    chain(cx)


def is_lookup(t, names):
    return t[0] == 'call' and t[1][0] == 'a' and t[1][2] in names


def factory(cx):
    f = cx.prog.func('file.AAFFactory.from_name')
    me = ('p', f.params[0])
    nm = ('p', f.params[1])
    n = 0
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        n += 1
        cd = [e.v for e in p.ev if e.kind == 'call' and is_lookup(e.v, ('lookup_classdef',))]
        conc = [e for e in p.ev if e.kind == 'assume' and contains(e.a, lambda s: s[0] == 'a' and s[2] == 'concrete')]
        yes = [e for e in conc if e.a[0] == 'a' and e.b is True or e.a[0] == 'cmp' and truth(e) is True]
        if any(e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('is', '==') and e.a[3] == NONE and e.b is True and is_lookup(e.a[2], ('lookup_classdef',)) or
               e.kind == 'assume' and is_lookup(e.a, ('lookup_classdef',)) and e.b is False for e in p.ev):
            cx.bad('C24.unknown', 'creation by name', f.where, 'an object of a class the file does not know is created', p)
            continue
        if conc and not yes:
            cx.bad('C24.abstract', 'creation by name', f.where, 'an object of an abstract class is created', p)
            continue
        cx.check(bool(conc), 'C24.abstract', 'creation by name', f.where, 'an object is created without asking whether its class can be instantiated', p)
        cx.ok('C24.unknown', 'creation by name')
        for t in cd:
            if t[2]:
                cx.check(t[2][0] == nm, 'C24.class', 'definition of the created object', f.where, 'the definition looked up is %s' % show(t[2][0]), p)
        lc = [e.v for e in p.ev if e.kind == 'call' and is_lookup(e.v, ('lookup_class',))]
        for t in lc:
            a = t[2][0]
            ok_ = a == nm or contains(a, lambda s: s in cd)
            cx.check(ok_, 'C24.class', 'class of the created object', f.where, 'the class looked up is %s' % show(a), p)
        if p.ret is None or p.ret == NONE:
            cx.bad('C24.class', 'created object', f.where, 'nothing is returned', p)
            continue
        # generic objects know what they are
        plain = [e for e in p.ev if e.kind == 'assume' and e.a[0] == 'cmp' and contains(e.a, lambda s: s == ('g', 'core.AAFObject') or s[0] == 'g' and s[1].endswith('AAFObject'))]
        isplain = [e for e in plain if e.b == (e.a[1] in ('is', '=='))]
        st = [e for e in p.ev if e.kind == 'set' and e.b == 'class_id' and e.a == p.ret]
        if isplain or not plain:
            cx.check(bool(st) or not isplain and bool(st) or (not plain and not lc), 'C24.class', 'class id of a generic object', f.where, 'an object without a class of its own does not get the id of its class definition', p)
        for e in st:
            good_ = e.v[0] == 'a' and e.v[2] in ('auid',) and e.v[1] in cd
            cx.check(good_, 'C24.class', 'class id of a generic object', e.where, 'gets %s as class id' % show(e.v), p)
        rt = [e for e in p.ev if e.kind == 'set' and e.b == 'root' and e.a == p.ret]
        for e in rt:
            cx.check(e.v == ('a', me, 'root'), 'C24.class', 'file of the created object', e.where, 'belongs to %s' % show(e.v), p)
    cx.need('creation paths', n, 1)
    # attribute access makes the class of that name
    g = cx.prog.func('file.AAFFactory.__getattr__')
    for h in closures(g):
        for x in ast.walk(h):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'from_name':
                a = x.args[0] if x.args else None
                okk = isinstance(a, ast.Name) and a.id == g.params[1]
                if isinstance(a, ast.Name) and not okk:
                    # a local copy of the name
                    okk = any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == a.id and
                              isinstance(s.value, ast.Name) and s.value.id == g.params[1] for s in ast.walk(g.node))
                    if not okk:
                        cx.unk('C24.class', 'creation by attribute', ast.unparse(x))
                        continue
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == g.params[0]:
                    cx.bad('C24.class', 'creation by attribute', '%s:%d' % (g.module.rel, x.lineno), 'the name of the class is kept in the factory (%s), where another creation replaces it' % ast.unparse(a))
                    continue
                if okk:
                    cx.ok('C24.class', 'creation by attribute')
                else:
                    cx.unk('C24.class', 'creation by attribute', ast.unparse(x))


def closures(g):
    return [g.node]


def truth(e):
    """truth of an attribute decided by a comparison with a constant"""
    t = e.a
    if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!=') and is_c(t[3]) and isinstance(cval(t[3]), bool):
        return (cval(t[3]) == e.b) if t[1] in ('is', '==') else (cval(t[3]) != e.b)
    return None


STORED_ELSEWHERE = {'ObjClass'}


def required(cx):
    f = cx.prog.func('core.AAFObject.validate')
    me = ('p', f.params[0])
    n = 0
    hit = 0
    for p in cx.paths(f, assume=True):
        its = [e for e in p.ev if e.kind == 'iter' and contains(e.a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('all_propertydefs',) or s[0] == 'a' and s[2] == 'propertydefs')]
        its = [e for e in its if plain(e.a)]
        if not its and any(e.kind == 'compiter' for e in p.ev):
            cx.unk('C24.required', 'examined properties', 'a comprehension')
            n += 3
            hit += p.raised
            continue
        if not its:
            if not p.raised and not any(e.kind == 'compiter' for e in p.ev):
                gone = [e for e in p.ev if e.kind == 'assume']
                if gone:
                    cx.unk('C24.required', 'examined properties', 'not examined when %s' % show(gone[0].a)[:80])
                else:
                    cx.bad('C24.required', 'examined properties', f.where, 'an object is accepted without looking at the properties of its class', p)
            continue
        it = its[0]
        own = it.a[0] == 'a' and it.a[2] == 'propertydefs'
        cx.check(not own, 'C24.chain', 'examined properties', it.where, 'only the properties of the class itself are examined, not those it inherits', p)
        if is_lookup(it.a, ('all_propertydefs',)):
            cx.check(it.a[1][1] == ('a', me, 'classdef'), 'C24.required', 'examined properties', it.where, 'examines %s' % show(it.a), p)
        i = p.ev.index(it)
        if not any(e.kind == 'loop' and e.a == it.a for e in p.ev[i:]):
            cx.check(not p.raised, 'C24.required', 'complete object', f.where, 'an object without required properties is refused', p)
            continue
        n += 1
        body = []
        for e in p.ev[i + 1:]:
            if e.kind == 'loopexit':
                break
            body.append(e)
        left_by = [e for e in p.ev[i + 1:] if e.kind == 'loopexit'][:1]
        pd = ('elem', it.a)
        why = None
        for e in body:
            if e.kind != 'assume':
                continue
            t = e.a
            if ends(t, 'optional') and e.b is True or t[0] == 'cmp' and ends(t[2], 'optional') and truth(e) is True:
                why = 'optional'
            elif t[0] == 'cmp' and t[1] in ('in', 'not in') and contains(t[2], lambda s: s[0] == 'a' and s[2] == 'pid') and contains(t[3], lambda s: s == ('a', me, 'property_entries')) and (e.b == (t[1] == 'in')):
                why = 'present'
            elif t[0] == 'cmp' and t[1] in ('is', 'is not') and contains(t[2], lambda s: s[0] == 'call' and s[1] == ('a', ('a', me, 'property_entries'), 'get')) and (e.b == (t[1] == 'is not')):
                why = 'present'
            elif t[0] == 'cmp' and contains(t, lambda s: s[0] == 'a' and s[2] == 'property_name'):
                names = const_names(t)
                eq = t[1] in ('==', 'in')
                if names is not None and e.b == eq:
                    extra = names - STORED_ELSEWHERE
                    if extra:
                        cx.bad('C24.required', 'skipped properties', e.where, 'the property %s is never asked for' % ', '.join(sorted(extra)), p)
                    why = 'elsewhere'
            elif e.b is True and contains(t, lambda s: s[0] == 'a' and s[2] in ('pid', 'property_name')) and contains(t, lambda s: s == me):
                why = why or 'unknown test'
        noted = [e for e in body if e.kind == 'call' and e.name in ('append', 'add', 'extend') or e.kind in ('aug', 'augassign', 'setitem')]
        if p.raised:
            hit += 1
            inside = not left_by
            if why in ('optional', 'present'):
                cx.bad('C24.required', 'complete object', f.where, 'an object is refused because of a property that is %s' % why, p)
            cx.check(not inside and not (left_by and left_by[0].a == 'break'), 'C24.report', 'every missing property', f.where, 'the report is made at the first missing property and names no other', p)
            msg = p.exit[1]
            if msg[0] in ('new', 'call'):
                pr = [e for e in p.ev if e.kind in ('new', 'call') and e.v == msg or e.kind == 'new']
                full = any(contains(a, lambda s: s[0] == 'a' and s[2] == 'property_name') for e in pr for a in (e.args or ()))
                if pr and not full:
                    args_known = any(e.args for e in pr)
                    later = [e for e in p.ev if e.kind == 'call' and any(contains(a, lambda s: s[0] == 'a' and s[2] == 'property_name') for a in e.args)]
                    if args_known and not later:
                        cx.bad('C24.report', 'names of the missing properties', f.where, 'the report does not name the missing properties', p)
        elif why is None:
            # neither optional nor present, yet accepted
            tests = [e for e in body if e.kind == 'assume']
            cx.bad('C24.required', 'missing properties', f.where, 'a required property that is missing is accepted%s' % (' when %s is %s' % (show(tests[-1].a)[:80], tests[-1].b) if tests else ''), p)
        else:
            cx.check(not (left_by and left_by[0].a == 'break'), 'C24.required', 'all properties', f.where, 'the search for missing properties ends at a property that is %s' % why, p)
    cx.need('examined property paths', n, 3)
    cx.need('refused objects', hit, 1)


def plain(t):
    """the sequence of definitions itself, at most wrapped"""
    while t[0] == 'call' and t[1][0] == 'b' and t[1][1] in ('list', 'tuple', 'sorted', 'enumerate', 'iter', 'reversed', 'set') and t[2]:
        t = t[2][0]
    return is_lookup(t, ('all_propertydefs',)) or t[0] == 'a' and t[2] == 'propertydefs'


def const_names(t):
    r = t[3]
    if is_c(r):
        return {cval(r)} if isinstance(cval(r), str) else None
    if r[0] in ('tuple', 'list', 'set') and all(is_c(x) for x in r[1]):
        return set(cval(x) for x in r[1])
    return None


def checked(cx):
    """nothing of an object is written before it was examined, and the queue asks for that"""
    f = cx.prog.func('core.AAFObject.write_properties')
    me = ('p', f.params[0])
    va = f.params[1] if len(f.params) > 1 else None
    args = {va: TRUE} if va else None
    n = 0
    for p in good(cx.paths(f, assume=True, args=args)):
        n += 1
        v = [k for k, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'validate']
        w = [k for k, e in enumerate(p.ev) if e.kind == 'call' and e.name in ('touch', 'write', 'truncate', 'write_index', 'open')]
        if not v:
            cx.bad('C24.checked', 'written object', f.where, 'an object is written without looking for missing properties', p)
        elif w:
            cx.check(v[0] < w[0], 'C24.checked', 'written object', p.ev[w[0]].where, 'the stream is changed before the object was examined', p)
    cx.need('object writing paths', n, 1)
    if va:
        d = f.node.args.defaults
        names = [a.arg for a in f.node.args.args]
        i = names.index(va) - (len(names) - len(d)) if va in names else -1
        if i >= 0:
            cx.check(isinstance(d[i], ast.Constant) and bool(d[i].value), 'C24.checked', 'default', f.where, 'objects are not examined unless the caller asks for it')
    for g in cx.prog.funcs:
        if isinstance(g.node, ast.Lambda):
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'write_properties' and g.qual != f.qual:
                a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == va), None)
                if a is None:
                    cx.ok('C24.checked', g.qual)
                elif isinstance(a, ast.Constant):
                    cx.check(bool(a.value), 'C24.checked', g.qual, '%s:%d' % (g.module.rel, x.lineno), 'an object is written without looking for missing properties')
    # a failure is reported
    f = cx.prog.func('file.AAFObjectManager.write_objects')
    for p in cx.paths(f, assume=True, calls_raise=True):
        ex = [e for e in p.ev if e.kind == 'except']
        if ex and not p.raised:
            tries = [x for x in ast.walk(f.node) if isinstance(x, ast.Try)]
            inside = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'write_properties' for t in tries for b in t.body for y in ast.walk(b))
            if inside:
                cx.bad('C24.checked', 'failed object', ex[0].where, 'the error of an object that cannot be written is swallowed', p)
    # no object class turns the examination off
    for k in [x for ks in cx.prog.classes.values() for x in ks]:
        for nm in ('validate', 'write_properties'):
            m = k.methods.get(nm)
            if m is None or k.name == 'AAFObject' or not k.is_subclass('AAFObject'):
                continue
            for p in good(cx.paths(m, assume=True, selfcls=k)):
                got = any(e.kind == 'call' and e.name.split('.')[-1] == nm for e in p.ev)
                cx.check(got, 'C24.checked', m.qual, m.where, '%s leaves the examination of required properties out' % m.qual, p)


def chain(cx):
    """the whole chain of parents is gone through"""
    f = cx.prog.func('metadict.ClassDef.all_propertydefs')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, assume=True):
        rel = None
        for e in p.ev:
            if e.kind == 'loop' and is_lookup(e.a, ('relatives',)):
                rel = e
            elif rel is not None and e.kind == 'iter' and contains(e.a, lambda s: ends(s, 'propertydefs')):
                rel = None
            elif rel is not None and e.kind == 'loopexit':
                ts = [x for x in p.ev[p.ev.index(rel):p.ev.index(e)] if x.kind == 'assume' and contains(x.a, lambda s: s[0] == 'a' and s[1][0] in ('elem', 'nth'))]
                if ts:
                    cx.bad('C24.chain', 'properties of a class', ts[-1].where, 'the properties of a class of the chain are left out when %s is %s' % (show(ts[-1].a)[:80], ts[-1].b), p)
                rel = None
        its = [e for e in p.ev if e.kind == 'iter']
        outer = [e for e in its if is_lookup(e.a, ('relatives',))]
        ent = [e for e in p.ev if e.kind == 'loop']
        ys = [e for e in p.ev if e.kind == 'yield']
        if any(own_only(e.a, me) for e in its) and not outer and not any(contains(e.a, lambda s: ends(s, 'parent')) for e in p.ev if isinstance(e.a, tuple)):
            cx.bad('C24.chain', 'properties of a class', f.where, 'properties inherited from the parents are left out', p)
        for e in ent:
            if contains(e.a, lambda s: ends(s, 'propertydefs')) and not any(contains(y.a if isinstance(y.a, tuple) else NONE, lambda s: s[0] in ('elem', 'nth')) for y in ys):
                if ys == [] and p.ret is None:
                    tests = [x for x in p.ev if x.kind == 'assume' and contains(x.a, lambda s: ends(s, 'propertydefs'))]
                    if tests:
                        cx.bad('C24.chain', 'properties of a class', e.where, 'a property is left out when %s is %s' % (show(tests[-1].a)[:80], tests[-1].b), p)
        n += 1
    cx.need('property chain paths', n, 1)
    f = cx.prog.func('metadict.ClassDef.relatives')
    me = ('p', f.params[0])
    n = 0
    first = False
    for p in cx.paths(f, assume=True, unroll=2):
        ys = [e for e in p.ev if e.kind == 'yield']
        # the first is the class itself, then its parent
        if ys:
            n += 1
            y = ys[0].a
            if isinstance(y, tuple) and y[0] not in ('elem', 'nth', 'i'):
                cx.check(y == me, 'C24.chain', 'chain starts', ys[0].where, 'the chain starts with %s' % show(y), p)
        if len(ys) > 1:
            y = ys[1].a
            if isinstance(y, tuple):
                if contains(y, lambda s: is_lookup(s, ('relatives',)) and s[1][1] == ('a', me, 'parent')):
                    cx.ok('C24.chain', 'chain goes on')
                elif contains(y, lambda s: ends(s, 'parent')):
                    cx.check(ys[1].a == ('a', me, 'parent'), 'C24.chain', 'chain goes on', ys[1].where, 'goes on with %s' % show(y), p)
                else:
                    cx.unk('C24.chain', 'chain goes on', show(y))
            first = True
        # ends only where there is no parent
        if ys and len(ys) == 1 and not p.raised:
            ends_ok = any(e.kind == 'assume' and contains(e.a, lambda s: ends(s, 'parent')) for e in p.ev)
            cx.check(ends_ok or any(contains(e.v, lambda s: s[0] == 'call') for e in p.ev if isinstance(e.v, tuple)), 'C24.chain', 'chain ends', f.where, 'the chain ends at the class itself', p)
    cx.need('class chain paths', n, 1)


def own_only(t, me):
    return t == ('a', me, 'propertydefs')
