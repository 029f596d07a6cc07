"""C30 every operating system file that is opened is closed, or handed on, on every path

A flow analysis over the syntax tree of each function, exceptional exits included: what may be
open is followed from the call that opens it to the close, the end of a with block, the return or
the store that hands it on."""
import ast
from .util import *

OPENERS = {'open', 'fdopen', 'Wave_read', 'Wave_write', 'NamedTemporaryFile', 'TemporaryFile', 'mmap', 'socket', 'Popen',
           'Aifc_read', 'Aifc_write', 'ZipFile', 'TarFile'}
MODULES = {'io', 'os', 'wave', 'codecs', 'gzip', 'bz2', 'lzma', 'tempfile', 'mmap', 'socket', 'subprocess', 'aifc', 'zipfile', 'tarfile', 'builtins'}
WRAP = {'closing', 'BufferedReader', 'BufferedWriter', 'TextIOWrapper', 'BufferedRandom'}
OPEN, CLOSED, NO, ANY = 'open', 'closed', 'none', '?'
LIMIT = 400


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return parts[::-1]
    return None


class Sites(object):
    """calls that open a file"""

    def __init__(self, cx):
        self.cx = cx
        self.handing = {}        # functions that return a handle they opened

    def opener(self, f, call):
        d = dotted(call.func)
        if d is None:
            return False
        last = d[-1]
        if len(d) == 1:
            if self.defined(f, last) is None:
                return last == 'open' and self.shadow(f, last) is False or last in OPENERS - {'open'} and self.imported(f, last)
            r = self.defined(f, last)
            return self.is_open_obj(r)
        if d[0] in ('self', 'cls') and len(d) == 2 and f.cls is not None:
            m = f.cls.method(last)
            return m is not None and m.qual in self.handing
        r = self.resolve(f, d)
        if r is not None:
            return self.is_open_obj(r)
        return last in OPENERS and d[-2] in MODULES

    def resolve(self, f, d):
        m = self.cx.prog.modules.get(d[-2])
        if m is not None and d[-2] not in MODULES:
            return m.globals_get(d[-1]) if hasattr(m, 'globals_get') else self.lookup(m, d[-1])
        return None

    def lookup(self, m, name):
        for g in self.cx.prog.funcs:
            if g.module is m and g.cls is None and g.name == name:
                return g
        for ks in self.cx.prog.classes.values():
            for k in ks:
                if k.module is m and k.name == name:
                    return k
        return None

    def defined(self, f, name):
        r = self.lookup(f.module, name)
        if r is None:
            for n in f.module.tree.body:
                if isinstance(n, ast.ImportFrom) and n.level and n.module:
                    for a in n.names:
                        if (a.asname or a.name) == name:
                            m = self.cx.prog.modules.get(n.module)
                            if m is not None:
                                return self.lookup(m, a.name)
        return r

    def shadow(self, f, name):
        for n in f.module.tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        return None if isinstance(n, ast.ImportFrom) and n.module in MODULES and not n.level and (a.name in OPENERS) and False else \
                            (False if isinstance(n, ast.ImportFrom) and n.module in MODULES else True)
        if name in f.params:
            return True
        return False

    def imported(self, f, name):
        for n in f.module.tree.body:
            if isinstance(n, ast.ImportFrom) and n.module in MODULES:
                if any((a.asname or a.name) == name for a in n.names):
                    return True
        return False

    def is_open_obj(self, r):
        if isinstance(r, Func):
            return r.qual in self.handing
        if isinstance(r, Class):
            for k in r.mro():
                for b in k.base_exprs:
                    d = dotted(b)
                    if d and d[-1] in OPENERS:
                        return True
        return False


class Flow(object):
    def __init__(self, sites, f):
        self.sites, self.f = sites, f
        self.leaks = []          # (site node, where it is lost, how)
        self.opened = 0
        self.hands = False
        self.over = False
        self.selfattrs = set()

    # a state maps a variable to (status, site); kept as a frozenset of items
    def get(self, st, v):
        return dict(st).get(v, (ANY, None))

    def put(self, st, v, val):
        d = dict(st)
        old = d.get(v)
        if old and old[0] == OPEN and val != old and not self.alias(d, v, old):
            self.leaks.append((old[1], getattr(self, 'at', None), 'is replaced while open'))
        d[v] = val
        return frozenset(d.items())

    def alias(self, d, v, val):
        return any(k != v and x == val for k, x in d.items())

    def drop(self, st, v, status):
        """every name of the handle changes status together"""
        d = dict(st)
        val = d.get(v)
        if val is None or val[0] != OPEN:
            return st
        for k, x in list(d.items()):
            if x == val:
                d[k] = (status, x[1])
        return frozenset(d.items())

    def acquire(self, e, st):
        """site when the expression gives a file it opened (through wrappers)"""
        if isinstance(e, ast.Call):
            if self.sites.opener(self.f, e):
                for a in list(e.args) + [k.value for k in e.keywords]:
                    if isinstance(a, ast.Name) and self.get(st, a.id)[0] == OPEN:
                        return None      # works on a file that is open already
                return e
            d = dotted(e.func)
            if d and d[-1] in WRAP and e.args:
                return self.acquire(e.args[0], st)
        if isinstance(e, ast.IfExp):
            return self.acquire(e.body, st) or self.acquire(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                r = self.acquire(x, st)
                if r is not None:
                    return r
        return None

    def loose(self, e, st, top):
        """files opened inside an expression and never bound"""
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call) and n is not top and self.sites.opener(self.f, n) and self.acquire(n, st) is not None:
                if top is not None and any(x is n for x in ast.walk(top)):
                    continue
                if self.owned_by_ctor(e, n):
                    continue
                self.opened += 1
                self.leaks.append((n, n, 'is opened and never bound, so nothing can close it'))

    def owned_by_ctor(self, e, n):
        return False

    def raises(self, node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Call, ast.Raise, ast.Subscript, ast.Yield, ast.YieldFrom, ast.Assert, ast.Await)):
                return True
        return False

    # returns dict of sets: 'n' normal, 'x' exception, 'r' return, 'b' break, 'c' continue
    def block(self, body, sts):
        out = {'n': set(sts), 'x': set(), 'r': set(), 'b': set(), 'c': set()}
        for s in body:
            cur = out['n']
            out['n'] = set()
            if len(cur) > LIMIT:
                self.over = True
                cur = set(list(cur)[:LIMIT])
            for st in cur:
                r = self.stmt(s, st)
                for k in r:
                    out[k] |= r[k]
            if not out['n']:
                break
        return out

    def res(self, n=(), x=(), r=(), b=(), c=()):
        return {'n': set(n), 'x': set(x), 'r': set(r), 'b': set(b), 'c': set(c)}

    def closes(self, s):
        """v when the statement closes the file of a variable"""
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == 'close' and isinstance(s.value.func.value, (ast.Name, ast.Attribute)):
            return key(s.value.func.value)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            # a helper that closes what it is given
            d = dotted(s.value.func)
            if d and d[-1] in ('close',) and s.value.args:
                return key(s.value.args[0])
        return None

    def stmt(self, s, st):
        self.at = s
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return self.res(n=[st])
        v = self.closes(s)
        if v is not None and self.get(st, v)[0] in (OPEN, CLOSED):
            st2 = self.drop(st, v, CLOSED)
            return self.res(n=[st2], x=[st2])
        if isinstance(s, ast.Assign) or isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.assign(s, s.targets if isinstance(s, ast.Assign) else [s.target], s.value, st)
        if isinstance(s, ast.Return):
            if s.value is None:
                return self.res(r=[st])
            a = self.acquire(s.value, st)
            self.loose(s.value, st, a)
            ex = [st] if self.raises(s.value) else []
            if a is not None:
                self.hands = True
                self.opened += 1
                return self.res(r=[st], x=ex)
            st2 = st
            for n in self.names(s.value):
                if self.get(st, n)[0] == OPEN:
                    self.hands = self.hands or n == key(s.value)
                    st2 = self.drop(st2, n, CLOSED)
            return self.res(r=[st2], x=ex)
        if isinstance(s, ast.Raise):
            return self.res(x=[st])
        if isinstance(s, ast.Break):
            return self.res(b=[st])
        if isinstance(s, ast.Continue):
            return self.res(c=[st])
        if isinstance(s, ast.If):
            out = self.res()
            self.loose(s.test, st, None)
            if self.raises(s.test):
                out['x'].add(st)
            for truth, body in ((True, s.body), (False, s.orelse)):
                y = self.branch(s.test, st, truth)
                if y is None:
                    continue
                r = self.block(body, [y])
                for k in r:
                    out[k] |= r[k]
            return out
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            out = self.res()
            head = s.test if isinstance(s, ast.While) else s.iter
            self.loose(head, st, None)
            seen, work = set(), {st}
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            leave = set()
            while work:
                cur = work.pop()
                if cur in seen or len(seen) > LIMIT:
                    continue
                seen.add(cur)
                if self.raises(head) or isinstance(s, ast.For):
                    out['x'].add(cur)
                if not forever:
                    leave.add(cur)
                r = self.block(s.body, [cur])
                out['x'] |= r['x']
                out['r'] |= r['r']
                out['n'] |= r['b']
                work |= (r['n'] | r['c']) - seen
            r = self.block(s.orelse, leave)
            for k in r:
                out[k] |= r[k]
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            cur = {st}
            ex = set()
            mine = []
            for item in s.items:
                a = self.acquire(item.context_expr, st)
                self.loose(item.context_expr, st, a)
                if self.raises(item.context_expr):
                    ex |= cur
                nm = key(item.optional_vars) if item.optional_vars is not None else None
                if a is not None:
                    self.opened += 1
                    nx = set()
                    for c_ in cur:
                        nx.add(self.put(c_, nm or '%%with%d' % id(item), (OPEN, a)))
                    mine.append(nm or '%%with%d' % id(item))
                    cur = nx
                else:
                    e = item.context_expr
                    if isinstance(e, ast.Call) and e.args and dotted(e.func) and dotted(e.func)[-1] in WRAP:
                        e = e.args[0]
                    k = key(e)
                    if k is not None and self.get(st, k)[0] == OPEN:
                        mine.append(k)
            r = self.block(s.body, cur)
            out = self.res()
            for k in r:
                for c_ in r[k]:
                    for m in mine:
                        c_ = self.drop(c_, m, CLOSED)
                    out[k].add(c_)
            for c_ in ex:
                for m in mine:
                    c_ = self.drop(c_, m, CLOSED)
                out['x'].add(c_)
            return out
        if isinstance(s, ast.Try):
            r = self.block(s.body, [st])
            out = self.res(r=r['r'], b=r['b'], c=r['c'])
            e = self.block(s.orelse, r['n'])
            for k in e:
                out[k] |= e[k]
            exc = r['x']
            caught_all = False
            for h in s.handlers:
                hr = self.block(h.body, exc)
                for k in hr:
                    out[k] |= hr[k]
                if h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('BaseException', 'Exception'):
                    caught_all = True
            if not caught_all:
                out['x'] |= exc
            if s.finalbody:
                fin = self.res()
                for k in out:
                    fr = self.block(s.finalbody, out[k])
                    fin[k] |= fr['n']
                    for k2 in ('x', 'r', 'b', 'c'):
                        fin[k2] |= fr[k2]
                out = fin
            return out
        if isinstance(s, ast.Expr):
            a = self.acquire(s.value, st)
            if a is not None:
                self.opened += 1
                self.leaks.append((a, s, 'is opened and never bound, so nothing can close it'))
            self.loose(s.value, st, a)
            st2 = self.hand_over(s.value, st)
            return self.res(n=[st2], x=[st] if self.raises(s.value) else [])
        if isinstance(s, ast.Delete):
            return self.res(n=[st])
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.loose(n, st, None)
        return self.res(n=[st], x=[st] if self.raises(s) else [])

    def hand_over(self, e, st):
        """a file put into a collection of another object is handed on"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'add', 'enter_context', 'callback', 'push', 'setdefault'):
            for a in e.args:
                k = key(a)
                if k is not None and self.get(st, k)[0] == OPEN:
                    st = self.drop(st, k, CLOSED)
        return st

    def names(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                yield n.id
            elif isinstance(n, ast.Attribute):
                k = key(n)
                if k:
                    yield k

    def assign(self, s, targets, value, st):
        if len(targets) == 1 and isinstance(targets[0], (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
                and len(targets[0].elts) == len(value.elts):
            cur, ex = st, set()
            for t, v in zip(targets[0].elts, value.elts):
                r = self.assign(s, [t], v, cur)
                ex |= r['x']
                cur = list(r['n'])[0]
            return self.res(n=[cur], x=ex)
        a = self.acquire(value, st)
        self.loose(value, st, a)
        ex = [st] if self.raises(value) or any(not isinstance(t, ast.Name) and key(t) is None for t in targets) else []
        if a is not None:
            self.opened += 1
            val = (OPEN, a)
        elif isinstance(value, ast.Constant) and value.value is None:
            val = (NO, None)
        elif key(value) is not None:
            val = self.get(st, key(value))
        else:
            val = (ANY, None)
        for t in targets:
            k = key(t)
            if k is None:
                # stored inside another object
                if val[0] == OPEN:
                    if a is not None:
                        pass
                    else:
                        st = self.drop(st, key(value), CLOSED)
                continue
            if '.' in k and val[0] == OPEN and not k.startswith('self.'):
                if a is None:
                    st = self.drop(st, key(value), CLOSED)
                continue
            st = self.put(st, k, val)
            if k.startswith('self.') and val[0] == OPEN:
                self.selfattrs.add((k[5:], val[1]))
        return self.res(n=[st], x=ex)

    def branch(self, test, st, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                for v in test.values:
                    if self.branch(v, st, truth) is None:
                        return None
            elif all(self.branch(v, st, truth) is None for v in test.values):
                return None
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            k = key(test.left)
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            if k is not None:
                s_ = self.get(st, k)[0]
                if s_ == NO and not isnone or s_ in (OPEN, CLOSED) and isnone:
                    return None
            return st
        k = key(test)
        if k is not None:
            s_ = self.get(st, k)[0]
            if s_ == NO and truth or s_ in (OPEN, CLOSED) and not truth:
                return None
        if isinstance(test, ast.Attribute) and test.attr == 'closed':
            k = key(test.value)
            if k is not None:
                s_ = self.get(st, k)[0]
                if s_ == OPEN and truth or s_ == CLOSED and not truth:
                    return None
        return st


def key(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return e.value.id + '.' + e.attr
    return None


def closers(cx, k, attr):
    """methods of the class that close the file kept in the attribute"""
    out = set()
    for c_ in k.mro():
        for m in c_.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and \
                        isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr:
                    out.add(m.name)
    return out


def C30(cx):
    sites = Sites(cx)
    flows = {}
    # functions that return a file they opened are openers themselves
    while True:
        before = set(sites.handing)
        for f in cx.prog.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            fl = Flow(sites, f)
            if not any(isinstance(n, ast.Call) for n in ast.walk(f.node)):
                continue
            if not any(isinstance(n, ast.Call) and sites.opener(f, n) for n in ast.walk(f.node)):
                continue
            fl.result = fl.block(f.node.body, [frozenset()])
            flows[f.qual] = (f, fl)
            if fl.hands:
                sites.handing[f.qual] = True
        if set(sites.handing) == before:
            break
    n = 0
    for q, (f, fl) in sorted(flows.items()):
        rel = f.module.rel
        lost = list(fl.leaks)
        if fl.over:
            cx.unk('C30.closed', q, 'too many states')
            continue
        kept = {}
        for a, site in fl.selfattrs:
            kept[a] = site
        for kind in ('n', 'r', 'x'):
            for st in fl.result[kind]:
                for v, (status, site) in st:
                    if status != OPEN:
                        continue
                    if v.startswith('self.') and (kind != 'x' or f.name != '__init__'):
                        continue       # kept by the object, judged below
                    how = {'n': 'is open when %s ends', 'r': 'is open when %s returns', 'x': 'stays open when %s fails'}[kind] % f.qual
                    lost.append((site, site, how))
        calls_ = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and sites.opener(f, x)]
        n += len(calls_)
        cx.funcs.add(q)
        cx.callsites += len(calls_)
        for c_ in calls_:
            name = '%s: %s' % (q, ast.unparse(c_)[:60])
            mine = [x for x in lost if x[0] is c_]
            if mine:
                cx.bad('C30.closed', name, '%s:%d' % (rel, c_.lineno), 'the file %s' % sorted(set(x[2] for x in mine))[0])
            else:
                cx.ok('C30.closed', name)
        for a in kept:
            if f.cls is None:
                continue
            cl = closers(cx, f.cls, a)
            cx.check('close' in cl or '__exit__' in cl or '__del__' in cl, 'C30.owner', '%s.%s' % (f.cls.name, a), f.where, 'no close method of the class closes the file it keeps')
    cx.need('places that open a file', n, 4)
    owner_exit(cx)


def owner_exit(cx):
    """closing the file object closes the file on every way out of a with block"""
    for k in [c_ for ks in cx.prog.classes.values() for c_ in ks]:
        init = k.methods.get('__init__')
        ex = k.methods.get('__exit__')
        if ex is None or init is None:
            continue
        attrs = set(n.attr for n in ast.walk(init.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store))
        held = [a for a in attrs if 'close' in closers(cx, k, a) and a not in ('cfb', 'storage')]
        if not held:
            continue
        me = ('p', ex.params[0])
        for p in cx.paths(ex, assume=True, calls_raise=True):
            for a in held:
                got = any(e.kind == 'call' and e.name == 'close' and (e.recv == ('a', me, a) or e.recv == me) for e in p.ev)
                cx.check(got, 'C30.exit', '%s.%s' % (k.name, a), ex.where, 'a with block can end with the file still open', p)
