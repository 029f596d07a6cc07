"""Path-enumerating dataflow walk over function bodies.

A function is walked along every path through its syntax tree; each loop body is taken zero
times and up to `unroll` times, calls that resolve to functions of the package are walked in
place when the rule's inlining policy asks for it.  Values are never computed: a state maps
each local name to a term (what expression of the inputs it stands for), and a path is the
ordered list of effects it performs (attribute stores, item stores, calls, branches taken,
raises, returns).  Branches are pruned only when the same test was already decided on the
path or both sides are literals.  No solver is used and nothing of the package is executed.
"""
import ast
from .model import Func, Class, Module, AnalysisBroken
from .terms import c, is_c, cval, NONE, TRUE, FALSE, contains, show, norm

PURE_BUILTINS = set('''len min max int float str bool abs range reversed enumerate zip sorted list
tuple set dict isinstance issubclass type bytes getattr hasattr divmod pow ord chr id repr round
frozenset iter sum any all hash super callable unicode memoryview bytearray'''.split())

MUTATORS = frozenset('append extend insert pop remove clear sort reverse add discard update setdefault popitem'.split())

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|',
          ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

FRESH = (('ext', 'array.array'), ('ext', 'collections.deque'), ('ext', 'weakref.WeakValueDictionary'),
         ('b', 'list'), ('b', 'dict'), ('b', 'set'), ('b', 'bytearray'), ('b', 'sorted'))


_OWN = {}
_ENCLOSING = {}


class Ev(object):
    """One effect on a path."""
    __slots__ = ('kind', 'a', 'b', 'v', 'name', 'recv', 'args', 'kw', 'func', 'line', 'mod', 'key', 'fn', 'h')

    def __init__(self, kind, mod, line, a=None, b=None, v=None, name=None, recv=None, args=(),
                 kw=(), func=None, fn=None):
        self.kind, self.mod, self.line = kind, mod, line
        self.a, self.b, self.v = a, b, v
        self.name, self.recv, self.args, self.kw, self.func, self.fn = name, recv, args, kw, func, fn
        self.key = (kind, mod.rel if mod else '', line, a, b, v, name, recv, args, kw)
        self.h = None

    def __eq__(self, o):
        return self is o or self.key == o.key

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.key)
        return self.h

    @property
    def where(self):
        return '%s:%d' % (self.mod.rel if self.mod else '?', self.line)

    def arg(self, n, name=None, default=None):
        if name is not None:
            for k, v in self.kw:
                if k == name:
                    return v
        if n is not None and n < len(self.args):
            return self.args[n]
        return default

    def __repr__(self):
        k = self.kind
        if k == 'call':
            r = show(self.recv) + '.' if self.recv is not None else ''
            return 'call %s%s(%s)@%d' % (r, self.name, ', '.join(show(x) for x in self.args), self.line)
        if k == 'set':
            return 'set %s.%s = %s@%d' % (show(self.a), self.b, show(self.v), self.line)
        if k == 'setitem':
            return 'set %s[%s] = %s@%d' % (show(self.a), show(self.b), show(self.v), self.line)
        if k == 'assume':
            return 'assume %s%s@%d' % ('' if self.b else 'not ', show(self.a), self.line)
        return '%s %s %s@%d' % (k, show(self.a) if isinstance(self.a, tuple) else self.a,
                                show(self.b) if isinstance(self.b, tuple) else self.b or '', self.line)


class State(object):
    __slots__ = ('env', 'heap', 'ev', 'exit', 'facts', 'n')

    def __init__(self, env=None, heap=None, ev=(), exit=None, facts=None, n=0):
        self.env = env or {}
        self.heap = heap or {}
        self.ev = ev
        self.exit = exit
        self.facts = facts or {}
        self.n = n

    def fork(self, **kw):
        s = State(self.env, self.heap, self.ev, self.exit, self.facts, self.n)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def setlocal(self, name, v):
        e = dict(self.env)
        e[name] = v
        return self.fork(env=e)


class Path(object):
    """A complete path: events, how it ended, and the final state."""
    __slots__ = ('ev', 'exit', 'state')

    def __init__(self, st):
        self.ev, self.exit, self.state = st.ev, st.exit, st

    @property
    def raised(self):
        return self.exit is not None and self.exit[0] == 'raise'

    @property
    def ret(self):
        if self.exit is not None and self.exit[0] == 'ret':
            return self.exit[1]
        return NONE

    def trace(self):
        return '\n'.join(repr(e) for e in self.ev) + '\n-> %s' % (self.exit,)


class TooManyPaths(Exception):
    pass


class Interp(object):
    def __init__(self, prog, types=None, inline=None, keep=None, unroll=1, max_states=6000,
                 max_depth=8, raises=True, max_total=60000, calls_raise=False):
        self.prog = prog
        self.types = types
        self.inline = inline or (lambda f, depth: False)
        self.keep = keep or (lambda e: e.kind != 'assume')
        self.unroll = unroll
        self.max_states = max_states
        self.max_depth = max_depth
        self.raises = raises
        self.calls_raise = calls_raise
        self.stack = []
        self.closures = {}
        self.total = 0
        self.max_total = max_total
        self.visited_funcs = set()
        self.kind = None        # class of the elements of a property table, when the walk is for one kind

    # -- entry -------------------------------------------------------------
    def run(self, func, args=None, selfcls=None, heap=None, facts=None, env=None):
        """Walk `func` with symbolic parameters; returns list of Path."""
        self.total = 0
        st = State(heap=dict(heap or {}), facts=dict(facts or {}))
        params = func.params
        vals = {}
        for p in params:
            vals[p] = ('p', p)
        a = func.node.args
        if a.vararg:
            vals[a.vararg.arg] = ('p', '*' + a.vararg.arg)
        if a.kwarg:
            vals[a.kwarg.arg] = ('p', '**' + a.kwarg.arg)
        for k in a.kwonlyargs:
            vals[k.arg] = ('p', k.arg)
        if args:
            vals.update(args)
        self.selfcls = selfcls or func.cls
        self.typeenv = {}
        if func.cls is not None and params and func.kind not in ('static',):
            self.typeenv[('p', params[0])] = self.selfcls
        if func.decorators:
            pos = tuple(vals[p] for p in params)
            outs = self.call_func(func, pos, (), st, func.node, force=True)
            res = []
            for v, s in outs:
                if s.exit is None:
                    s = s.fork(exit=('ret', v))
                res.append(s)
        else:
            st.env = vals
            self.visited_funcs.add(func.qual)
            self.stack.append((func, func.module, func.cls))
            try:
                res = self.block(func.node.body, [st])
            finally:
                self.stack.pop()
        return [Path(s) for s in self.dedupe(res)]

    # -- helpers -----------------------------------------------------------
    @property
    def mod(self):
        return self.stack[-1][1]

    def emit(self, st, kind, node, **kw):
        e = Ev(kind, self.mod, getattr(node, 'lineno', 0), **kw)
        if self.keep(e):
            return st.fork(ev=st.ev + (e,))
        return st

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        order = []
        rough = {}
        for s in states:
            q = (len(s.ev), s.ev[-1] if s.ev else None, s.exit and s.exit[0], len(s.env), len(s.heap))
            rough.setdefault(q, []).append(s)
        if len(rough) == len(states):
            return states
        alone = set(id(v[0]) for v in rough.values() if len(v) == 1)
        for s in states:
            if id(s) in alone:
                order.append(s)
                continue
            k = (frozenset(s.env.items()), frozenset(s.heap.items()), s.ev, s.exit)
            if k in seen:
                o = seen[k]
                o.facts = {t: v for t, v in o.facts.items() if s.facts.get(t, None) == v}
                o.n = max(o.n, s.n)
            else:
                s = s.fork()
                seen[k] = s
                order.append(s)
        return order

    def check_size(self, states):
        self.total += len(states)
        if len(states) > self.max_states or self.total > self.max_total:
            f = self.stack[0][0] if self.stack else None
            raise TooManyPaths('%s: %d states' % (f, len(states)))

    # -- statements ----------------------------------------------------------
    def block(self, stmts, states):
        for s in stmts:
            live = [x for x in states if x.exit is None]
            done = [x for x in states if x.exit is not None]
            if not live:
                return states
            out = []
            for st in live:
                out.extend(self.stmt(s, st))
            states = self.dedupe(done + out)
            self.check_size(states)
        return states

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken('statement kind %s not handled (%s:%d)' % (type(s).__name__, self.mod.rel, s.lineno))
        return m(s, st)

    def s_Pass(self, s, st):
        return [st]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        return [x for _, x in self.ev_(s.value, st)]

    def s_Assign(self, s, st):
        out = []
        for v, x in self.ev_(s.value, st):
            xs = [x]
            if x.exit is None:
                for t in s.targets:
                    nx = []
                    for y in xs:
                        nx.extend(self.assign(t, v, y) if y.exit is None else [y])
                    xs = nx
            out.extend(xs)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        out = []
        for v, x in self.ev_(s.value, st):
            out.extend(self.assign(s.target, v, x) if x.exit is None else [x])
        return out

    def s_AugAssign(self, s, st):
        load = self._as_load(s.target)
        out = []
        for cur, x in self.ev_(load, st):
            if x.exit is not None:
                out.append(x)
                continue
            for v, y in self.ev_(s.value, x):
                if y.exit is not None:
                    out.append(y)
                    continue
                r = self.binop(BINOPS[type(s.op)], cur, v)
                out.extend(self.assign(s.target, r, y, aug=True))
        return out

    def _as_load(self, t):
        n = ast.parse(ast.unparse(t), mode='eval').body
        for x in ast.walk(n):
            if hasattr(x, 'lineno'):
                x.lineno = t.lineno
        return n

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            return [st.setlocal(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            for i, el in enumerate(t.elts):
                if isinstance(el, ast.Starred):
                    item, el = ('i', v, ('slice', c(i), NONE, NONE)), el.value
                elif v[0] in ('tuple', 'list') and len(v[1]) == len(t.elts):
                    item = v[1][i]
                else:
                    item = self.index(v, c(i))
                nx = []
                for x in sts:
                    nx.extend(self.assign(el, item, x))
                sts = nx
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for b, x in self.ev_(t.value, st):
                if x.exit is not None:
                    out.append(x)
                    continue
                out.extend(self.set_attr(b, t.attr, v, x, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, x in self.ev_(t.value, st):
                if x.exit is not None:
                    out.append(x)
                    continue
                for i, y in self.ev_(t.slice, x):
                    if y.exit is None:
                        cls = self.typeof(b, y)
                        f = cls.method('__setitem__') if cls is not None else None
                        if f is not None and self.may_inline(f):
                            out.extend(z for _, z in self.call_func(f, (b, i, v), (), y, t))
                            continue
                        y = self.emit(y, 'setitem', t, a=b, b=i, v=v, name='aug' if aug else None)
                        y = self.invalidate(y)
                        if b[0] == 'list' and isinstance(t.value, ast.Name) and y.env.get(t.value.id) == b:
                            k = cval(i) if is_c(i) else None
                            if isinstance(k, int) and -len(b[1]) <= k < len(b[1]):
                                items = list(b[1])
                                items[k] = v
                                y = y.setlocal(t.value.id, ('list', tuple(items)))
                            else:
                                y = y.setlocal(t.value.id, ('obj', 'list', y.n, t.value.id))
                    out.append(y)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisBroken('assignment target %s' % type(t).__name__)

    def set_attr(self, b, name, v, st, node):
        cls = self.typeof(b, st)
        if cls is not None:
            f = cls.setter(name)
            if f is not None and self.may_inline(f):
                return [x for _, x in self.call_func(f, (b, v), (), st, node)]
            if f is not None:
                st = self.emit(st, 'set', node, a=b, b=name, v=v, func=f)
                h = dict(st.heap)
                h[(b, name)] = v
                return [self.invalidate(st.fork(heap=h))]
        st = self.emit(st, 'set', node, a=b, b=name, v=v)
        h = dict(st.heap)
        h[(b, name)] = v
        # writing through one path may change what another path reads
        for k in list(h):
            if k[1] == name and k[0] != b and k[0][0] != 'new' and b[0] != 'new':
                tb, tk = self.typeof(b, st), self.typeof(k[0], st)
                if tb is None or tk is None or tb is tk:
                    if not (self.distinct(b, k[0])):
                        h.pop(k)
        return [self.invalidate(st.fork(heap=h), attr=name)]

    def distinct(self, a, b):
        return False

    def invalidate(self, st, attr=None):
        """Forget path facts that mention mutable memory after a store / opaque call."""
        f = {}
        for t, v in st.facts.items():
            if attr is None:
                if not contains(t, lambda s: s[0] in ('a', 'i')):
                    f[t] = v
            else:
                if not contains(t, lambda s: s[0] == 'i' or (s[0] == 'a' and s[2] == attr)):
                    f[t] = v
        return st.fork(facts=f) if len(f) != len(st.facts) else st

    def s_Delete(self, s, st):
        sts = [st]
        for t in s.targets:
            nx = []
            for x in sts:
                if isinstance(t, ast.Subscript):
                    for b, y in self.ev_(t.value, x):
                        if y.exit is not None:
                            nx.append(y)
                            continue
                        for i, z in self.ev_(t.slice, y):
                            if z.exit is None:
                                cls = self.typeof(b, z)
                                f = cls.method('__delitem__') if cls is not None else None
                                if f is not None and self.may_inline(f):
                                    nx.extend(w for _, w in self.call_func(f, (b, i), (), z, t))
                                    continue
                                z = self.invalidate(self.emit(z, 'delitem', t, a=b, b=i))
                            nx.append(z)
                elif isinstance(t, ast.Attribute):
                    for b, y in self.ev_(t.value, x):
                        if y.exit is None:
                            y = self.emit(y, 'delattr', t, a=b, b=t.attr)
                            h = dict(y.heap)
                            h.pop((b, t.attr), None)
                            y = y.fork(heap=h)
                        nx.append(y)
                elif isinstance(t, ast.Name):
                    e = dict(x.env)
                    e.pop(t.id, None)
                    nx.append(x.fork(env=e))
                else:
                    nx.append(x)
            sts = nx
        return sts

    def s_Return(self, s, st):
        if s.value is None:
            return [st.fork(exit=('ret', NONE, s.lineno))]
        return [x if x.exit is not None else x.fork(exit=('ret', v, s.lineno)) for v, x in self.ev_(s.value, st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            return [st.fork(exit=('raise', st.env.get('%exc', ('reraise',)), s.lineno, self.mod.rel))]
        out = []
        for v, x in self.ev_(s.exc, st):
            if x.exit is None:
                x = self.emit(x, 'raise', s, a=v)
                x = x.fork(exit=('raise', v, s.lineno, self.mod.rel))
            out.append(x)
        return out

    def s_Assert(self, s, st):
        out = []
        for pol, x in self.cond(s.test, st):
            if x.exit is None and not pol:
                if not self.raises:
                    continue
                x = x.fork(exit=('raise', ('call', ('b', 'AssertionError'), (), (), 0), s.lineno, self.mod.rel))
            out.append(x)
        return out

    def s_Break(self, s, st):
        return [st.fork(exit=('break',))]

    def s_Continue(self, s, st):
        return [st.fork(exit=('cont',))]

    def s_If(self, s, st):
        out = []
        for pol, x in self.cond(s.test, st):
            if x.exit is not None:
                out.append(x)
            else:
                out.extend(self.block(s.body if pol else s.orelse, [x]))
        return self.dedupe(out)

    def s_While(self, s, st):
        out, cur = [], [st]
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for it in range(self.unroll + 1):
            nxt = []
            for x in cur:
                for pol, y in self.cond(s.test, x):
                    if y.exit is not None:
                        out.append(y)
                    elif not pol:
                        y = self.emit(y, 'loopexit', s)
                        out.extend(self.block(s.orelse, [y]))
                    elif it < self.unroll:
                        nxt.append(self.emit(y, 'loop', s))
                    else:
                        # bound reached: leave the loop without claiming its test failed
                        if not infinite:
                            y = self.emit(y.fork(), 'loopexit', s)
                            out.extend(self.block(s.orelse, [y]))
            if it == self.unroll:
                break
            res = self.block(s.body, nxt)
            cur = []
            for y in res:
                if y.exit == ('break',):
                    out.append(self.emit(y.fork(exit=None), 'loopexit', s, a='break'))
                elif y.exit == ('cont',):
                    cur.append(y.fork(exit=None))
                elif y.exit is not None:
                    out.append(y)
                else:
                    cur.append(y)
            cur = self.dedupe(cur)
            self.check_size(cur)
        return self.dedupe(out)

    def const_items(self, it):
        """Elements when the iterable is a short literal sequence."""
        if it[0] in ('tuple', 'list') and len(it[1]) <= 12:
            return list(it[1])
        if is_c(it) and isinstance(cval(it), tuple) and len(cval(it)) <= 12:
            return [c(x) for x in cval(it)]
        if it[0] == 'call' and it[1][0] == 'ext' and it[1][1] in ('array.array', 'collections.deque') and \
                len(it[2]) == (1 if it[1][1] == 'array.array' else 0):
            return []
        if it[0] == 'call' and it[1] == ('b', 'enumerate') and len(it[2]) == 1:
            sub = self.const_items(it[2][0])
            if sub is not None:
                return [('tuple', (c(i), x)) for i, x in enumerate(sub)]
        if it[0] == 'call' and it[1] == ('b', 'range') and all(is_c(x) and isinstance(cval(x), int) for x in it[2]) and it[2]:
            r = range(*[cval(x) for x in it[2]])
            if len(r) <= 12:
                return [c(i) for i in r]
        return None

    def elem(self, it):
        if it[0] == 'call' and it[1] == ('b', 'enumerate') and it[2]:
            start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', c(0))
            i = ('idx', it[2][0])
            if start != c(0):
                i = self.binop('+', i, start)
            return ('tuple', (i, self.elem(it[2][0])))
        if it[0] == 'call' and it[1] == ('b', 'zip'):
            return ('tuple', tuple(self.elem(x) for x in it[2]))
        if it[0] == 'call' and it[1] in (('b', 'sorted'), ('b', 'list'), ('b', 'reversed'), ('b', 'tuple'), ('b', 'iter')) and len(it[2]) == 1:
            return self.elem(it[2][0])
        if it[0] == 'call' and it[1] == ('b', 'range'):
            return ('elem', it)
        if it[0] == 'call' and it[1][0] == 'a' and not it[2]:
            recv, m = it[1][1], it[1][2]
            if m == 'items':
                return ('tuple', (('key', recv), ('i', recv, ('key', recv))))
            if m == 'values':
                return ('i', recv, ('key', recv))
            if m == 'keys':
                return ('key', recv)
        return ('elem', it)

    def s_For(self, s, st):
        out = []
        for it, x in self.ev_(s.iter, st):
            if x.exit is not None:
                out.append(x)
                continue
            x = self.emit(x, 'iter', s, a=it)
            items = self.const_items(it)
            if items is not None:
                cur = [x]
                for v in items:
                    nxt = []
                    for y in cur:
                        nxt.extend(self.assign(s.target, v, y))
                    res = self.block(s.body, nxt)
                    cur = []
                    for y in res:
                        if y.exit == ('break',):
                            out.append(y.fork(exit=None))
                        elif y.exit == ('cont',):
                            cur.append(y.fork(exit=None))
                        elif y.exit is not None:
                            out.append(y)
                        else:
                            cur.append(y)
                    cur = self.dedupe(cur)
                    self.check_size(cur)
                out.extend(self.block(s.orelse, cur))
                continue
            elem = self.elem(it)
            cur = [x]
            sure = (it[0] == 'call' and it[1] == ('b', 'range') and it[2] and all(is_c(a) for a in it[2]))
            for n in range(self.unroll + 1):
                # leave here
                if not (sure and n == 0):
                    for y in cur:
                        y = self.emit(y, 'loopexit', s)
                        out.extend(self.block(s.orelse, [y]))
                if n == self.unroll:
                    break
                nxt = []
                for y in cur:
                    y = self.emit(y, 'loop', s, a=it)
                    ev = elem if n == 0 else ('next', elem, n)
                    nxt.extend(self.assign(s.target, elem if n == 0 else self._nth(elem, n), y))
                res = self.block(s.body, nxt)
                cur = []
                for y in res:
                    if y.exit == ('break',):
                        out.append(self.emit(y.fork(exit=None), 'loopexit', s, a='break'))
                    elif y.exit == ('cont',):
                        cur.append(y.fork(exit=None))
                    elif y.exit is not None:
                        out.append(y)
                    else:
                        cur.append(y)
                cur = self.dedupe(cur)
                self.check_size(cur)
        return self.dedupe(out)

    def _nth(self, elem, n):
        if elem[0] == 'tuple':
            return ('tuple', tuple(self._nth(x, n) for x in elem[1]))
        if elem[0] == 'i':
            return ('i', elem[1], self._nth(elem[2], n))
        return ('nth', elem, n)

    def s_With(self, s, st):
        sts = [st]
        ctxs = []
        for item in s.items:
            nx = []
            for x in sts:
                if x.exit is not None:
                    nx.append(x)
                    continue
                for v, y in self.ev_(item.context_expr, x):
                    if y.exit is None:
                        y = self.emit(y, 'with', s, a=v)
                        if item.optional_vars is not None:
                            nx.extend(self.assign(item.optional_vars, ('ctx', v), y))
                            continue
                    nx.append(y)
            sts = nx
        res = self.block(s.body, sts)
        return [self.emit(x, 'endwith', s) for x in res]

    def s_Try(self, s, st):
        out = []
        # walk the body statement by statement, remembering the states in which an
        # exception may surface
        pre = []          # states at which a call may raise
        cur = [st]
        for b in s.body:
            live = [x for x in cur if x.exit is None]
            done = [x for x in cur if x.exit is not None]
            if any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(b)):
                pre.extend(live)
            nx = []
            for x in live:
                nx.extend(self.stmt(b, x))
            cur = self.dedupe(done + nx)
        body_states = cur
        results = []
        raised = []
        for x in body_states:
            if x.exit is None:
                results.extend(self.block(s.orelse, [x]))
            elif x.exit[0] == 'raise':
                raised.append((x.exit, x.fork(exit=None)))
            else:
                results.append(x)
        implicit = [(('raise', ('implicit',), getattr(s, 'lineno', 0), self.mod.rel), p) for p in pre]
        for ex, x in raised + implicit:
            handled = False
            for h in s.handlers:
                if ex[1] == ('implicit',) or self.handles(h, ex[1]):
                    handled = True
                    y = x
                    if h.name:
                        y = y.setlocal(h.name, ('exc', ex[1]))
                    y = y.setlocal('%exc', ex[1])
                    y = self.emit(y, 'except', h, a=('c', 'str', ast.unparse(h.type) if h.type else ''))
                    results.extend(self.block(h.body, [y]))
                    if ex[1] != ('implicit',):
                        break
            if not handled and (ex[1] != ('implicit',) or (self.calls_raise or s.finalbody)):
                results.append(x.fork(exit=ex))
        results = self.dedupe(results)
        if s.finalbody:
            fin = []
            for x in results:
                ex = x.exit
                for y in self.block(s.finalbody, [x.fork(exit=None)]):
                    fin.append(y if y.exit is not None else y.fork(exit=ex))
            results = self.dedupe(fin)
        return results

    def handles(self, h, exc):
        if h.type is None:
            return True
        names = [ast.unparse(t).split('.')[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if 'Exception' in names or 'BaseException' in names:
            return True
        if exc[0] == 'call':
            n = show(exc[1]).split('.')[-1]
        elif exc[0] == 'new':
            n = exc[1].split('.')[-1]
        else:
            n = show(exc).split('.')[-1]
        if n in names:
            return True
        lst = self.prog.classes.get(n)
        if lst:
            for cl in lst[0].mro():
                if cl.name in names:
                    return True
                for b in cl.base_exprs:
                    if ast.unparse(b).split('.')[-1] in names:
                        return True
        import builtins
        e = getattr(builtins, n, None)
        for nm in names:
            o = getattr(builtins, nm, None)
            if isinstance(e, type) and isinstance(o, type) and issubclass(e, o):
                return True
        return False

    def s_FunctionDef(self, s, st):
        key = ('clo', id(s), s.name)
        self.closures[key] = (s, dict(st.env), self.stack[-1])
        # late binding of the defining environment: keep a snapshot, self name included
        st2 = st.setlocal(s.name, key)
        self.closures[key] = (s, st2.env, self.stack[-1])
        return [st2]

    def s_ClassDef(self, s, st):
        return [st.setlocal(s.name, ('localclass', s.name))]

    # -- conditions ----------------------------------------------------------
    def cond(self, e, st):
        """-> [(bool, state)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not p if x.exit is None else p, x) for p, x in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, cur = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for x in cur:
                    for p, y in self.cond(v, x):
                        if y.exit is not None:
                            out.append((p, y))
                        elif p == isand:
                            nxt.append(y)
                        else:
                            out.append((p, y))
                cur = nxt
            out.extend((isand, x) for x in cur)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1 and not e.keywords:
            return self.cond(e.args[0], st)
        if isinstance(e, ast.IfExp):
            out = []
            for p, x in self.cond(e.test, st):
                out.extend(self.cond(e.body if p else e.orelse, x) if x.exit is None else [(p, x)])
            return out
        out = []
        for t, x in self.ev_(e, st):
            if x.exit is not None:
                out.append((True, x))
                continue
            r = self.assume(t, x, e)
            if isinstance(e, ast.Name) and (t[0] == 'cmp' or t[0] == 'un' and t[1] == 'not') and x.env.get(e.id) == t:
                # a flag computed earlier keeps its value whatever happens to what it was computed from
                r = [(p, y if y.exit is not None else y.setlocal(e.id, c(p))) for p, y in r]
            out.extend(r)
        return out

    def canon(self, t):
        """(term, polarity) with negations and flipped comparisons removed."""
        pol = True
        while True:
            if t[0] == 'un' and t[1] == 'not':
                t, pol = t[2], not pol
                continue
            if t[0] == 'call' and t[1] == ('b', 'bool') and len(t[2]) == 1:
                t = t[2][0]
                continue
            break
        if t[0] == 'cmp':
            op, l, r = t[1], t[2], t[3]
            if op == '!=':
                op, pol = '==', not pol
            elif op == 'is not':
                op, pol = 'is', not pol
            elif op == 'not in':
                op, pol = 'in', not pol
            elif op == '>':
                op, l, r = '<', r, l
            elif op == '>=':
                op, pol = '<', not pol
            elif op == '<=':
                op, l, r, pol = '<', r, l, not pol
            if op == 'in':
                ms = self.members(r)
                if ms is not None:
                    if len(ms) == 1:
                        op, r = '==', list(ms)[0]
                    else:
                        r = ('members', tuple(sorted(ms, key=repr)))
            if op in ('==', 'is') and (is_c(l) and not is_c(r)):
                l, r = r, l
            elif op in ('==', 'is') and not is_c(r) and repr(l) > repr(r):
                l, r = r, l
            t = ('cmp', op, l, r)
        return t, pol

    def members(self, r):
        if r[0] in ('tuple', 'list', 'set') and all(is_c(x) for x in r[1]):
            return set(r[1])
        if is_c(r) and isinstance(cval(r), (tuple, frozenset)):
            return set(c(x) for x in cval(r))
        if r[0] == 'members':
            return set(r[1])
        return None

    def decide(self, t, st):
        """Known truth value of canonical term t on this path, or None."""
        if is_c(t):
            return bool(cval(t))
        if t in st.facts:
            return st.facts[t]
        k = t[0]
        if k in ('new', 'clo', 'lam'):
            return True
        if k in ('tuple', 'list', 'set'):
            return len(t[1]) > 0
        if k == 'ext':
            return True
        if k == 'cmp':
            op, l, r = t[1], t[2], t[3]
            if is_c(l) and is_c(r):
                try:
                    if op == '==':
                        return cval(l) == cval(r)
                    if op == 'is':
                        return cval(l) is cval(r) or (cval(l) == cval(r) and type(cval(l)) is type(cval(r)))
                    if op == '<':
                        return cval(l) < cval(r)
                except TypeError:
                    return None
            if op in ('is', '==') and l == r and not contains(l, lambda s: s[0] == 'call'):
                return True
            if op == 'is' and r == NONE:
                if l[0] in ('new', 'tuple', 'list', 'dict', 'set', 'clo', 'lam', 'bin', 'ext', 'b', 'comp'):
                    return False
                if is_c(l):
                    return cval(l) is None
                if l[0] == 'g' or l[0] == 'localclass':
                    return False
                # truthiness known
                if st.facts.get(l) is True:
                    return False
                for f, v in st.facts.items():
                    if v and f[0] == 'cmp' and f[1] in ('==', 'is') and f[2] == l and is_c(f[3]):
                        return cval(f[3]) is None
            if op in ('==', 'is') and (l[0] == 'new' or r[0] == 'new') and l != r and op == 'is':
                return False
            if op == '==' and is_c(r):
                for f, v in st.facts.items():
                    if f[0] == 'cmp' and f[2] == l:
                        if f[1] == '==' and v and is_c(f[3]) and cval(f[3]) != cval(r):
                            return False
                        if f[1] == 'in' and f[3][0] == 'members':
                            if v and r not in f[3][1]:
                                return False
                            if not v and r in f[3][1]:
                                return False
            if op == 'in' and r[0] == 'members':
                if is_c(l):
                    return any(cval(x) == cval(l) for x in r[1])
                ms = set(r[1])
                for f, v in st.facts.items():
                    if f[0] == 'cmp' and f[2] == l:
                        if f[1] == '==' and v and is_c(f[3]):
                            return f[3] in ms
                        if f[1] == 'in' and f[3][0] == 'members':
                            fs = set(f[3][1])
                            if v and fs <= ms:
                                return True
                            if v and not (fs & ms):
                                return False
                            if not v and ms <= fs:
                                return False
                # all members excluded one by one
                if all(st.facts.get(('cmp', '==', l, x)) is False for x in r[1]):
                    return False
        # truthiness from `is None` fact
        if st.facts.get(('cmp', 'is', t, NONE)) is True:
            return False
        for f, v in st.facts.items():
            if v and f[0] == 'cmp' and f[1] in ('==', 'is') and f[2] == t and is_c(f[3]):
                return bool(cval(f[3]))
        return None

    def assume(self, t, st, node):
        t, pol = self.canon(t)
        k = self.decide(t, st)
        if k is not None:
            return [(k == pol, st)]
        out = []
        for v in (True, False):
            f = dict(st.facts)
            f[t] = v
            x = st.fork(facts=f)
            x = self.emit(x, 'assume', node, a=t, b=v)
            out.append((v == pol, x))
        return out

    # -- expressions -----------------------------------------------------------
    def ev_(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken('expression kind %s not handled (%s:%d)' % (type(e).__name__, self.mod.rel, getattr(e, 'lineno', 0)))
        return m(e, st)

    def seq(self, exprs, st):
        """Evaluate in order -> [(tuple(terms), state)]"""
        cur = [((), st)]
        for e in exprs:
            nx = []
            for ts, x in cur:
                if x.exit is not None:
                    nx.append((ts + (NONE,), x))
                    continue
                for t, y in self.ev_(e, x):
                    nx.append((ts + (t,), y))
            cur = nx
        return cur

    def e_Constant(self, e, st):
        return [(c(e.value), st)]

    def e_JoinedStr(self, e, st):
        vals = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(('fstr', ts), x) for ts, x in self.seq(vals, st)]

    def e_Name(self, e, st):
        return [(self.name(e.id, st), st)]

    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        return self.global_name(self.mod, n)

    def global_name(self, m, n):
        r = self.prog.resolve_name(m, n)
        return self.global_term(r, n)

    def global_term(self, r, n):
        if isinstance(r, Func):
            return ('g', r.qual)
        if isinstance(r, Class):
            return ('g', '%s.%s' % (r.module.name, r.name))
        if isinstance(r, Module):
            return ('mod', r.name)
        if isinstance(r, tuple) and r[0] == 'ext':
            return r
        if isinstance(r, tuple) and r[0] == 'const':
            return self.const_global(r[1], r[2])
        return ('b', n)

    def const_global(self, m, n):
        key = (m.name, n)
        cache = self.__dict__.setdefault('_gc', {})
        if key in cache:
            return cache[key]
        cache[key] = ('g', '%s.%s' % key)
        if n not in m.multi:
            e = m.consts[n]
            try:
                if isinstance(e, (ast.Constant, ast.Name, ast.Call, ast.BinOp, ast.Tuple, ast.UnaryOp, ast.Attribute)):
                    saved = self.keep
                    self.keep = lambda ev: False
                    self.stack.append((None, m, None))
                    inl = self.inline
                    self.inline = lambda f, d: False
                    try:
                        outs = self.ev_(e, State())
                    finally:
                        self.keep = saved
                        self.stack.pop()
                        self.inline = inl
                    if len(outs) == 1:
                        t = outs[0][0]
                        if is_c(t) or t[0] in ('tuple',) or (t[0] == 'call' and t[1][0] == 'ext'):
                            cache[key] = t
                elif False:
                    pass
            except AnalysisBroken:
                pass
        return cache[key]

    def e_Attribute(self, e, st):
        out = []
        for b, x in self.ev_(e.value, st):
            if x.exit is not None:
                out.append((NONE, x))
                continue
            out.extend(self.get_attr(b, e.attr, x, e))
        return out

    def get_attr(self, b, name, st, node):
        if b[0] == 'mod':
            m = self.prog.modules[b[1]]
            sub = (b[1] + '.' if b[1] else '') + name
            r = self.prog.resolve_name(m, name)
            if r is None and sub in self.prog.modules:
                return [(('mod', sub), st)]
            return [(self.global_term(r, name) if r is not None else ('a', b, name), st)]
        if b[0] == 'ext':
            return [(('ext', b[1] + '.' + name), st)]
        if (b, name) in st.heap:
            return [(st.heap[(b, name)], st)]
        cls = self.typeof(b, st)
        if cls is not None:
            g = cls.getter(name)
            if g is not None and self.may_inline(g):
                return self.call_func(g, (b,), (), st, node)
            if g is None and b[0] != 'new' and cls.attr(name) is not None and cls.find('methods', name) is None:
                v = cls.attr(name)
                if isinstance(v, ast.Constant):
                    # class level default; instance may override, keep symbolic
                    pass
        return [(('a', b, name), st)]

    def e_Subscript(self, e, st):
        out = []
        for b, x in self.ev_(e.value, st):
            if x.exit is not None:
                out.append((NONE, x))
                continue
            for i, y in self.ev_(e.slice, x):
                if y.exit is None:
                    cls = self.typeof(b, y)
                    f = cls.method('__getitem__') if cls is not None else None
                    if f is not None and self.may_inline(f):
                        out.extend(self.call_func(f, (b, i), (), y, e))
                        continue
                    if self.keep_getitem:
                        y = self.emit(y, 'getitem', e, a=b, b=i)
                out.append((self.index(b, i), y))
        return out

    keep_getitem = False

    def index(self, b, i):
        if b[0] in ('tuple', 'list') and is_c(i) and isinstance(cval(i), int) and -len(b[1]) <= cval(i) < len(b[1]):
            return b[1][cval(i)]
        if is_c(b) and isinstance(cval(b), tuple) and is_c(i) and isinstance(cval(i), int):
            try:
                return c(cval(b)[cval(i)])
            except IndexError:
                pass
        if b[0] == 'dict' and is_c(i):
            for k, v in b[1]:
                if k == i:
                    return v
        return ('i', b, i)

    def e_Slice(self, e, st):
        parts = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
        return [(('slice',) + ts, x) for ts, x in self.seq(parts, st)]

    def e_Index(self, e, st):
        return self.ev_(e.value, st)

    def e_Tuple(self, e, st):
        return [(self.mkseq('tuple', ts), x) for ts, x in self.seq([a for a in e.elts], st)]

    def mkseq(self, kind, ts):
        out = []
        for t in ts:
            if t[0] == 'star' and t[1][0] in ('tuple', 'list'):
                out.extend(t[1][1])
            else:
                out.append(t)
        return (kind, tuple(out))

    def e_List(self, e, st):
        return [(self.mkseq('list', ts), x) for ts, x in self.seq(e.elts, st)]

    def e_Set(self, e, st):
        return [(self.mkseq('set', ts), x) for ts, x in self.seq(e.elts, st)]

    def e_Dict(self, e, st):
        keys = [k if k is not None else ast.Constant(value='**') for k in e.keys]
        out = []
        for ks, x in self.seq(keys, st):
            if x.exit is not None:
                out.append((NONE, x))
                continue
            for vs, y in self.seq(e.values, x):
                out.append((('dict', tuple(zip(ks, vs))), y))
        return out

    def e_Starred(self, e, st):
        return [(('star', t), x) for t, x in self.ev_(e.value, st)]

    def binop(self, op, l, r):
        if is_c(l) and is_c(r):
            try:
                a, b = cval(l), cval(r)
                v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                     '//': lambda: a // b, '%': lambda: a % b, '<<': lambda: a << b if b < 256 else None,
                     '>>': lambda: a >> b, '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                     '**': lambda: a ** b if abs(b) < 128 else None}[op]()
                if v is not None and not (isinstance(v, (str, bytes)) and len(v) > 4096):
                    return c(v)
            except Exception:
                pass
        return ('bin', op, l, r)

    def e_BinOp(self, e, st):
        return [(self.binop(BINOPS[type(e.op)], ts[0], ts[1]) if x.exit is None else NONE, x)
                for ts, x in self.seq([e.left, e.right], st)]

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(c(bool(p)), x) for p, x in self.cond(e, st)] if self.fork_bool(e) else \
                [(('un', 'not', t), x) for t, x in self.ev_(e.operand, st)]
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        out = []
        for t, x in self.ev_(e.operand, st):
            if is_c(t) and isinstance(cval(t), (int, float)):
                v = cval(t)
                t2 = c(-v) if op == '-' else (c(+v) if op == '+' else (c(~v) if isinstance(v, int) else ('un', op, t)))
            else:
                t2 = ('un', op, t)
            out.append((t2, x))
        return out

    def fork_bool(self, e):
        return False

    def e_BoolOp(self, e, st):
        # value semantics of and/or: fork on each operand
        isand = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for n, v in enumerate(e.values):
            last = n == len(e.values) - 1
            nxt = []
            for x in cur:
                for t, y in self.ev_(v, x):
                    if y.exit is not None:
                        out.append((NONE, y))
                        continue
                    if last:
                        out.append((t, y))
                        continue
                    for p, z in self.assume(t, y, v):
                        if p == isand:
                            nxt.append(z)
                        else:
                            out.append((t, z))
            cur = nxt
        return out

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for ts, x in self.seq([e.left, e.comparators[0]], st):
                if x.exit is not None:
                    out.append((NONE, x))
                    continue
                t = ('cmp', CMPOPS[type(e.ops[0])], ts[0], ts[1])
                ct, pol = self.canon(t)
                k = self.decide(ct, x) if (is_c(ts[0]) or ts[0][0] == 'new') else None
                if k is not None:
                    out.append((c(k == pol), x))
                else:
                    out.append((t, x))
            return out
        # a < b < c
        out = []
        for ts, x in self.seq([e.left] + e.comparators, st):
            if x.exit is not None:
                out.append((NONE, x))
                continue
            cur = [x]
            for i, op in enumerate(e.ops):
                nx = []
                for y in cur:
                    for p, z in self.assume(('cmp', CMPOPS[type(op)], ts[i], ts[i + 1]), y, e):
                        if p:
                            nx.append(z)
                        else:
                            out.append((FALSE, z))
                cur = nx
            out.extend((TRUE, y) for y in cur)
        return out

    def e_IfExp(self, e, st):
        out = []
        for p, x in self.cond(e.test, st):
            if x.exit is not None:
                out.append((NONE, x))
            else:
                out.extend(self.ev_(e.body if p else e.orelse, x))
        return out

    def e_NamedExpr(self, e, st):
        return [(v, x.setlocal(e.target.id, v) if x.exit is None else x) for v, x in self.ev_(e.value, st)]

    def e_Lambda(self, e, st):
        key = ('lam', id(e), 'lambda')
        self.closures[key] = (e, st.env, self.stack[-1])
        return [(key, st)]

    def e_Await(self, e, st):
        return self.ev_(e.value, st)

    def e_Yield(self, e, st):
        if e.value is None:
            return [(NONE, self.emit(st, 'yield', e, a=NONE))]
        return [(('yielded',), self.emit(x, 'yield', e, a=v) if x.exit is None else x) for v, x in self.ev_(e.value, st)]

    def e_YieldFrom(self, e, st):
        return [(('yielded',), self.emit(x, 'yieldfrom', e, a=v) if x.exit is None else x) for v, x in self.ev_(e.value, st)]

    def comp(self, e, elts, kind, st):
        cur = [((), (), st)]
        outer = st.env
        for g in e.generators:
            nx = []
            for its, conds, x in cur:
                for it, y in self.ev_(g.iter, x):
                    if y.exit is not None:
                        nx.append((its, conds, y))
                        continue
                    y = self.emit(y, 'compiter', g.iter, a=it)
                    ys = self.assign(g.target, self.elem(it), y)
                    cs = ()
                    for cnd in g.ifs:
                        zs = []
                        for y2 in ys:
                            for t, z in self.ev_(cnd, y2):
                                zs.append(z)
                                ct, pol = self.canon(t)
                                cs = cs + ((ct, pol),)
                        ys = zs[:1] if zs else ys
                    for y2 in ys:
                        nx.append((its + (it,), conds + cs, y2))
            cur = nx
        out = []
        for its, conds, x in cur:
            if x.exit is not None:
                out.append((NONE, x))
                continue
            for ts, y in self.seq(elts, x):
                for _ in its:
                    y = self.emit(y, 'compend', e)
                out.append((('comp', kind, ts, its, conds), y.fork(env=outer)))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, [e.elt], 'list', st)

    def e_SetComp(self, e, st):
        return self.comp(e, [e.elt], 'set', st)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, [e.elt], 'gen', st)

    def e_DictComp(self, e, st):
        return self.comp(e, [e.key, e.value], 'dict', st)

    # -- calls ---------------------------------------------------------------
    def typeof(self, t, st=None):
        if t in self.typeenv:
            return self.typeenv[t]
        if self.types is None:
            return None
        return self.types.typeof(t, self)

    def may_inline(self, f):
        if len(self.stack) > self.max_depth:
            return False
        if sum(1 for s in self.stack if s[0] is f) >= 1:
            return False
        return self.inline(f, len(self.stack))

    def e_Call(self, e, st):
        out = []
        # super().m(...) / super(X, self).m(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            fr = self.stack[-1]
            cls = fr[2]
            target = None
            if cls is not None:
                for b in cls.mro()[1:]:
                    if e.func.attr in b.methods:
                        target = b.methods[e.func.attr]
                        break
            selft = st.env.get(fr[0].params[0]) if fr[0] is not None and getattr(fr[0], 'params', None) else ('p', 'self')
            for args, kw, x in self.args(e, st):
                if x.exit is not None:
                    out.append((NONE, x))
                    continue
                if target is not None and self.may_inline(target):
                    out.extend(self.call_func(target, (selft,) + args, kw, x, e))
                else:
                    out.append(self.opaque(('a', ('super', cls.name if cls else '?'), e.func.attr), e.func.attr,
                                           ('super', cls.name if cls else '?'), args, kw, x, e, target))
            return out
        if isinstance(e.func, ast.Attribute):
            for b, x in self.ev_(e.func.value, st):
                if x.exit is not None:
                    out.append((NONE, x))
                    continue
                if b[0] in ('mod', 'ext'):
                    for ft, y in self.get_attr(b, e.func.attr, x, e.func):
                        for args, kw, z in self.args(e, y):
                            out.extend(self.call_term(ft, args, kw, z, e))
                    continue
                for args, kw, y in self.args(e, x):
                    if y.exit is not None:
                        out.append((NONE, y))
                        continue
                    if e.func.attr in MUTATORS and (b[0] in ('list', 'dict', 'set') or
                                                    b[0] == 'call' and b[1] in FRESH and isinstance(e.func.value, ast.Attribute)):
                        out.extend(self.mutate_literal(e, b, args, kw, y))
                        continue
                    out.extend(self.call_method(b, e.func.attr, args, kw, y, e))
            return out
        for ft, x in self.ev_(e.func, st):
            if x.exit is not None:
                out.append((NONE, x))
                continue
            for args, kw, y in self.args(e, x):
                out.extend(self.call_term(ft, args, kw, y, e))
        return out

    def mutate_literal(self, e, b, args, kw, st):
        """Mutator called on a container known as a literal: a local keeps being tracked
        when it is a list that grows, an attribute is named by its location from here on."""
        node = e.func.value
        if isinstance(node, ast.Attribute):
            out = []
            for base, x in self.ev_(node.value, st):
                loc = ('a', base, node.attr)
                h = dict(x.heap)
                h.pop((base, node.attr), None)
                out.extend(self.call_method(loc, e.func.attr, args, kw, x.fork(heap=h), e))
            return out
        out = self.call_method(b, e.func.attr, args, kw, st, e)
        if not isinstance(node, ast.Name) or b[0] != 'list':
            return out
        m, new = e.func.attr, None
        if len(b[1]) < 12:
            if m == 'append' and len(args) == 1:
                new = ('list', b[1] + (args[0],))
            elif m == 'extend' and len(args) == 1 and args[0][0] in ('list', 'tuple'):
                new = ('list', b[1] + args[0][1])
            elif m == 'insert' and len(args) == 2 and args[0] == c(0):
                new = ('list', (args[1],) + b[1])
        res = []
        for v, x in out:
            if x.exit is None and x.env.get(node.id) == b:
                x = x.setlocal(node.id, new if new is not None else ('obj', 'list', x.n, node.id))
            res.append((v, x))
        return res

    def args(self, e, st):
        exprs = list(e.args) + [k.value for k in e.keywords]
        res = []
        for ts, x in self.seq(exprs, st):
            pos, kw = [], []
            for a, t in zip(e.args, ts):
                if isinstance(a, ast.Starred):
                    inner = t[1] if t[0] == 'star' else t
                    if inner[0] in ('tuple', 'list'):
                        pos.extend(inner[1])
                    else:
                        pos.append(('star', inner))
                else:
                    pos.append(t)
            for k, t in zip(e.keywords, ts[len(e.args):]):
                if k.arg is None:
                    if t[0] == 'dict' and all(is_c(kk) for kk, _ in t[1]):
                        kw.extend((cval(kk), vv) for kk, vv in t[1])
                    else:
                        kw.append(('**', t))
                else:
                    kw.append((k.arg, t))
            res.append((tuple(pos), tuple(kw), x))
        return res

    def call_method(self, b, name, args, kw, st, node):
        # attribute holding a closure / function
        if (b, name) in st.heap:
            return self.call_term(st.heap[(b, name)], args, kw, st, node)
        cls = self.typeof(b, st)
        f = None
        if cls is not None:
            f = cls.method(name)
        elif self.types is not None and b[0] not in ('c', 'list', 'dict', 'tuple', 'set'):
            f = self.types.unique_method(name, b)
        if b[0] == 'g':
            # Class.method(self, ...)
            k = self.types.class_of_global(b[1], self.prog) if self.types is not None else None
            if k is not None:
                f = k.method(name)
                if f is not None:
                    if f.kind == 'classmethod':
                        args = (b,) + args
                    if self.may_inline(f):
                        return self.call_func(f, args, kw, st, node)
                    return [self.opaque(('g', f.qual), name, None, args, kw, st, node, f)]
        if f is not None and self.may_inline(f):
            a = args if f.kind == 'static' else (b,) + args
            return self.call_func(f, a, kw, st, node)
        if is_c(b) and name == 'join' and len(args) == 1 and args[0][0] in ('tuple', 'list') and all(is_c(x) for x in args[0][1]):
            try:
                return [(c(cval(b).join(cval(x) for x in args[0][1])), st)]
            except TypeError:
                pass
        return [self.opaque(('a', b, name), name, b, args, kw, st, node, f)]

    def own_literals(self, call):
        """Names passed to (or used as receiver of) the call that the function itself binds to
        a new container only"""
        names = [a.id for a in call.args if isinstance(a, ast.Name)]
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name):
            names.append(call.func.value.id)
        if not names:
            return ()
        key = (self.mod.name, id(call))
        if key in _OWN:
            return _OWN[key][1]
        mk = id(self.mod)
        if mk not in _ENCLOSING:
            table = {}
            for f in ast.walk(self.mod.tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                    for x in ast.walk(f):
                        if isinstance(x, ast.Call):
                            table[id(x)] = f        # the innermost one comes last
            _ENCLOSING[mk] = (self.mod, table)
        best = _ENCLOSING[mk][1].get(id(call))
        out = []
        for n in names if best is not None else ():
            vals = [s.value for s in ast.walk(best) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets) and len(s.targets) == 1]
            if vals and all(isinstance(v, (ast.List, ast.Dict, ast.Set)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set') for v in vals):
                out.append(n)
        _OWN[key] = (call, tuple(out))
        return _OWN[key][1]

    def opaque(self, ft, name, recv, args, kw, st, node, func=None):
        pure = self.is_pure(name, recv)
        if not pure:
            # a container just stored in an attribute may be filled by the callee: from here
            # on it is known by its location only
            own = self.own_literals(node) if isinstance(node, ast.Call) else ()
            for a in args + ((recv,) if recv is not None else ()):
                if a[0] in ('list', 'dict', 'set') and not a[1] or a[0] == 'call' and a[1] in FRESH and len(a[2]) <= 1:
                    if any(st.env.get(n) == a for n in own):
                        continue        # a local's own container, not the attribute's
                    locs = [k for k, v in st.heap.items() if v == a]
                    if len(locs) == 1:
                        h = dict(st.heap)
                        del h[locs[0]]
                        st = st.fork(heap=h)
                        loc = ('a',) + locs[0]
                        args = tuple(loc if x == a else x for x in args)
                        if recv == a:
                            recv, ft = loc, ('a', loc, name)
        n = 0 if pure else st.n + 1
        t = ('call', ft, args, kw, n)
        if not pure:
            st = st.fork(n=n)
            st = self.emit(st, 'call', node, name=name, recv=recv, args=args, kw=kw, v=t, func=func, fn=ft)
            st = self.invalidate(st)
        return (t, st)

    pure_methods = frozenset(('tell', 'path', 'is_mini_stream', 'sector_size', 'isdir', 'isfile', 'isroot',
                              'format', 'join', 'split', 'strip', 'upper', 'lower', 'startswith', 'endswith',
                              'lstrip', 'rstrip', 'replace', 'encode', 'decode', 'hex', 'items', 'keys', 'values'))

    def is_pure(self, name, recv):
        return recv is not None and name in self.pure_methods

    def call_term(self, ft, args, kw, st, node):
        if st.exit is not None:
            return [(NONE, st)]
        if ft[0] in ('clo', 'lam'):
            return self.call_closure(ft, args, kw, st, node)
        if ft[0] == 'raw':
            f = ft[1]
            if self.may_inline(f) or True:
                return self.call_func(f, args, kw, st, node, raw=True)
        if ft[0] == 'g':
            r = self.types.global_obj(ft[1], self.prog) if self.types is not None else None
            if isinstance(r, Func):
                if self.may_inline(r):
                    return self.call_func(r, args, kw, st, node)
                return [self.opaque(ft, r.name, None, args, kw, st, node, r)]
            if isinstance(r, Class):
                init = r.method('__init__')
                n = st.n + 1
                t = ('new', ft[1], args, kw, n)
                st = st.fork(n=n)
                st = self.emit(st, 'new', node, name=r.name, args=args, kw=kw, v=t, func=init)
                if init is not None and self.may_inline(init):
                    return [(t if x.exit is None else NONE, x) for _, x in self.call_func(init, (t,) + args, kw, st, node)]
                return [(t, st)]
        if ft[0] == 'a':
            return self.call_method(ft[1], ft[2], args, kw, st, node)
        if ft[0] == 'b':
            n = ft[1]
            if n in PURE_BUILTINS:
                if n == 'str' and len(args) == 1 and is_c(args[0]) and isinstance(cval(args[0]), (str, int)):
                    return [(c(str(cval(args[0]))), st)]
                if n == 'int' and len(args) == 1 and is_c(args[0]) and isinstance(cval(args[0]), (int, float)):
                    return [(c(int(cval(args[0]))), st)]
                if n == 'len' and len(args) == 1 and self.keep_getitem:
                    st = self.emit(st, 'len', node, a=args[0])
                if n in ('len',) and len(args) == 1:
                    if args[0][0] in ('tuple', 'list'):
                        return [(c(len(args[0][1])), st)]
                    if is_c(args[0]) and isinstance(cval(args[0]), (str, bytes, tuple)):
                        return [(c(len(cval(args[0]))), st)]
                if n in ('tuple', 'list') and len(args) == 1 and args[0][0] in ('tuple', 'list'):
                    return [((n, args[0][1]), st)]
                if n in ('min', 'max', 'pow', 'abs') and args and not kw and all(is_c(a) and isinstance(cval(a), int) for a in args):
                    try:
                        return [(c({'min': min, 'max': max, 'pow': pow, 'abs': abs}[n](*[cval(a) for a in args])), st)]
                    except Exception:
                        pass
                if n == 'isinstance' and len(args) == 2 and self.types is not None:
                    k = self.types.isinstance_(args[0], args[1], self)
                    if k is not None:
                        return [(c(k), st)]
                if n == 'hasattr' and len(args) == 2 and self.kind is not None and self.types.is_entry(args[0]) and is_c(args[1]):
                    a = cval(args[1])
                    if self.kind.method(a) or self.kind.getter(a):
                        return [(c(True), st)]
                    if not any(isinstance(x, ast.Attribute) and x.attr == a for k in self.kind.mro() for f in k.all_funcs() for x in ast.walk(f.node)) \
                            and not any(k.attrs.get(a) for k in self.kind.mro()):
                        return [(c(False), st)]
                return [(('call', ft, args, kw, 0), st)]
            if n == 'print':
                return [(NONE, st)]
            return [self.opaque(ft, n, None, args, kw, st, node)]
        if ft[0] == 'ext':
            n = ft[1]
            if n.startswith('logging.') or n.startswith('warnings.'):
                return [(NONE, st)]
            if n.startswith('math.') or n in ('struct.calcsize', 'struct.Struct', 'struct.pack', 'struct.unpack',
                                              'struct.unpack_from', 'os.path.dirname', 'os.path.basename',
                                              'os.path.join', 'array.array', 'weakref.ref', 'collections.deque',
                                              'weakref.WeakValueDictionary', 'weakref.proxy'):
                return [(('call', ft, args, kw, 0), st)]
            return [self.opaque(ft, n, None, args, kw, st, node)]
        return [self.opaque(ft, show(ft), None, args, kw, st, node)]

    # -- inlining -------------------------------------------------------------
    def bind(self, a, args, kw, defaults_env, st):
        """Bind arguments to an ast.arguments -> env dict (None when it does not fit)."""
        env = {}
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        star = [x for x in args if x[0] == 'star']
        pos = [x for x in args if x[0] != 'star']
        for n, v in zip(names, pos):
            env[n] = v
        rest = pos[len(names):]
        if a.vararg:
            if star and not rest:
                env[a.vararg.arg] = star[0][1]
            else:
                env[a.vararg.arg] = ('tuple', tuple(rest))
        extra = []
        kwnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw:
            if k in kwnames:
                env[k] = v
            elif k == '**':
                if a.kwarg:
                    env[a.kwarg.arg] = v
            else:
                extra.append((c(k), v))
        if a.kwarg and a.kwarg.arg not in env:
            env[a.kwarg.arg] = ('dict', tuple(extra))
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.default(d)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in env and d is not None:
                env[n.arg] = self.default(d)
        for n in names:
            if n not in env:
                env[n] = ('unbound', n)
        return env

    def default(self, d):
        outs = self.ev_(d, State())
        return outs[0][0]

    def call_func(self, f, args, kw, st, node, force=False, raw=False):
        if f.decorators and not raw:
            fn = ('raw', f)
            cur = [(fn, st)]
            for d in reversed(f.decorators):
                nx = []
                for t, x in cur:
                    if self._transparent(d):
                        nx.append((t, x))
                        continue
                    r = self.prog.resolve_expr(f.module, d if not isinstance(d, ast.Call) else d.func)
                    if not isinstance(r, Func):
                        nx.append((t, x))
                        continue
                    if isinstance(d, ast.Call):
                        self.stack.append((f, f.module, f.cls))
                        try:
                            avals = self.args(d, x)
                        finally:
                            self.stack.pop()
                        for dargs, dkw, y in avals:
                            for t2, z in self.call_func(r, dargs, dkw, y, node, force=True):
                                nx.extend(self.call_term(t2, (t,), (), z, node))
                    else:
                        nx.extend(self.call_func(r, (t,), (), x, node, force=True))
                cur = nx
            out = []
            for t, x in cur:
                out.extend(self.call_term(t, args, kw, x, node) if x.exit is None else [(NONE, x)])
            return out
        self.visited_funcs.add(f.qual)
        self.stack.append((f, f.module, f.cls))
        try:
            env = self.bind(f.node.args, args, kw, None, st)
            for v, ty in self._bound_types(f, env):
                self.typeenv.setdefault(v, ty)
            return self._run_body(f.node.body, env, st)
        finally:
            self.stack.pop()

    def _bound_types(self, f, env):
        return []

    def _transparent(self, d):
        s = ast.unparse(d)
        return 'wraps' in s or s in ('functools.lru_cache', 'staticmethod', 'classmethod')

    def _run_body(self, body, env, st):
        saved = st.env
        st = st.fork(env=env)
        res = self.block(body, [st])
        out = []
        for x in res:
            if x.exit is None:
                out.append((NONE, x.fork(env=saved)))
            elif x.exit[0] == 'ret':
                out.append((x.exit[1], x.fork(env=saved, exit=None)))
            else:
                out.append((NONE, x.fork(env=saved)))
        # merge states that only differed in callee locals
        seen, merged = {}, []
        for v, x in out:
            k = (v, frozenset(x.heap.items()), x.ev, x.exit)
            if k in seen:
                o = seen[k]
                o.facts = {t: b for t, b in o.facts.items() if x.facts.get(t, None) == b}
                o.n = max(o.n, x.n)
            else:
                x = x.fork()
                seen[k] = x
                merged.append((v, x))
        self.check_size([x for _, x in merged])
        return merged

    def call_closure(self, key, args, kw, st, node):
        fnode, env, frame = self.closures[key]
        if sum(1 for s in self.stack if s[0] == key) >= 1 or len(self.stack) > self.max_depth + 4:
            return [self.opaque(key, key[2], None, args, kw, st, node)]
        self.stack.append((key, frame[1], frame[2]))
        try:
            loc = dict(env)
            if frame[0] is not None and st.env and False:
                pass
            loc.update(self.bind(fnode.args, args, kw, None, st))
            if isinstance(fnode, ast.Lambda):
                saved = st.env
                return [(v, x.fork(env=saved)) for v, x in self.ev_(fnode.body, st.fork(env=loc))]
            return self._run_body(fnode.body, loc, st)
        finally:
            self.stack.pop()
