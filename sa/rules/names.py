"""C29: lengths and characters of the storage names the package makes up.

Abstract interpretation over string lengths: an integer is a linear expression over atoms, a string
is an upper bound of its length (again linear), the reserved characters it may contain, and, where it
is a formatted identifier, its exact shape."""
import ast
import uuid
from .util import *
from ..consts import const, NotConst
from ..model import Func, Class

LIMIT = 31                      # 32 utf-16 units with the terminator
RESERVED = frozenset('/\\:!')
NAMED = ('stream_name', 'ref', 'index_name', '_index_name')
U16, U32 = 0xFFFF, 0xFFFFFFFF


class Lin(object):
    __slots__ = ('c', 'k')

    def __init__(self, k=0, c=None):
        self.k, self.c = k, {a: v for a, v in (c or {}).items() if v}

    def __add__(self, o):
        c_ = dict(self.c)
        for a, v in o.c.items():
            c_[a] = c_.get(a, 0) + v
        return Lin(self.k + o.k, c_)

    def times(self, n):
        return Lin(self.k * n, {a: v * n for a, v in self.c.items()})

    def __sub__(self, o):
        return self + o.times(-1)

    def const(self):
        return self.k if not self.c else None

    def key(self):
        return (self.k, tuple(sorted(self.c.items(), key=str)))

    def __repr__(self):
        return ' + '.join(['%s*%s' % (v, a) for a, v in self.c.items()] + [str(self.k)])


class Int(object):
    def __init__(self, lin, lo=None, hi=None):
        self.lin, self.lo, self.hi = lin, lo, hi


class Str(object):
    def __init__(self, lin, exact=False, chars=frozenset(), shape=None):
        self.lin, self.exact, self.chars, self.shape = lin, exact, chars, shape


class Lst(Str):
    """a list of strings, by the length of all of them together"""


class Cannot(Exception):
    pass


def appended(s):
    """the list a statement adds to"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'extend') \
            and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1:
        return s.value.func.value.id
    return None


class Names(object):
    def __init__(self, cx):
        self.cx = cx
        self.prog = cx.prog
        self.range = {}
        self.n = 0
        self.bound = {}          # attribute -> Lin const bound of generated values
        self.depth = 0

    def atom(self, what, lo=0, hi=None):
        a = what
        if a not in self.range:
            self.range[a] = (lo, hi)
        return Lin(0, {a: 1})

    def fresh(self, what, lo=0, hi=None):
        self.n += 1
        return self.atom('%s#%d' % (what, self.n), lo, hi)

    # ---------------------------------------------------------------- bounds
    def upper(self, lin, conds=()):
        """largest value of a linear expression, None if it has no bound"""
        best = self._upper(lin)
        for cnd in conds:
            for a, v in lin.c.items():
                w = cnd.c.get(a, 0)
                if w and (v > 0) == (w > 0) and v % w == 0:
                    b = self._upper(lin - cnd.times(v // w))
                    if b is not None and (best is None or b < best):
                        best = b
        return best

    def _upper(self, lin):
        r = lin.k
        for a, v in lin.c.items():
            lo, hi = self.range.get(a, (None, None))
            x = hi if v > 0 else lo
            if x is None:
                return None
            r += v * x
        return r

    def lower(self, lin):
        u = self._upper(lin.times(-1))
        return None if u is None else -u

    # ---------------------------------------------------------------- expressions
    def text(self, s):
        return Str(Lin(len(s)), True, frozenset(s) & RESERVED, s)

    def digits(self, v, base, extra=0):
        hi = v.hi if v.hi is not None else self._upper(v.lin)
        if hi is None:
            raise Cannot('number without a bound')
        n = len(('%x' if base == 16 else '%d') % hi)
        return Str(self.fresh('digits', 1, n) + Lin(extra), True)

    def cat(self, *parts):
        lin, exact, chars, shape = Lin(0), True, frozenset(), ''
        for p in parts:
            if not isinstance(p, Str):
                raise Cannot('not a string')
            lin = lin + p.lin
            exact = exact and p.exact
            chars |= p.chars
            shape = shape + p.shape if shape is not None and p.shape is not None else None
        return Str(lin, exact, chars, shape)

    def ev(self, e, env, f):
        """value of an expression; raises Cannot"""
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None:
                raise Cannot('constant')
            if isinstance(e.value, int):
                return Int(Lin(e.value), e.value, e.value)
            if isinstance(e.value, str):
                return self.text(e.value)
            raise Cannot('constant')
        if isinstance(e, ast.Name):
            if e.id in env:
                if env[e.id] is None:
                    raise Cannot(e.id)
                return env[e.id]
            try:
                v = const(self.prog, f.module, e)
            except NotConst:
                raise Cannot(e.id)
            if isinstance(v, int):
                return Int(Lin(v), v, v)
            if isinstance(v, str):
                return self.text(v)
            raise Cannot(e.id)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, env, f)
        if isinstance(e, (ast.List, ast.Tuple)):
            v = self.cat(*[self.ev(x, env, f) for x in e.elts])
            return Lst(v.lin, v.exact, v.chars)
        if isinstance(e, ast.JoinedStr):
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(self.text(x.value))
                else:
                    spec = ''
                    if x.format_spec is not None:
                        spec = ''.join(y.value for y in x.format_spec.values if isinstance(y, ast.Constant))
                    parts.append(self.put(self.ev(x.value, env, f), spec or 's'))
            return self.cat(*parts)
        if isinstance(e, ast.BinOp):
            return self.binop(e, env, f)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env, f)
            if isinstance(v, Int):
                return Int(v.lin.times(-1), None if v.hi is None else -v.hi, None if v.lo is None else -v.lo)
            raise Cannot('-')
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env, f)
        if isinstance(e, ast.Call):
            return self.call(e, env, f)
        if isinstance(e, ast.IfExp):
            a, b = self.ev(e.body, env, f), self.ev(e.orelse, env, f)
            return self.join([a, b])
        raise Cannot(type(e).__name__)

    def join(self, vs):
        if not vs:
            raise Cannot('nothing')
        if len(vs) == 1:
            return vs[0]
        if all(isinstance(v, Str) for v in vs):
            keys = set(v.lin.key() for v in vs)
            chars = frozenset().union(*[v.chars for v in vs])
            if len(keys) == 1:
                return Str(vs[0].lin, all(v.exact for v in vs), chars)
            ups = [self._upper(v.lin) for v in vs]
            if None in ups:
                raise Cannot('join')
            return Str(Lin(max(ups)), False, chars)
        raise Cannot('join')

    def attribute(self, e, env, f):
        a = e.attr
        if a == 'pid' or a.endswith('_pid'):
            return Int(self.atom('pid', 0, U16), 0, U16)
        if a in ('property_name', 'class_name', 'element_name'):
            return Str(self.atom('len(name)'), True, RESERVED)
        if a in self.bound:
            return Str(Lin(self.bound[a]), False)
        if a in ('next_free_key', 'last_free_key'):
            return Int(self.fresh('key', 0, U32), 0, U32)
        if a == 'hex':
            v = self.ident(e.value, f)
            if v:
                return self.text('x' * 32)
        # an attribute that is only ever computed from others
        raise Cannot(a)

    def ident(self, e, f):
        """expression yields an identifier object"""
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            return n in ('uuid4', 'uuid1', 'UUID', 'AUID')
        return False

    def put(self, v, spec):
        spec = spec.lstrip('#')
        width = 0
        body = spec.rstrip('sxXdiu')
        kind = spec[len(body):] or 's'
        if body:
            if not body.lstrip('0-+ <>').isdigit():
                raise Cannot('format %s' % spec)
            width = int(body.lstrip('0-+ <>'))
        if kind in ('s',):
            if isinstance(v, Int):
                v = self.digits(v, 10)
            if width:
                raise Cannot('padding')
            return v
        if not isinstance(v, Int):
            raise Cannot('format')
        s = self.digits(v, 16 if kind in ('x', 'X') else 10)
        if width:
            hi = max(width, self._upper(s.lin))
            s = Str(self.fresh('digits', width, hi), True)
        return s

    def formatted(self, fmt, args):
        out, i, k = [], 0, 0
        buf = ''
        while i < len(fmt):
            if fmt[i] != '%':
                buf += fmt[i]
                i += 1
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] in '0123456789-+# ':
                j += 1
            if j >= len(fmt):
                raise Cannot('format')
            if fmt[j] == '%':
                buf += '%'
            else:
                if k >= len(args):
                    raise Cannot('format arguments')
                out.append(self.text(buf))
                buf = ''
                out.append(self.put(args[k], fmt[i + 1:j + 1]))
                k += 1
            i = j + 1
        out.append(self.text(buf))
        return self.cat(*out)

    def binop(self, e, env, f):
        if isinstance(e.op, ast.Mod):
            l = self.ev(e.left, env, f)
            if isinstance(l, Str) and l.shape is not None:
                xs = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
                return self.formatted(l.shape, [self.ev(x, env, f) for x in xs])
        l, r = self.ev(e.left, env, f), self.ev(e.right, env, f)
        if isinstance(l, Str) and isinstance(r, Str) and isinstance(e.op, ast.Add):
            return self.cat(l, r)
        if isinstance(l, Int) and isinstance(r, Int):
            return self.arith(e.op, l, r)
        if isinstance(e.op, ast.Mult) and isinstance(l, Str) and isinstance(r, Int) and r.lin.const() is not None:
            return Str(l.lin.times(max(0, r.lin.k)), l.exact, l.chars)
        raise Cannot('operator')

    def arith(self, op, l, r):
        def both(fn):
            lo = fn(l.lo, r.lo) if l.lo is not None and r.lo is not None else None
            hi = fn(l.hi, r.hi) if l.hi is not None and r.hi is not None else None
            return lo, hi
        if isinstance(op, ast.Add):
            return Int(l.lin + r.lin, *both(lambda a, b: a + b))
        if isinstance(op, ast.Sub):
            lo = l.lo - r.hi if l.lo is not None and r.hi is not None else None
            hi = l.hi - r.lo if l.hi is not None and r.lo is not None else None
            return Int(l.lin - r.lin, lo, hi)
        k = r.lin.const()
        if isinstance(op, ast.Mult):
            if k is not None:
                return Int(l.lin.times(k))
            if l.lin.const() is not None:
                return Int(r.lin.times(l.lin.k))
        if isinstance(op, ast.BitAnd):
            m = k if k is not None else l.lin.const()
            if m is not None and m >= 0:
                return Int(self.fresh('and', 0, m), 0, m)
        if isinstance(op, (ast.FloorDiv, ast.RShift)) and k is not None and k > 0:
            d = k if isinstance(op, ast.FloorDiv) else 1 << k
            if l.lin.const() is not None:
                return Int(Lin(l.lin.k // d), l.lin.k // d, l.lin.k // d)
            lo, hi = self.lower(l.lin), self._upper(l.lin)
            return Int(self.atom(('div', l.lin.key(), d), None if lo is None else lo // d, None if hi is None else hi // d))
        if isinstance(op, ast.Mod) and k is not None and k > 0:
            return Int(self.fresh('mod', 0, k - 1), 0, k - 1)
        raise Cannot('arithmetic')

    def subscript(self, e, env, f):
        if isinstance(e.value, ast.Attribute) and e.value.attr == 'references' or isinstance(e.value, ast.Name) and e.value.id == 'references':
            return Int(self.fresh('key', 0, U32), 0, U32)
        v = self.ev(e.value, env, f)
        if not isinstance(v, Str):
            raise Cannot('index')
        if not isinstance(e.slice, ast.Slice):
            return Str(Lin(1), True, v.chars)
        if e.slice.step is not None:
            raise Cannot('step')
        a = self.ev(e.slice.lower, env, f) if e.slice.lower is not None else Int(Lin(0), 0, 0)
        b = self.ev(e.slice.upper, env, f) if e.slice.upper is not None else None
        if not isinstance(a, Int) or b is not None and not isinstance(b, Int):
            raise Cannot('slice')
        if v.shape is not None and a.lin.const() is not None and (b is None or b.lin.const() is not None):
            return self.text(v.shape[a.lin.k:b.lin.k if b is not None else None])
        if b is None:
            hi = self._upper(a.lin)
            if hi is not None and hi < 0:
                return Str(a.lin.times(-1), False, v.chars)
            # a start counted from the end, or from the front
            return Str(v.lin - a.lin, False, v.chars)
        lo = self.lower(b.lin)
        if lo is None or lo < 0:
            hb = self._upper(b.lin)
            if hb is not None and hb < 0:
                return Str(v.lin + b.lin - a.lin, False, v.chars)
            if a.lin.const() == 0 and not v.exact:
                raise Cannot('slice')
        ha = self._upper(a.lin)
        if ha is not None and ha < 0:
            raise Cannot('slice')
        return Str(b.lin - a.lin, False, v.chars)

    def call(self, e, env, f):
        fn = e.func
        if isinstance(fn, ast.Name):
            if fn.id == 'list' and len(e.args) <= 1:
                v = self.ev(e.args[0], env, f) if e.args else self.text('')
                return Lst(v.lin, v.exact, v.chars)
            if fn.id == 'len' and len(e.args) == 1:
                v = self.ev(e.args[0], env, f)
                if not isinstance(v, Str) or isinstance(v, Lst):
                    raise Cannot('len')
                if v.exact:
                    return Int(v.lin)
                hi = self._upper(v.lin)
                return Int(self.fresh('len', 0, hi))
            if fn.id in ('str', 'unicode') and len(e.args) == 1:
                if self.ident(e.args[0], f):
                    return self.text('xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx')
                v = self.ev(e.args[0], env, f)
                return self.digits(v, 10) if isinstance(v, Int) else v
            if fn.id == 'hex' and len(e.args) == 1:
                v = self.ev(e.args[0], env, f)
                if isinstance(v, Int):
                    return self.digits(v, 16, 2)
            if fn.id == 'int' and len(e.args) == 1:
                v = self.ev(e.args[0], env, f)
                if isinstance(v, Int):
                    return v
            if fn.id in ('min', 'max') and len(e.args) == 2:
                a, b = [self.ev(x, env, f) for x in e.args]
                if isinstance(a, Int) and isinstance(b, Int):
                    if a.lin.const() is not None and b.lin.const() is not None:
                        v = (min if fn.id == 'min' else max)(a.lin.k, b.lin.k)
                        return Int(Lin(v), v, v)
                    us = [x for x in (self._upper(a.lin), self._upper(b.lin)) if x is not None]
                    if us and (fn.id == 'min' or len(us) == 2):
                        return Int(self.fresh(fn.id, 0, (min if fn.id == 'min' else max)(us)))
            g = self.prog.resolve_name(f.module, fn.id)
            if isinstance(g, Func):
                return self.apply(g, e, env, f, None)
            raise Cannot('call of %s' % fn.id)
        if isinstance(fn, ast.Attribute):
            a = fn.attr
            if a == 'replace' and len(e.args) == 2:
                v, x, y = self.ev(fn.value, env, f), self.ev(e.args[0], env, f), self.ev(e.args[1], env, f)
                if not all(isinstance(t, Str) for t in (v, x, y)):
                    raise Cannot('replace')
                chars = (v.chars - (frozenset(x.shape) if x.shape is not None and len(x.shape) == 1 else frozenset())) | y.chars
                if v.shape is not None and x.shape is not None and y.shape is not None:
                    return self.text(v.shape.replace(x.shape, y.shape))
                if x.lin.const() is not None and y.lin.const() is not None and y.lin.k <= x.lin.k:
                    return Str(v.lin, v.exact and x.lin.k == y.lin.k, chars)
                if x.lin.const() == 1 and y.lin.const() is not None:
                    return Str(v.lin.times(y.lin.k), False, chars)
                raise Cannot('replace')
            if a == 'format':
                v = self.ev(fn.value, env, f)
                if v.shape is None:
                    raise Cannot('format')
                return self.braces(v.shape, [self.ev(x, env, f) for x in e.args], {k.arg: self.ev(k.value, env, f) for k in e.keywords if k.arg})
            if a in ('strip', 'lstrip', 'rstrip') and not e.args:
                v = self.ev(fn.value, env, f)
                return Str(v.lin, False, v.chars)
            if a in ('lower', 'upper'):
                v = self.ev(fn.value, env, f)
                return Str(v.lin, v.exact, v.chars)
            if a == 'join' and len(e.args) == 1:
                sep = self.ev(fn.value, env, f)
                return self.joined(sep, e.args[0], env, f)
            if a == 'path' and not e.args:
                raise Cannot('path')
            g = self.prog.resolve_expr(f.module, fn)
            if isinstance(g, Func):
                return self.apply(g, e, env, f, None)
            outs = []
            for k in self.owners(a, f, fn.value):
                g = k.method(a)
                if g is not None and g not in [x for x, _ in outs]:
                    outs.append((g, None))
            if not outs or len(outs) > 4:
                raise Cannot('call of %s' % a)
            return self.join([self.apply(g, e, env, f, fn.value) for g, _ in outs])
        raise Cannot('call')

    def owners(self, name, f, recv):
        if isinstance(recv, ast.Name) and f.params and recv.id == f.params[0] and f.cls is not None:
            return [k for k in self.prog.subclasses(f.cls.name)] or [f.cls]
        return [k for ks in self.prog.classes.values() for k in ks if name in k.methods]

    def joined(self, sep, x, env, f):
        if isinstance(x, (ast.List, ast.Tuple)):
            parts = []
            for i, y in enumerate(x.elts):
                if i:
                    parts.append(sep)
                parts.append(self.ev(y, env, f))
            return self.cat(*parts)
        if isinstance(x, (ast.GeneratorExp, ast.ListComp)) and len(x.generators) == 1 and sep.lin.const() == 0:
            g = x.generators[0]
            src, var = self.items(g.iter, g.target, env, f)
            env2 = dict(env)
            env2.update(var)
            elt = x.elt
            chars = None
            if isinstance(elt, ast.IfExp) and isinstance(elt.test, ast.Compare) and len(elt.test.ops) == 1 and isinstance(elt.test.ops[0], (ast.In, ast.NotIn)):
                try:
                    inside = self.ev(elt.test.comparators[0], env2, f)
                    keep = elt.orelse if isinstance(elt.test.ops[0], ast.In) else elt.body
                    other = elt.body if isinstance(elt.test.ops[0], ast.In) else elt.orelse
                    if ast.dump(keep) == ast.dump(elt.test.left) and inside.shape is not None:
                        chars = (self.ev(keep, env2, f).chars - frozenset(inside.shape)) | self.ev(other, env2, f).chars
                except Cannot:
                    pass
            v = self.ev(elt, env2, f)
            if not isinstance(v, Str) or v.lin.const() is None:
                raise Cannot('join')
            ch = v.chars if chars is None else chars
            for cnd in g.ifs:
                if isinstance(cnd, ast.Compare) and len(cnd.ops) == 1 and isinstance(cnd.ops[0], ast.NotIn):
                    s = self.ev(cnd.comparators[0], env2, f)
                    if s.shape is not None:
                        ch = ch - frozenset(s.shape)
            return Str(src.times(v.lin.k), v.lin.k == 1 and not g.ifs, ch)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'split' and len(x.args) == 1:
            v, s = self.ev(x.func.value, env, f), self.ev(x.args[0], env, f)
            if s.lin.const() is not None and sep.lin.const() is not None and sep.lin.k <= s.lin.k:
                return Str(v.lin, v.exact and s.lin.k == sep.lin.k, (v.chars - (frozenset(s.shape) if s.shape and len(s.shape) == 1 else frozenset())) | sep.chars)
        if isinstance(x, ast.Name) and sep.lin.const() == 0:
            v = self.ev(x, env, f)
            if isinstance(v, Str):
                return Str(v.lin, v.exact, v.chars)
        raise Cannot('join')

    def items(self, it, target, env, f):
        """(number of items, variables) of an iteration"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange'):
            xs = [self.ev(x, env, f) for x in it.args]
            if len(xs) == 1:
                n = xs[0].lin
            elif len(xs) == 2:
                n = xs[1].lin - xs[0].lin
            else:
                raise Cannot('range')
            return n, ({target.id: Int(self.fresh('i'))} if isinstance(target, ast.Name) else {})
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) >= 1 and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            n, v = self.items(it.args[0], target.elts[1], env, f)
            if isinstance(target.elts[0], ast.Name):
                v[target.elts[0].id] = Int(self.fresh('i'))
            return n, v
        v = self.ev(it, env, f)
        if isinstance(v, Str) and isinstance(target, ast.Name):
            return v.lin, {target.id: Str(Lin(1), True, v.chars)}
        raise Cannot('iteration')

    def braces(self, fmt, args, kw):
        out, i, k = [], 0, 0
        buf = ''
        while i < len(fmt):
            ch = fmt[i]
            if ch in '{}' and fmt[i + 1:i + 2] == ch:
                buf += ch
                i += 2
                continue
            if ch == '{':
                j = fmt.index('}', i)
                field, _, spec = fmt[i + 1:j].partition(':')
                if field == '':
                    v = args[k]
                    k += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise Cannot('format')
                out += [self.text(buf), self.put(v, spec or 's')]
                buf = ''
                i = j + 1
                continue
            buf += ch
            i += 1
        out.append(self.text(buf))
        return self.cat(*out)

    # ---------------------------------------------------------------- functions
    def apply(self, g, e, env, f, recv):
        if self.depth > 6:
            raise Cannot('depth')
        params = list(g.params)
        new = {}
        if g.kind in ('method', 'classmethod') and recv is not None:
            new[params.pop(0)] = None
        for p, a in zip(params, e.args):
            try:
                new[p] = self.ev(a, env, f)
            except Cannot:
                new[p] = None
        for k in e.keywords:
            try:
                new[k.arg] = self.ev(k.value, env, f)
            except Cannot:
                new[k.arg] = None
        ds = g.node.args.defaults
        for p, d in zip(g.params[len(g.params) - len(ds):], ds):
            if p not in new:
                try:
                    new[p] = self.ev(d, {}, g)
                except Cannot:
                    new[p] = None
        self.depth += 1
        try:
            rets = self.returns(g, new)
        finally:
            self.depth -= 1
        vs = []
        for v, conds in rets:
            if v is None:
                raise Cannot('result of %s' % g.name)
            if isinstance(v, Str) and conds:
                # what the conditions of this exit say
                u = self.upper(v.lin, conds)
                p = self._upper(v.lin)
                if p is None and u is None:
                    best = self.rewrite(v.lin, conds)
                    v = Str(best, v.exact and best is v.lin, v.chars, v.shape)
                elif u is not None and (p is None or u < p):
                    best = self.rewrite(v.lin, conds)
                    v = Str(best, False, v.chars, v.shape)
            vs.append(v)
        return self.merge(vs)

    def rewrite(self, lin, conds):
        """an upper bound without atoms that have no bound"""
        for cnd in conds:
            for a, v in lin.c.items():
                w = cnd.c.get(a, 0)
                if w and (v > 0) == (w > 0) and v % w == 0 and self.range.get(a, (None, None))[1] is None:
                    return lin - cnd.times(v // w)
        return lin

    def merge(self, vs):
        """least upper bound of the results of a function"""
        if len(vs) == 1:
            return vs[0]
        if not all(isinstance(v, Str) for v in vs):
            raise Cannot('results')
        chars = frozenset().union(*[v.chars for v in vs])
        best = vs[0].lin
        for v in vs[1:]:
            d = v.lin - best
            u, l = self._upper(d), self.lower(d)
            if u is not None and u <= 0:
                continue
            if l is not None and l >= 0:
                best = v.lin
                continue
            a, b = self._upper(v.lin), self._upper(best)
            if a is None or b is None:
                if a is None and b is not None:
                    best = v.lin
                continue
            best = Lin(max(a, b))
        exact = all(v.exact for v in vs) and len(set(v.lin.key() for v in vs)) == 1
        return Str(best, exact, chars)

    def returns(self, g, env):
        outs = self.block(g.node.body, dict(env), [], g)
        r = []
        for kind, v, env_, conds in outs:
            if kind == 'ret':
                r.append((v, conds))
            elif kind == 'fall':
                r.append((None, conds))
        return r

    def block(self, stmts, env, conds, f):
        live = [(env, conds)]
        out = []
        for s in stmts:
            nxt = []
            for en, cs in live:
                for kind, v, e2, c2 in self.stmt(s, en, cs, f):
                    if kind == 'fall':
                        nxt.append((e2, c2))
                    else:
                        out.append((kind, v, e2, c2))
            live = nxt
            if len(live) > 64:
                raise Cannot('too many paths')
        return out + [('fall', None, e, c_) for e, c_ in live]

    def test(self, t, env, f):
        """(condition when true, condition when false); a condition is a list of linear <= 0, or None when impossible"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.test(t.operand, env, f)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            try:
                l, r = self.ev(t.left, env, f), self.ev(t.comparators[0], env, f)
            except Cannot:
                return [], []
            if isinstance(l, Int) and isinstance(r, Int):
                d, op = l.lin - r.lin, type(t.ops[0]).__name__
                le, lt = d, d + Lin(1)
                ge, gt = d.times(-1), d.times(-1) + Lin(1)
                table = {'LtE': ([le], [gt]), 'Lt': ([lt], [ge]), 'GtE': ([ge], [lt]), 'Gt': ([gt], [le]), 'Eq': ([le, ge], []), 'NotEq': ([], [le, ge])}
                if op in table:
                    return [self.possible(x) for x in table[op]]
        return [], []

    def possible(self, cs):
        for x in cs:
            lo = self.lower(x)
            if lo is not None and lo > 0:
                return None
        return cs

    def stmt(self, s, env, conds, f):
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('ret', None, env, conds)]
            if isinstance(s.value, ast.IfExp):
                return self.stmt(ast.If(test=s.value.test, body=[ast.Return(value=s.value.body)], orelse=[ast.Return(value=s.value.orelse)]), env, conds, f)
            return [('ret', self.opt(s.value, env, f), env, conds)]
        if isinstance(s, ast.Raise):
            return [('raise', None, env, conds)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s.value, ast.IfExp) and len(ts) == 1:
                mk = lambda v: [ast.Assign(targets=ts, value=v, lineno=0)]
                return self.stmt(ast.If(test=s.value.test, body=mk(s.value.body), orelse=mk(s.value.orelse)), env, conds, f)
            env = dict(env)
            for t in ts:
                if isinstance(t, ast.Name):
                    env[t.id] = self.opt(s.value, env, f) if s.value is not None else None
                elif isinstance(t, ast.Tuple):
                    vs = [self.opt(x, env, f) for x in s.value.elts] if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(t.elts) else [None] * len(t.elts)
                    for x, v in zip(t.elts, vs):
                        if isinstance(x, ast.Name):
                            env[x.id] = v
            return [('fall', None, env, conds)]
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.opt(ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value), env, f)
            return [('fall', None, env, conds)]
        if isinstance(s, ast.If):
            a, b = self.test(s.test, env, f)
            out = []
            if a is not None:
                out += self.block(s.body, dict(env), conds + a, f)
            if b is not None:
                out += self.block(s.orelse, dict(env), conds + b, f)
            return out
        if isinstance(s, ast.For):
            return self.loop(s, env, conds, f)
        if isinstance(s, ast.While):
            names = set(n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
            env = dict(env)
            for n in names:
                v = env.get(n)
                if isinstance(v, Str):
                    env[n] = Str(self.fresh('len(%s)' % n), True, v.chars)
                else:
                    env[n] = None
            a, b = self.test(s.test, env, f)
            return [('fall', None, env, conds + (b or []))]
        n = appended(s)
        if n is not None:
            env = dict(env)
            v, x = env.get(n), self.opt(s.value.args[0], env, f)
            env[n] = Lst(v.lin + x.lin, False, v.chars | x.chars) if isinstance(v, Lst) and isinstance(x, Str) else None
            return [('fall', None, env, conds)]
        if isinstance(s, (ast.Expr, ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.Global)):
            if isinstance(s, ast.Assert):
                a, _ = self.test(s.test, env, f)
                conds = conds + (a or [])
            return [('fall', None, env, conds)]
        if isinstance(s, (ast.Continue, ast.Break)):
            return [('next', None, env, conds)]
        if isinstance(s, ast.With):
            return self.block(s.body, env, conds, f)
        if isinstance(s, ast.Try):
            return self.block(s.body + s.orelse + s.finalbody, env, conds, f)
        raise Cannot(type(s).__name__)

    def opt(self, e, env, f):
        try:
            return self.ev(e, env, f)
        except Cannot:
            return None

    def loop(self, s, env, conds, f):
        # a fixed number of items: walked one by one
        try:
            v = self.ev(s.iter, env, f)
            seq = list(v.shape) if isinstance(v, Str) and v.shape is not None else None
        except Cannot:
            seq = None
        if seq is None:
            try:
                x = const(self.prog, f.module, s.iter)
                seq = list(x) if isinstance(x, (tuple, list, set, str)) and all(isinstance(y, str) for y in x) else None
            except NotConst:
                pass
        if seq is not None and len(seq) <= 64 and isinstance(s.target, ast.Name):
            live, out = [(dict(env), conds)], []
            for ch in seq:
                nxt = []
                for en, cs in live:
                    en = dict(en)
                    en[s.target.id] = self.text(ch)
                    for kind, v, e2, c2 in self.block(s.body, en, cs, f):
                        if kind in ('fall', 'next'):
                            nxt.append((e2, c2))
                        else:
                            out.append((kind, v, e2, c2))
                live = nxt[:16]
            return out + [('fall', None, e, c_) for e, c_ in live]
        names = set(n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        names |= set(appended(n) for b in s.body for n in ast.walk(b)) - set([None])
        trip = None
        var = {}
        try:
            trip, var = self.items(s.iter, s.target, env, f)
        except Cannot:
            pass
        en = dict(env)
        en.update(var)
        base = {}
        for n in names:
            v = env.get(n)
            if isinstance(v, Str):
                base[n] = self.fresh('len(%s)' % n)
                en[n] = type(v)(base[n], v.exact, v.chars)
            else:
                en[n] = None
        out = []
        grow = {n: Lin(0) for n in base}
        chars = {n: env[n].chars for n in base}
        for kind, v, e2, c2 in self.block(s.body, en, conds, f):
            if kind == 'ret':
                out.append((kind, v, e2, c2))
                continue
            if kind not in ('fall', 'next'):
                continue
            for n in base:
                x = e2.get(n)
                if not isinstance(x, Str) or grow[n] is None:
                    grow[n] = None
                    continue
                u = self._upper(x.lin - base[n])
                chars[n] |= x.chars
                grow[n] = None if u is None else Lin(max(u, grow[n].k))
        after = dict(env)
        for n in names:
            if n in base and grow[n] is not None and (trip is not None or grow[n].k == 0):
                t = trip.times(grow[n].k) if grow[n].k else Lin(0)
                after[n] = type(env[n])(env[n].lin + t, False, chars[n])
            else:
                after[n] = None
        return out + [('fall', None, after, conds)]

    # ---------------------------------------------------------------- sites
    def local(self, f):
        """values of the local names of a function: the join of what is assigned to them"""
        env = {}
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        stores.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.For)) and isinstance(n.target, ast.Name):
                stores.setdefault(n.target.id, []).append(None)
        for p in f.params:
            stores.setdefault(p, []).append(None)
            if p == 'pid':
                env[p] = Int(self.atom('pid', 0, U16), 0, U16)
            if p in ('property_name', 'class_name', 'element_name'):
                env[p] = Str(self.atom('len(name)'), True, RESERVED)
            if p in ('local_key',):
                env[p] = Int(self.fresh('key', 0, U32), 0, U32)
        for _ in range(3):
            for n, es in stores.items():
                if n in env or any(e is None for e in es):
                    continue
                try:
                    env[n] = self.join([self.ev(e, env, f) for e in es])
                except Cannot:
                    pass
        return env


def C29(cx):
    nm = Names(cx)
    funcs = [g for g in cx.prog.funcs if not g.module.name.endswith('__main__')]
    made = 0
    # names kept in properties
    for a in NAMED:
        for f in funcs:
            for s in ast.walk(f.node):
                if not isinstance(s, ast.Assign) or not any(isinstance(t, ast.Attribute) and t.attr == a for t in s.targets):
                    continue
                env = nm.local(f)
                gen = any(isinstance(x, ast.Attribute) and x.attr in ('property_name', 'class_name') or isinstance(x, ast.Name) and x.id in ('property_name', 'class_name')
                          for y in [s.value] + [z.value for z in ast.walk(f.node) if isinstance(z, ast.Assign) and isinstance(s.value, ast.Name) and any(isinstance(t, ast.Name) and t.id == s.value.id for t in z.targets)]
                          for x in ast.walk(y))
                where = '%s:%d' % (f.module.rel, s.lineno)
                try:
                    v = nm.ev(s.value, env, f)
                except Cannot as x:
                    if gen:
                        cx.unk('C29.length', '%s in %s' % (a, f.qual), str(x))
                    continue
                if not isinstance(v, Str):
                    continue
                made += 1
                u = nm._upper(v.lin)
                key = a.lstrip('_')
                if not cx.check(u is not None and u <= LIMIT, 'C29.length', '%s in %s' % (key, f.qual), where,
                                'a generated name can be %s characters long, a storage name has at most %d' % ('any number of' if u is None else u, LIMIT)):
                    continue
                cx.check(not v.chars, 'C29.chars', '%s in %s' % (key, f.qual), where, 'a generated name can contain %s' % ' '.join(sorted(v.chars)))
                nm.bound[key] = max(nm.bound.get(key, 0), u)
                nm.bound['_' + key] = nm.bound[key]
    cx.need('generated names', made, 3)
    # names built on those
    n = 0
    for f in funcs:
        exprs = []
        for s in ast.walk(f.node):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('touch', 'makedir', 'makedirs') and s.args and f.module.name != 'cfb':
                exprs.append((s.args[0], s.func.attr, s.lineno))
            elif isinstance(s, (ast.BinOp, ast.JoinedStr)) or isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'format':
                if any(isinstance(x, ast.Attribute) and x.attr.lstrip('_') in nm.bound or isinstance(x, ast.Name) and x.id == 'index_name' for x in ast.walk(s)):
                    exprs.append((s, 'name', s.lineno))
        if not exprs:
            continue
        env = nm.local(f)
        messages = set(id(y) for s in ast.walk(f.node) if isinstance(s, (ast.Raise, ast.Assert)) for y in ast.walk(s))
        shown = f.name in ('__repr__', '__str__', 'dump')
        for e, what, line in exprs:
            if id(e) in messages or shown:
                continue
            where = '%s:%d' % (f.module.rel, line)
            try:
                v = nm.ev(e, env, f)
            except Cannot as x:
                if what == 'makedirs':
                    cx.unk('C29.path', f.qual, str(x))
                continue
            if not isinstance(v, Str):
                continue
            n += 1
            if v.shape is not None:
                parts = v.shape.split('/')
                long_ = [p for p in parts if len(p) > LIMIT]
                cx.check(not long_, 'C29.path', '%s in %s' % (what, f.qual), where, 'a storage is named with %d characters, a storage name has at most %d' % (max(len(p) for p in parts), LIMIT))
                bad = set(v.shape) & (RESERVED - frozenset('/' if what == 'makedirs' else ''))
                cx.check(not bad, 'C29.chars', '%s in %s' % (what, f.qual), where, 'a storage is named with %s' % ' '.join(sorted(bad)))
                continue
            if v.chars & frozenset('/'):
                continue        # a path
            u = nm._upper(v.lin)
            cx.check(u is not None and u <= LIMIT, 'C29.length', '%s in %s' % (what, f.qual), where,
                     'the name of a member can be %s characters long, a storage name has at most %d' % ('any number of' if u is None else u, LIMIT))
    cx.need('names built on generated names', n, 4)
