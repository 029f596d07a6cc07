"""C28: every name is defined on the paths that use it, calls fit their callees, attributes exist"""
import ast
import builtins
import importlib
import re
import struct as _struct
from .util import *
from ..model import Class, Func, Module
from ..consts import const, NotConst

BUILTINS = set(dir(builtins)) | set(['__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__'])
PY2 = set(['unicode', 'basestring', 'xrange', 'long', 'raw_input', 'unichr', 'reduce', 'buffer', 'file', 'cmp', 'reload', 'execfile'])


def C28(cx):
    prog = cx.prog
    n = 0
    for m in prog.modules.values():
        sc = Scope(cx, m)
        sc.module()
        n += sc.n
    cx.need('name uses', n, 2000)
    at = Attrs(cx)
    at.run()
    Calls(cx, at).run()
    formats(cx)
    unpacking(cx)
    uncalled(cx, at)
    loaded(cx)
    raised(cx)
    iterated(cx)


# ------------------------------------------------------------------------------ names

class Scope(object):
    def __init__(self, cx, m):
        self.cx, self.m = cx, m
        self.n = 0
        self.globals = set(m.funcs) | set(m.classes) | set(m.consts) | set(m.imports) | m.multi
        for x in walk_scope(m.tree):
            self.globals |= set(bound(x))
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                gl = set(g for x in walk_scope(f) if isinstance(x, ast.Global) for g in x.names)
                if gl:
                    for x in walk_scope(f):
                        self.globals |= set(bound(x)) & gl
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names):
                self.globals = Everything()

    def module(self):
        self.imports()
        self.block(self.m.tree, [], '<module>', set())

    def imports(self):
        """names imported from modules of the package exist there"""
        prog, m = self.cx.prog, self.m
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ImportFrom) or x.level == 0:
                continue
            base = prog._pkg_of(m)
            for _ in range(x.level - 1):
                base = base.rpartition('.')[0]
            full = '.'.join(y for y in (base, x.module or '') if y)
            where = '%s:%d' % (m.rel, x.lineno)
            if full not in prog.modules and not any(k.startswith(full + '.') or full == '' for k in prog.modules):
                self.cx.bad('C28.import', '%s in %s' % (full, m.name), where, 'the module %s does not exist' % full)
                continue
            for a in x.names:
                if a.name == '*':
                    continue
                sub = '.'.join(y for y in (full, a.name) if y)
                t = prog.modules.get(full)
                ok = sub in prog.modules or (t is not None and (a.name in t.funcs or a.name in t.classes or a.name in t.consts or a.name in t.imports or a.name in t.multi or
                                                                   any(a.name in bound(y) for y in walk_scope(t.tree))))
                self.cx.check(ok, 'C28.import', '%s in %s' % (sub, m.name), where, '%s has no %s' % (full or 'the package', a.name))

    def block(self, node, outer, qual, cls):
        """node: Module or function; outer: list of enclosing function scopes' names"""
        if isinstance(node, ast.Module):
            local, gl = set(), set()
        else:
            gl = set(g for x in walk_scope(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names)
            local = set()
            for x in walk_scope(node):
                local |= set(bound(x))
            local -= gl
            local |= set(args_of(node))
        params = set(args_of(node)) if not isinstance(node, ast.Module) else set()
        for x in walk_scope(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(x, local, outer, qual, node)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                nm = getattr(x, 'name', '<lambda>')
                self.block(x, outer + [local], qual + '.' + nm if qual != '<module>' else nm, cls)
            elif isinstance(x, ast.ClassDef):
                self.klass(x, outer + [local] if not isinstance(node, ast.Module) else outer, x.name if qual == '<module>' else qual + '.' + x.name)
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                self.comp(x, outer + ([local] if not isinstance(node, ast.Module) else []), qual)
        if isinstance(node, ast.FunctionDef):
            flow(self.cx, self.m, node, qual, local - params)

    def comp(self, x, outer, qual):
        local = set()
        for g in x.generators:
            for y in ast.walk(g.target):
                if isinstance(y, ast.Name):
                    local.add(y.id)
        for y in comp_body(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                self.use(y, local, outer, qual, None)
            elif isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                self.comp(y, outer + [local], qual)
            elif isinstance(y, ast.Lambda):
                self.block(y, outer + [local], qual, None)

    def klass(self, node, outer, qual):
        local = set(['__module__', '__qualname__'])
        for x in walk_scope(node):
            local |= set(bound(x))
        for x in walk_scope(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(x, local, outer, qual, None)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                self.block(x, outer, qual + '.' + getattr(x, 'name', '<lambda>'), node)
            elif isinstance(x, ast.ClassDef):
                self.klass(x, outer, qual + '.' + x.name)
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                self.comp(x, outer, qual)

    def use(self, x, local, outer, qual, node):
        self.n += 1
        ok = x.id in local or any(x.id in o for o in outer) or x.id in self.globals or x.id in BUILTINS or x.id == '__class__'
        if ok:
            return
        if x.id in PY2 and guarded(self.m.tree, x):
            return
        self.cx.bad('C28.name', '%s in %s.%s' % (x.id, self.m.name, qual), '%s:%d' % (self.m.rel, x.lineno), 'the name %s is not defined' % x.id)


class Everything(set):
    def __contains__(self, x):
        return True

    def __or__(self, o):
        return self

    def __ior__(self, o):
        return self


def guarded(tree, x):
    """a name of another Python version, used behind a test or a try"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.Try, ast.IfExp)) and any(y is x for y in ast.walk(n)):
            return True
    return False


def args_of(f):
    a = f.args
    out = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.append(x.arg)
    return out


def walk_scope(node):
    """nodes of one scope: nested functions, classes and comprehensions are yielded, not entered (their
    defaults, decorators, bases and first iterator belong to this scope)"""
    todo = []
    if isinstance(node, ast.Lambda):
        todo = [node.body]
    elif isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
        todo = list(node.body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, ast.FunctionDef):
            todo += x.decorator_list + [d for d in x.args.defaults + x.args.kw_defaults if d is not None]
        elif isinstance(x, ast.Lambda):
            todo += [d for d in x.args.defaults + x.args.kw_defaults if d is not None]
        elif isinstance(x, ast.ClassDef):
            todo += x.decorator_list + x.bases + [k.value for k in x.keywords]
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.append(x.generators[0].iter)
        else:
            todo += list(ast.iter_child_nodes(x))


def comp_body(x):
    todo = [x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]
    for i, g in enumerate(x.generators):
        todo += g.ifs
        if i:
            todo.append(g.iter)
    while todo:
        y = todo.pop(0)
        yield y
        if isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.append(y.generators[0].iter)
        elif not isinstance(y, ast.Lambda):
            todo += list(ast.iter_child_nodes(y))


def bound(x):
    """names this node binds in its scope"""
    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
        return [x.id]
    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
        return [x.name]
    if isinstance(x, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in x.names]
    if isinstance(x, ast.ExceptHandler) and x.name:
        return [x.name]
    return []


# ------------------------------------------------------------------------------ definite assignment

LIMIT = 64


class Flow(object):
    """Which locals can be unbound at which use.  A state is a pair (unbound names, conditions taken);
    conditions are kept while nothing they mention is assigned, so that correlated tests do not
    produce paths that cannot happen.  Leaving a `for` without an iteration is not held against a use:
    whether the sequence can be empty is not decided here ('loop' mark), except for a range whose limits
    are arguments no test has looked at, and for a generator that can end before it yields."""

    def __init__(self, local, args=(), generator=None):
        self.local = local
        self.hits = {}
        self.args, self.generator = frozenset(args), generator

    def can_be_empty(self, e, cond):
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'list', 'sorted', 'reversed', 'tuple') and e.args:
            e = e.args[0]
        if not isinstance(e, ast.Call):
            return False
        if isinstance(e.func, ast.Name) and e.func.id == 'range':
            names = set(x.id for a in e.args for x in ast.walk(a) if isinstance(x, ast.Name))
            return bool(names) and names <= self.args and not any(c[2] & names for c in cond)
        return self.generator is not None and self.generator(e.func)

    # state: (frozenset unbound, frozenset maybe, frozenset conds)
    def start(self):
        return [(frozenset(self.local), frozenset(), frozenset())]

    def use(self, states, x):
        for un, may, cond in states:
            if x.id in un and x.id in self.local:
                self.hits.setdefault((x.id, x.lineno), []).append((x, cond))
            elif x.id in may:
                self.maybe = True

    def expr(self, states, e):
        if e is None:
            return states
        for x in order(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(states, x)
        names = [x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]
        if names:
            states = self.bind(states, names)
        return states

    def bind(self, states, names):
        ns = set(names)
        out = []
        for un, may, cond in states:
            out.append((un - ns, may - ns, frozenset(c for c in cond if not (c[2] & ns))))
        return self.norm(out)

    def norm(self, states):
        out = []
        for s in states:
            if s not in out:
                out.append(s)
        if len(out) > LIMIT:
            # merge: unbound only where every path agrees
            un = frozenset.intersection(*[s[0] for s in out])
            may = frozenset.union(*[s[0] | s[1] for s in out]) - un
            return [(un, may, frozenset())]
        return out

    def assume(self, states, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(states, test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    states = self.assume(states, v, truth)
                return states
            out = []
            cur = states
            for v in test.values:
                out += self.assume(cur, v, truth)
                cur = self.assume(cur, v, not truth)
            return self.norm(out)
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == truth else []
        key = ast.unparse(test)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            neg = {ast.NotEq: '==', ast.NotIn: 'in', ast.IsNot: 'is'}.get(type(test.ops[0]))
            l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
            if neg:
                key, truth = '%s %s %s' % (l, neg, r), not truth
            else:
                o = {ast.Eq: '==', ast.In: 'in', ast.Is: 'is', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(test.ops[0])]
                if o in ('<=', '>'):
                    o, truth = {'<=': ('>', not truth), '>': ('>', truth)}[o]
                if o == '>=':
                    o, truth = '<', not truth
                key = '%s %s %s' % (l, o, r)
        names = frozenset(x.id for x in ast.walk(test) if isinstance(x, ast.Name)) | frozenset('.' + x.attr for x in ast.walk(test) if isinstance(x, ast.Attribute))
        call = any(isinstance(x, ast.Call) and not pure(x) for x in ast.walk(test))
        out = []
        eq = None
        if isinstance(test, ast.Compare) and isinstance(test.ops[0], (ast.Eq, ast.NotEq)) and isinstance(test.comparators[0], ast.Constant):
            eq = (ast.unparse(test.left), repr(test.comparators[0].value))
        for un, may, cond in states:
            if not call and any(c[0] == key and c[1] != truth for c in cond):
                continue
            # x == 'a' and x == 'b' exclude each other
            if eq and truth and any(c[3] and c[1] and c[3][0] == eq[0] and c[3][1] != eq[1] for c in cond):
                continue
            out.append((un, may, cond if call else cond | frozenset([(key, truth, names, eq)])))
        return self.norm(out)

    def forget(self, states, attrs):
        return self.norm([(un, may, frozenset(c for c in cond if not (c[2] & attrs))) for un, may, cond in states])

    # returns dict with keys 'next','break','continue','raise' -> states ; return paths end
    def stmts(self, states, body):
        out = {'break': [], 'continue': [], 'raise': []}
        for st in body:
            if not states:
                break
            r = self.stmt(states, st)
            for k in ('break', 'continue', 'raise'):
                out[k] += r[k]
            states = r['next']
        out['next'] = states
        for k in out:
            out[k] = self.norm(out[k]) if out[k] else []
        return out

    def effects(self, states, st):
        """attributes assigned or calls made by a statement forget the conditions on attributes"""
        attrs = set('.' + x.attr for x in ast.walk(st) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
        if attrs:
            states = self.forget(states, attrs)
        return states

    def stmt(self, states, st):
        R = {'next': [], 'break': [], 'continue': [], 'raise': []}
        if isinstance(st, ast.If):
            states = self.expr(states, st.test)
            for truth, body in ((True, st.body), (False, st.orelse)):
                r = self.stmts(self.assume(states, st.test, truth), body)
                for k in R:
                    R[k] = R[k] + r[k]
            R['raise'] += states
        elif isinstance(st, (ast.While,)):
            states = self.expr(states, st.test)
            inn = self.assume(states, st.test, True)
            r = self.stmts(inn, st.body)
            again = r['next'] + r['continue']
            if again:
                again = self.expr(again, st.test)
                r2 = self.stmts(self.assume(again, st.test, True), st.body)
                again = again + r2['next'] + r2['continue']
                r['break'] += r2['break']
                r['raise'] += r2['raise']
            done = self.assume(states + again, st.test, False)
            if st.orelse:
                r3 = self.stmts(done, st.orelse)
                done = r3['next']
                R['raise'] += r3['raise']
            R['next'] = done + r['break']
            R['raise'] += r['raise'] + states
        elif isinstance(st, (ast.For,)):
            states = self.expr(states, st.iter)
            tgt = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            inn = self.bind(states, tgt)
            r = self.stmts(inn, st.body)
            again = self.norm(r['next'] + r['continue'])
            if again:
                again2 = self.bind(again, tgt)
                r2 = self.stmts(again2, st.body)
                r['break'] += r2['break']
                r['raise'] += r2['raise']
                again = again + r2['next'] + r2['continue']
            # no iteration at all: what the body binds counts as 'maybe'
            body = set(n for b in st.body for x in ast.walk(b) for n in bound(x)) | set(tgt)
            zero = [(un, may, cond) if self.can_be_empty(st.iter, cond) else (un - body, may | (un & body), cond) for un, may, cond in states]
            # so does what is bound in some iterations only: which element is found is a matter of data
            again = [(un - body, may | (un & body), cond) for un, may, cond in again]
            done = zero + again
            if st.orelse:
                r3 = self.stmts(done, st.orelse)
                done = r3['next']
                R['raise'] += r3['raise']
                for k in ('break', 'continue'):
                    R[k] += r3[k]
            R['next'] = done + r['break']
            R['raise'] += r['raise'] + states
        elif isinstance(st, ast.Try):
            r = self.stmts(states, st.body)
            exc = self.norm(r['raise']) if raising(st.body) else []
            hn, hraise = [], []
            caught = False
            for h in st.handlers:
                s = exc
                if h.name:
                    s = self.bind(s, [h.name])
                s = self.expr(s, h.type)
                hr = self.stmts(s, h.body)
                after = hr['next']
                if h.name:
                    after = [(un | frozenset([h.name]) if h.name in self.local else un, may, cond) for un, may, cond in after]
                hn += after
                hraise += hr['raise']
                for k in ('break', 'continue'):
                    R[k] += hr[k]
                if h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException'):
                    caught = True
            nxt = r['next']
            if st.orelse:
                r3 = self.stmts(nxt, st.orelse)
                nxt = r3['next']
                hraise += r3['raise']
                for k in ('break', 'continue'):
                    R[k] += r3[k]
            for k in ('break', 'continue'):
                R[k] += r[k]
            ex = hraise + ([] if caught else exc)
            if st.finalbody:
                f = self.stmts(self.norm(nxt + hn), st.finalbody)
                nxt2 = f['next']
                if ex:
                    f2 = self.stmts(self.norm(ex), st.finalbody)
                    ex = f2['next'] + f2['raise']
                for k in ('break', 'continue'):
                    if R[k]:
                        R[k] = self.stmts(self.norm(R[k]), st.finalbody)['next']
                R['next'] = nxt2
            else:
                R['next'] = nxt + hn
            R['raise'] += ex
        elif isinstance(st, ast.With):
            pre = states
            for it in st.items:
                states = self.expr(states, it.context_expr)
                if it.optional_vars is not None:
                    states = self.expr(states, it.optional_vars)
                    states = self.bind(states, [x.id for x in ast.walk(it.optional_vars) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)])
            r = self.stmts(states, st.body)
            for k in R:
                R[k] = R[k] + r[k]
            R['raise'] += pre
        elif isinstance(st, ast.Return):
            self.expr(states, st.value)
            R['raise'] = list(states)
        elif isinstance(st, ast.Raise):
            states = self.expr(self.expr(states, st.exc), st.cause)
            R['raise'] = list(states)
        elif isinstance(st, ast.Break):
            R['break'] = list(states)
        elif isinstance(st, ast.Continue):
            R['continue'] = list(states)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                states = self.expr(states, d)
            R['next'] = self.bind(states, [st.name])
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            R['raise'] = list(states)
            R['next'] = self.bind(states, bound(st))
        elif isinstance(st, ast.Delete):
            s = states
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.use(s, t)
                    s = [(un | frozenset([t.id]) if t.id in self.local else un, may, cond) for un, may, cond in s]
                else:
                    s = self.expr(s, t)
            R['raise'] = list(states)
            R['next'] = s
        elif isinstance(st, ast.Assert):
            states = self.expr(states, st.test)
            self.expr(self.assume(states, st.test, False), st.msg)
            R['raise'] = list(states)
            R['next'] = self.assume(states, st.test, True)
        elif isinstance(st, ast.Assign):
            s = self.expr(states, st.value)
            for t in st.targets:
                s = self.expr(s, t)
            if isinstance(st.value, ast.Constant) and isinstance(st.targets[0], ast.Name) and len(st.targets) == 1:
                # a flag set to a constant: remember its truth
                s = self.bind(s, [st.targets[0].id])
                nm = st.targets[0].id
                v = st.value.value
                add = frozenset([(nm, bool(v), frozenset([nm]), None), ('%s is None' % nm, v is None, frozenset([nm]), None)])
                s = self.norm([(un, may, cond | add) for un, may, cond in s])
            else:
                s = self.bind(s, [x.id for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)])
            R['raise'] = list(states) if raising([st]) else []
            R['next'] = self.effects(s, st)
        elif isinstance(st, ast.AugAssign):
            s = self.expr(states, st.value)
            if isinstance(st.target, ast.Name):
                self.use(s, st.target)
                s = self.bind(s, [st.target.id])
            else:
                s = self.expr(s, st.target)
            R['raise'] = list(states)
            R['next'] = self.effects(s, st)
        elif isinstance(st, ast.AnnAssign):
            s = self.expr(states, st.value)
            if st.value is not None and isinstance(st.target, ast.Name):
                s = self.bind(s, [st.target.id])
            R['raise'] = list(states)
            R['next'] = s
        else:
            s = states
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    s = self.expr(s, c)
            R['raise'] = list(states) if raising([st]) else []
            R['next'] = self.effects(s, st)
        # a call may change the attributes that conditions mention
        if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and any(isinstance(x, ast.Call) and not pure(x) for x in ast.walk(st)):
            R['next'] = [(un, may, frozenset(c for c in cond if not any(n.startswith('.') for n in c[2]))) for un, may, cond in R['next']]
        for k in R:
            R[k] = self.norm(R[k]) if R[k] else []
        return R


def pure(x):
    return isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'hasattr', 'getattr', 'int', 'str', 'bool', 'callable', 'type', 'min', 'max', 'abs')


def raising(body):
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Call, ast.Subscript, ast.Raise, ast.Attribute, ast.BinOp, ast.For, ast.With, ast.Assert, ast.Import, ast.ImportFrom, ast.Delete, ast.Yield)):
                return True
    return False


def order(e):
    """names of an expression outside nested scopes; a conditional part of it is still a use"""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Lambda):
            todo += [d for d in x.args.defaults + x.args.kw_defaults if d is not None]
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            loc = set(y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name))
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in loc:
                    yield y
            continue
        yield x
        todo += list(ast.iter_child_nodes(x))


def has(x, kinds):
    return any(isinstance(y, kinds) for y in ast.walk(x))


def ends_first(node):
    """a generator that yields only inside endless loops that can be left before they yield"""
    if not has(node, (ast.Yield, ast.YieldFrom)):
        return False
    for st in node.body:
        if not has(st, (ast.Yield, ast.YieldFrom)):
            continue
        if not (isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value):
            return False
        left = False
        for b in st.body:
            if has(b, (ast.Yield, ast.YieldFrom)):
                break
            # `if not data: break`
            if isinstance(b, ast.If) and any(isinstance(y, (ast.Break, ast.Return)) for y in b.body):
                left = True
        if not left:
            return False
    return True


def flow(cx, m, node, qual, local):
    nested = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Nonlocal,)):
            nested |= set(x.names)
    # names of short circuits such as `a and use(b)` keep their plain meaning: a use is a use
    a = node.args
    args = set(x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs)
    args -= set(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

    def generator(e):
        r = cx.prog.resolve_expr(m, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(e, ast.Name) and e.id in local:
            return False
        return isinstance(r, Func) and r.cls is None and ends_first(r.node)
    f = Flow(local - nested, args, generator)
    f.stmts(f.start(), node.body)
    con = '%s.%s' % (m.name, qual)
    if not f.hits:
        cx.ok('C28.assigned', con)
    for (nm, line), lst in sorted(f.hits.items()):
        x, cond = lst[0]
        cs = ', '.join('%s is %s' % (c[0], c[1]) for c in sorted(cond, key=lambda c: (c[0], c[1]))[:4])
        cx.bad('C28.assigned', '%s in %s' % (nm, con), '%s:%d' % (m.rel, line), 'the variable %s has no value here%s' % (nm, ' when ' + cs if cs else ''))


# ------------------------------------------------------------------------------ attributes

STD = ('struct', 'os', 'os.path', 'io', 'sys', 'uuid', 'datetime', 'math', 'array', 'itertools', 'traceback', 'binascii', 'collections', 'fractions',
       'subprocess', 'json', 'weakref', 'mmap', 'copy', 'random', 'ctypes', 'argparse', 'xml.dom.minidom', 'numbers', 'decimal', 're', 'threading', 'functools',
       'operator', 'logging', 'contextlib', 'tempfile', 'shutil', 'string', 'time', 'types', 'abc', 'codecs', 'posixpath', 'urllib.parse', 'wave', 'calendar', 'pathlib', 'urllib', 'urllib.request', 'glob', 'errno', 'stat', 'platform', 'textwrap', 'inspect', 'bisect', 'heapq', 'enum', 'typing', 'dataclasses', 'warnings', 'signal', 'hashlib', 'base64', 'zlib', 'pprint', 'fnmatch', 'queue', 'multiprocessing', 'concurrent.futures', 'unittest', 'atexit', 'gc', 'locale', 'getpass', 'configparser', 'csv', 'pickle', 'stringprep', 'unicodedata', 'secrets', 'statistics', 'cmath', 'ntpath', 'linecache', 'xml.etree.ElementTree')


_std = []


def std_names():
    if not _std:
        _std.append(std_names_())
    return _std[0]


def std_names_():
    out = set()
    for t in (object, int, float, complex, str, bytes, bytearray, memoryview, list, tuple, dict, set, frozenset, type, slice, range, property, Exception, OSError,
              type(lambda: 0), type((lambda: (yield))()), KeyboardInterrupt, UnicodeError, StopIteration, SystemExit, type(iter([]))):
        out |= set(dir(t))
    for n in STD:
        try:
            m = importlib.import_module(n)
        except Exception:
            continue
        for a in dir(m):
            out.add(a)
            if not a.startswith('_') or n in ('weakref',):
                v = getattr(m, a, None)
                if isinstance(v, type):
                    out |= set(dir(v))
    import io, datetime, uuid, fractions
    for v in (io.BytesIO, io.TextIOWrapper, io.BufferedRandom, datetime.datetime, uuid.UUID, fractions.Fraction):
        out |= set(dir(v))
    return out


class Attrs(object):
    def __init__(self, cx):
        self.cx = cx
        prog = cx.prog
        self.std = std_names()
        self.known = set()          # attributes some object of the package has
        self.outer = {}             # attribute stored on receivers that are not self
        for m in prog.modules.values():
            self.known |= set(m.funcs) | set(m.classes) | set(m.consts) | set(m.imports)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.known.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant):
                        self.known.add(x.args[1].value)
        self.dynamic = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant)
                           for m in prog.modules.values() for x in ast.walk(m.tree))
        for lst in prog.classes.values():
            for k in lst:
                self.known |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.attrs)
                self.known |= slots(k)
                for st in walk_scope(k.node):
                    self.known |= set(bound(st))
        self.exact = {}
        for f in prog.funcs:
            own = f.params[0] if f.cls is not None and f.params and f.kind != 'static' else None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == own):
                    self.outer.setdefault(x.attr, []).append(x)

    def has(self, k, attr):
        """attribute of instances of class k, or of a class built on it"""
        key = (id(k), attr)
        if key in self.exact:
            return self.exact[key]
        r = None
        fam = [k] + [s for s in self.cx.prog.subclasses(k.name) if s is not k]
        # mixed-in bases of subclasses provide attributes too
        seen = []
        for c in fam:
            for b in c.mro():
                if b not in seen:
                    seen.append(b)
        r = any(self.own(c, attr) for c in seen) or attr in self.outer
        self.exact[key] = r
        return r

    def own(self, c, attr):
        if not hasattr(c, 'lint_names'):
            names = set(c.methods) | set(c.getters) | set(c.setters) | set(c.attrs) | slots(c)
            for st in walk_scope(c.node):
                names |= set(bound(st))
            for f in c.all_funcs():
                own = f.params[:1]
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and [x.value.id] == own:
                        names.add(x.attr)
            c.lint_names = names
        return attr in c.lint_names

    def closed(self, k):
        if not hasattr(k, 'lint_closed'):
            k.lint_closed = self.closed_(k)
        return k.lint_closed

    def closed_(self, k):
        """the class and everything it builds on is known"""
        for c in k.mro():
            for b in c.base_exprs:
                r = self.cx.prog.resolve_expr(c.module, b)
                if isinstance(r, Class):
                    continue
                if isinstance(b, ast.Name) and b.id == 'object':
                    continue
                return False
            if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                return False
            if any(kw for kw in c.node.keywords):
                return False
        for s in self.cx.prog.subclasses(k.name):
            if s is not k:
                for c in s.mro():
                    if '__getattr__' in c.methods:
                        return False
                    for b in c.base_exprs:
                        r = self.cx.prog.resolve_expr(c.module, b)
                        if not isinstance(r, Class) and not (isinstance(b, ast.Name) and b.id == 'object'):
                            return False
        return True

    def run(self):
        cx, prog = self.cx, self.cx.prog
        n = 0
        for m in prog.modules.values():
            for f, tp in functions(cx, m):
                for x in own_nodes(f.node if f is not None else m.tree, f is None):
                    if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, (ast.Load, ast.Del)):
                        continue
                    a = x.attr
                    if a.startswith('__') and a.endswith('__'):
                        continue
                    n += 1
                    where = '%s:%d' % (m.rel, x.lineno)
                    con = '%s in %s' % (label(x), f.qual if f is not None else m.name)
                    if isinstance(x.value, ast.Attribute) and x.value.attr == 'create' or a in ('setter', 'getter', 'deleter'):
                        continue        # class names, see C18
                    if version_guard(m.tree, x):
                        continue
                    if hasattr_guard(f.node if f is not None else m.tree, a):
                        continue
                    # module attributes
                    r = prog.resolve_expr(m, x.value) if isinstance(x.value, (ast.Name, ast.Attribute)) and not shadowed(f, x.value) else None
                    if isinstance(r, Module):
                        ok = prog.resolve_name(r, a) is not None or any(a in bound(y) for y in walk_scope(r.tree)) or (r.name + '.' + a if r.name else a) in prog.modules
                        cx.check(ok, 'C28.attribute', con, where, 'the module %s has no %s' % (r.name or 'aaf2', a))
                        continue
                    if isinstance(r, tuple) and r[0] == 'ext':
                        self.ext(r[1], a, con, where, x)
                        continue
                    if isinstance(r, Class):
                        ok = any(self.own(c, a) for c in r.mro()) or not self.closed(r) or a in dir(type)
                        cx.check(ok, 'C28.attribute', con, where, 'the class %s has no %s' % (r.name, a))
                        continue
                    t = tp.of(x.value) if tp is not None else None
                    if t is not None and self.closed(t):
                        cx.check(self.has(t, a) or a in dir(object), 'C28.attribute', con, where, '%s objects have no %s' % (t.name, a))
                        continue
                    if a not in self.known and a not in self.std and not self.dynamic:
                        cx.bad('C28.attribute', con, where, 'no object has an attribute %s' % a)
        cx.need('attribute uses', n, 1500)

    def ext(self, dotted, a, con, where, x):
        mod = None
        parts = dotted.split('.')
        if parts[0] not in [s.split('.')[0] for s in STD]:
            return
        obj = None
        for i in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:i]))
                for p in parts[i:]:
                    obj = getattr(obj, p)
                break
            except Exception:
                obj = None
        if obj is None:
            return
        if not (hasattr(obj, '__dict__') or isinstance(obj, type)):
            return
        self.cx.check(hasattr(obj, a), 'C28.attribute', con, where, '%s has no %s' % (dotted, a))


def slots(k):
    e = k.attrs.get('__slots__')
    if isinstance(e, (ast.Tuple, ast.List)):
        return set(x.value for x in e.elts if isinstance(x, ast.Constant))
    return set()


def hasattr_guard(node, a):
    g = getattr(node, 'lint_guard', None)
    if g is None:
        g = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                g.add(x.args[1].value)
            if isinstance(x, ast.ExceptHandler) and x.type is not None and 'AttributeError' in ast.unparse(x.type):
                g.add('*')
        node.lint_guard = g
    return a in g or '*' in g


def version_guard(tree, x):
    g = getattr(tree, 'lint_version', None)
    if g is None:
        g = set(id(y) for n in ast.walk(tree) if isinstance(n, ast.If) and 'version_info' in ast.unparse(n.test) for y in ast.walk(n))
        tree.lint_version = g
    return id(x) in g


def shadowed(f, e):
    while isinstance(e, ast.Attribute):
        e = e.value
    if f is None or not isinstance(e, ast.Name):
        return False
    g = getattr(f.node, 'lint_bound', None)
    if g is None:
        g = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                g |= set(args_of(x))
            elif isinstance(x, (ast.Import, ast.ImportFrom)) or isinstance(x, ast.Name):
                g |= set(bound(x))
        f.node.lint_bound = g
    return e.id in g


def own_nodes(node, module):
    if not module:
        for x in ast.walk(node):
            yield x
        return
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef,)):
            todo += x.decorator_list
            continue
        todo += list(ast.iter_child_nodes(x))


class Typer(object):
    """class of an expression where it is certain"""
    def __init__(self, cx, f):
        self.cx, self.f = cx, f
        self.env = {}
        if f is None:
            return
        own = f.params[0] if f.cls is not None and f.params and f.kind not in ('static', 'classmethod') else None
        self.own = own
        n = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                n[x.id] = n.get(x.id, 0) + 1
        for x in ast.walk(f.node):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node:
                for a in args_of(x):
                    n[a] = n.get(a, 0) + 5
        self.single = set(k for k, v in n.items() if v == 1 and k not in args_of(f.node))
        if own in n:
            self.own = None
        self.assign = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in self.single:
                self.assign[x.targets[0].id] = x.value

    def of(self, e, depth=0):
        if depth > 6 or self.f is None:
            return None
        if isinstance(e, ast.Name):
            if e.id == self.own:
                return self.f.cls
            if e.id in self.assign:
                return self.of(self.assign[e.id], depth + 1)
            return None
        if isinstance(e, ast.Call):
            r = self.cx.prog.resolve_expr(self.f.module, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) and not shadowed(self.f, e.func) else None
            if isinstance(r, Class) and '__new__' not in [n for c in r.mro() for n in c.methods]:
                return r
            return None
        if isinstance(e, ast.Attribute):
            b = self.of(e.value, depth + 1)
            if b is not None:
                for k in b.mro():
                    if (k.name, e.attr) in SURE:
                        return self.cx.types.lookup_class(SURE[(k.name, e.attr)])
        return None


SURE = {('Stream', 'storage'): 'CompoundFileBinary', ('Stream', 'dir'): 'DirEntry', ('DirEntry', 'storage'): 'CompoundFileBinary',
        ('AAFObject', 'root'): 'AAFFile', ('AAFObject', 'dir'): 'DirEntry', ('AAFObjectManager', 'root'): 'AAFFile', ('AAFFactory', 'root'): 'AAFFile',
        ('Property', 'parent'): 'AAFObject', ('AAFFile', 'cfb'): 'CompoundFileBinary', ('AAFFile', 'manager'): 'AAFObjectManager', ('AAFFile', 'metadict'): 'MetaDictionary'}


def functions(cx, m):
    yield None, None
    for f in cx.prog.funcs:
        if f.module is m:
            yield f, Typer(cx, f)


# ------------------------------------------------------------------------------ calls

def fits(f, call, bound_):
    """None when the call can be made, else what is wrong; bound_: the receiver is the first argument"""
    a = f.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    n = len(call.args) + (1 if bound_ else 0)
    if not star:
        if n > len(pos) and a.vararg is None:
            return 'takes %d arguments, %d given' % (len(pos) - (1 if bound_ else 0), len(call.args))
        have = set(pos[:n])
        for k in call.keywords:
            if k.arg in have:
                return 'gets %s twice' % k.arg
            if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
                return 'has no argument %s' % k.arg
            have.add(k.arg)
        nd = len(pos) - len(a.defaults)
        miss = [p for p in pos[:nd] if p not in have]
        if miss:
            return 'lacks the argument %s' % miss[0]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in have:
                return 'lacks the argument %s' % x.arg
        return None
    if len([x for x in call.args if not isinstance(x, ast.Starred)]) + (1 if bound_ else 0) > len(pos) and a.vararg is None:
        return 'takes %d arguments' % len(pos)
    for k in call.keywords:
        if k.arg is not None and k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return 'has no argument %s' % k.arg
    return None


class Calls(object):
    def __init__(self, cx, attrs):
        self.cx = cx
        self.std = std_names()
        self.attrs = attrs

    def plain(self, f):
        """a function whose decorators keep its signature"""
        for d in f.decorators:
            r = self.cx.prog.resolve_expr(f.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
            if not isinstance(r, Func):
                return False
            inner = [x for x in ast.walk(r.node) if isinstance(x, ast.FunctionDef) and x is not r.node]
            rets = [x.value for x in walk_scope(r.node) if isinstance(x, ast.Return)]
            if all(isinstance(v, ast.Name) and v.id == r.params[0] for v in rets if v is not None) and rets:
                continue
            if not (inner and all(i.args.vararg is not None and i.args.kwarg is not None for i in inner)):
                return False
        return True

    def ctor(self, k):
        for c in k.mro():
            for n in ('__init__', '__new__'):
                if n in c.methods:
                    return c.methods[n]
            for b in c.base_exprs:
                r = self.cx.prog.resolve_expr(c.module, b)
                if not isinstance(r, Class) and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return None
        return None

    def run(self):
        cx, prog = self.cx, self.cx.prog
        n = 0
        for m in prog.modules.values():
            for f, tp in functions(cx, m):
                for x in own_nodes(f.node if f is not None else m.tree, f is None):
                    if not isinstance(x, ast.Call):
                        continue
                    where = '%s:%d' % (m.rel, x.lineno)
                    q = f.qual if f is not None else m.name
                    con = '%s in %s' % (label(x.func), q)
                    g, bnd, what = None, False, None
                    r = prog.resolve_expr(m, x.func) if isinstance(x.func, (ast.Name, ast.Attribute)) and not shadowed(f, x.func) else None
                    if isinstance(r, Func):
                        g, bnd = r, False
                    elif isinstance(r, Class):
                        g, bnd = self.ctor(r), True
                        if g is None:
                            continue
                    elif isinstance(r, Module):
                        cx.bad('C28.call', con, where, 'the module %s is called' % r.name)
                        continue
                    elif isinstance(x.func, ast.Attribute):
                        t = tp.of(x.func.value) if tp is not None else None
                        nm = x.func.attr
                        if isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super' and f is not None and f.cls is not None:
                            for c in f.cls.mro()[1:]:
                                if nm in c.methods:
                                    g, bnd = c.methods[nm], c.methods[nm].kind != 'static'
                                    break
                            if g is None:
                                if self.attrs.closed(f.cls) and not hasattr(object, nm):
                                    cx.bad('C28.call', con, where, 'no base of %s has a method %s' % (f.cls.name, nm))
                                continue
                            if nm == '__new__':
                                bnd = False
                        elif isinstance(x.func.value, (ast.Name, ast.Attribute)) and not shadowed(f, x.func.value) and isinstance(prog.resolve_expr(m, x.func.value), Class):
                            k = prog.resolve_expr(m, x.func.value)
                            h = k.method(nm)
                            if h is None:
                                continue
                            g, bnd = h, h.kind == 'classmethod'
                        elif t is not None:
                            cands = []
                            for k in [t] + [s for s in prog.subclasses(t.name) if s is not t]:
                                h = k.method(nm)
                                if h is not None and h not in cands:
                                    cands.append(h)
                            if cands:
                                n += 1
                                for h in cands:
                                    if not self.plain(h):
                                        continue
                                    e = fits(h, x, h.kind != 'static')
                                    if not cx.check(e is None, 'C28.call', con, where, 'the call of %s %s' % (h.qual, e)):
                                        break
                                continue
                            gt = [k.getter(nm) for k in [t] + [s for s in prog.subclasses(t.name)] if k.getter(nm) is not None]
                            if gt and len(gt) == len([k for k in [t] + prog.subclasses(t.name)]):
                                if all(value_only(h) for h in gt):
                                    cx.bad('C28.call', con, where, 'the property %s is called like a method' % nm)
                            continue
                        else:
                            # a method name only this package has
                            if nm in self.std or nm.startswith('__'):
                                continue
                            owners = [c.methods[nm] for c in prog.method_owners.get(nm, [])]
                            if not owners:
                                gs = [c.getters[nm] for lst in prog.classes.values() for c in lst if nm in c.getters]
                                st = any(nm in c.attrs for lst in prog.classes.values() for c in lst) or nm in self.attrs.outer or stored(self.cx, nm)
                                if gs and not st and all(value_only(h) for h in gs) and not any(nm in mm.funcs or nm in mm.classes for mm in prog.modules.values()):
                                    cx.bad('C28.call', con, where, 'the property %s is called like a method' % nm)
                                continue
                            if any(nm in mm.funcs or nm in mm.classes for mm in prog.modules.values()) or any(nm in c.attrs or nm in c.getters for lst in prog.classes.values() for c in lst) or stored(self.cx, nm):
                                continue
                            n += 1
                            es = [fits(h, x, h.kind != 'static') if self.plain(h) else None for h in owners]
                            cx.check(any(e is None for e in es), 'C28.call', con, where, 'the call of %s %s' % (owners[0].qual, es[0]))
                            continue
                    if g is None:
                        continue
                    if not self.plain(g):
                        continue
                    n += 1
                    e = fits(g, x, bnd)
                    cx.check(e is None, 'C28.call', con, where, 'the call of %s %s' % (g.qual, e))
        cx.need('resolved calls', n, 600)


def stored(cx, nm):
    if not hasattr(cx, 'lint_stored'):
        cx.lint_stored = set(x.attr for m in cx.prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
    return nm in cx.lint_stored


def value_only(h):
    """a getter that does not hand out something callable"""
    rets = [x.value for x in walk_scope(h.node) if isinstance(x, ast.Return)]
    for v in rets:
        if isinstance(v, (ast.Lambda,)):
            return False
    src = ast.unparse(h.node)
    return bool(rets) and 'getattr' not in src and 'partial' not in src and 'def ' not in src[src.index('def ') + 4:]


# ------------------------------------------------------------------------------ formats

def formats(cx):
    n = 0
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            where = '%s:%d' % (f.module.rel, getattr(x, 'lineno', 0))
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, (ast.Constant, ast.BinOp, ast.Name)):
                try:
                    s = const(cx.prog, f.module, x.left)
                except NotConst:
                    continue
                if not isinstance(s, str):
                    continue
                if isinstance(x.left, ast.Name) and shadowed(f, x.left):
                    continue
                k = percent(s)
                if k is None:
                    continue
                if isinstance(x.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in x.right.elts):
                        continue
                    have = len(x.right.elts)
                elif isinstance(x.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Starred)):
                    if k == 1:
                        n += 1
                        continue
                    if isinstance(x.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                        continue
                    have = 1
                else:
                    have = 1
                n += 1
                cx.check(have == k, 'C28.format', '%r in %s' % (s[:30], f.qual), where, 'the text wants %d values and gets %d' % (k, have))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pack', 'pack_into') and isinstance(x.func.value, ast.Name) and x.func.value.id == 'struct':
                skip = 1 if x.func.attr == 'pack' else 3
                if any(isinstance(e, ast.Starred) for e in x.args) or not x.args:
                    continue
                try:
                    fmt = const(cx.prog, f.module, x.args[0])
                    k = len(_struct.unpack(fmt, b'\0' * _struct.calcsize(fmt)))
                except (NotConst, _struct.error, TypeError):
                    continue
                n += 1
                cx.check(len(x.args) - skip == k, 'C28.format', '%s in %s' % (fmt, f.qual), where, 'the format %s wants %d values and gets %d' % (fmt, k, len(x.args) - skip))
    cx.need('formats', n, 20)


def percent(s):
    if '%(' in s:
        return None
    k = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?([a-zA-Z%])', s):
        if m.group(5) == '%':
            continue
        k += 1 + (m.group(2) == '*') + (m.group(4) == '*')
    return k


def label(x):
    out = []
    while isinstance(x, ast.Attribute):
        out.insert(0, x.attr)
        x = x.value
    out.insert(0, x.id if isinstance(x, ast.Name) else '')
    return '.'.join(out)


# ------------------------------------------------------------------------------ smaller rules

def unpacking(cx):
    """a, b = f(..): f returns that many values"""
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Assign) and isinstance(x.value, (ast.Call, ast.Tuple)) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List))):
                continue
            t = x.targets[0]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                continue
            where = '%s:%d' % (f.module.rel, x.lineno)
            if isinstance(x.value, ast.Tuple):
                if not any(isinstance(e, ast.Starred) for e in x.value.elts):
                    cx.check(len(x.value.elts) == len(t.elts), 'C28.unpack', 'assignment in %s' % f.qual, where, '%d values for %d variables' % (len(x.value.elts), len(t.elts)))
                continue
            g = None
            fn = x.value.func
            r = cx.prog.resolve_expr(f.module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) and not shadowed(f, fn) else None
            if isinstance(r, Func) and not r.decorators:
                g = [r]
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.params[:1] == [fn.value.id] and f.cls.method(fn.attr) is not None:
                g = [f.cls.method(fn.attr)] + [s.methods[fn.attr] for s in cx.prog.subclasses(f.cls.name) if fn.attr in s.methods]
            if not g:
                continue
            for h in g:
                if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in walk_scope(h.node)):
                    continue
                for y in walk_scope(h.node):
                    if isinstance(y, ast.Return):
                        v = y.value
                        if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
                            cx.check(len(v.elts) == len(t.elts), 'C28.unpack', '%s in %s' % (h.qual, f.qual), where, '%s returns %d values, %d are expected' % (h.qual, len(v.elts), len(t.elts)))


def uncalled(cx, at):
    """a method is called, not compared or computed with"""
    prog = cx.prog
    for f in prog.funcs:
        tp = Typer(cx, f)
        for x in ast.walk(f.node):
            cand = []
            if isinstance(x, ast.BinOp):
                cand = [x.left, x.right]
            elif isinstance(x, ast.Compare) and not all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in x.ops):
                cand = [x.left] + x.comparators
            elif isinstance(x, ast.UnaryOp):
                cand = [x.operand]
            elif isinstance(x, (ast.If, ast.While)):
                cand = [x.test] if not isinstance(x.test, ast.BoolOp) else x.test.values
            elif isinstance(x, (ast.For,)):
                cand = [x.iter]
            elif isinstance(x, ast.Subscript):
                cand = [x.value]
            for e in cand:
                if not isinstance(e, ast.Attribute):
                    continue
                where = '%s:%d' % (f.module.rel, e.lineno)
                t = tp.of(e.value)
                a = e.attr
                if t is not None:
                    hit = t.method(a) is not None and not any(a in c.getters or a in c.attrs for k in [t] + prog.subclasses(t.name) for c in k.mro()) and not stored(cx, a)
                else:
                    hit = a in prog.method_owners and a not in at.std and not stored(cx, a) and \
                        not any(a in c.getters or a in c.attrs for lst in prog.classes.values() for c in lst) and not any(a in m.consts or a in m.imports for m in prog.modules.values())
                if hit:
                    cx.bad('C28.uncalled', '%s in %s' % (label(e), f.qual), where, 'the method %s is used like a value' % a)


def loaded(cx):
    """objects read from a file are built without __init__, so no method may rely on what only __init__ sets"""
    prog = cx.prog
    if not prog.has_cls('AAFObject'):
        return
    base = prog.cls('AAFObject')
    fam = [base] + [k for k in prog.subclasses('AAFObject') if k is not base]
    n = 0
    # built by the file itself, before anything is read
    built = set()
    for f in prog.funcs:
        if f.cls is not None and f.cls.name == 'AAFFile':
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                    r = prog.resolve_expr(f.module, x.value.func)
                    if isinstance(r, Class):
                        built.add(r.name)
    for k in fam:
        if k.name in built:
            continue
        sets, inits = set(), {}
        for c in k.mro():
            for nm in ('__slots__',):
                pass
            for g in c.all_funcs():
                own = g.params[:1]
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                        if g.name == '__init__' and [x.value.id] == own:
                            inits.setdefault(x.attr, '%s:%d' % (c.module.rel, x.lineno))
                        else:
                            sets.add(x.attr)
            sets |= set(c.methods) | set(c.getters) | set(c.setters) | (set(c.attrs) - slots(c))
        for a, where in sorted(inits.items()):
            if a in sets or a in [y.attr for y in outer_stores(cx)]:
                continue
            readers = []
            for c in k.mro():
                for g in c.all_funcs():
                    if g.name == '__init__':
                        continue
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr == a and isinstance(x.value, ast.Name) and [x.value.id] == g.params[:1] and not hasattr_guard(g.node, a):
                            readers.append(g.qual)
            n += 1
            if readers:
                cx.bad('C28.loaded', '%s.%s' % (k.name, a), where, '%s uses %s, which only __init__ sets; objects read from a file do not have it' % (readers[0], a))
        cx.ok('C28.loaded', k.name)


def outer_stores(cx):
    if not hasattr(cx, 'lint_outer'):
        cx.lint_outer = []
        for f in cx.prog.funcs:
            own = f.params[:1] if f.cls is not None else []
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and [x.value.id] == own):
                    cx.lint_outer.append(x)
    return cx.lint_outer


def raised(cx):
    """what is raised is an exception"""
    n = 0
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Raise) or x.exc is None:
                continue
            e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            where = '%s:%d' % (f.module.rel, x.lineno)
            n += 1
            if isinstance(x.exc, ast.Constant) or isinstance(x.exc, ast.BinOp):
                cx.bad('C28.raise', f.qual, where, 'a text is raised instead of an exception')
                continue
            if isinstance(e, ast.Name) and not shadowed(f, e):
                r = cx.prog.resolve_expr(f.module, e)
                if r is None and hasattr(builtins, e.id):
                    v = getattr(builtins, e.id)
                    cx.check(isinstance(v, type) and issubclass(v, BaseException), 'C28.raise', f.qual, where, '%s is no exception' % e.id)
                elif isinstance(r, Class):
                    ok = False
                    for c in r.mro():
                        for b in c.base_exprs:
                            if not isinstance(cx.prog.resolve_expr(c.module, b), Class) and not (isinstance(b, ast.Name) and b.id == 'object'):
                                ok = True
                    cx.check(ok, 'C28.raise', f.qual, where, '%s is no exception' % r.name)
    cx.need('raise statements', n, 30)


MUT = ('pop', 'popitem', 'clear', 'remove', 'discard', 'add', 'setdefault')


def iterated(cx):
    """a table is not changed in size while a loop runs over it"""
    n = 0
    for f in cx.prog.funcs:
        for x in ast.walk(f.node):
            if not isinstance(x, ast.For):
                continue
            it = x.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values') and not it.args:
                view, base = True, it.func.value
            elif isinstance(it, (ast.Name, ast.Attribute)):
                view, base = False, it
            else:
                continue
            key = ast.unparse(base)
            n += 1
            changed = None
            if any(isinstance(t, (ast.Name, ast.Attribute)) and ast.unparse(t) == key and isinstance(t.ctx, ast.Store) for b in x.body for t in ast.walk(b)):
                continue        # the name denotes another table then
            for b, leaves in statements(x.body):
                if leaves:
                    continue
                for y in heads(b):
                    if isinstance(y, ast.Delete):
                        for t in y.targets:
                            if isinstance(t, ast.Subscript) and ast.unparse(t.value) == key:
                                changed = y
                    for c in ast.walk(y) if not isinstance(y, ast.Delete) else []:
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) == key and c.func.attr in (MUT if view else ('pop', 'remove', 'popitem', 'clear', 'discard')):
                            changed = c
            cx.check(changed is None, 'C28.iterate', '%s in %s' % (key, f.qual), '%s:%d' % (f.module.rel, x.lineno), 'the loop over %s changes it' % key)


def statements(body):
    """(statement, does every way on from it leave the loop) in a loop body"""
    for i, st in enumerate(body):
        leaves = any(isinstance(s, (ast.Break, ast.Return, ast.Raise)) for s in body[i:])
        yield st, leaves
        for fld in ('body', 'orelse', 'finalbody'):
            for r in statements(getattr(st, fld, []) or []) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else []:
                yield r[0], r[1] or leaves
        for h in getattr(st, 'handlers', []) or []:
            for r in statements(h.body):
                yield r[0], r[1] or leaves


def heads(st):
    """the parts of a statement that are not statements themselves"""
    if isinstance(st, (ast.If, ast.While)):
        return [st.test]
    if isinstance(st, ast.For):
        return [st.iter]
    if isinstance(st, ast.With):
        return [i.context_expr for i in st.items]
    if isinstance(st, (ast.Try, ast.FunctionDef, ast.ClassDef)):
        return []
    return [st]
