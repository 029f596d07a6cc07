from ..terms import *
from ..interp import Interp, State
from ..model import AnalysisBroken, Func, Class
from .layout import fmt_of, int_of

_Q = {}


def query(cx, facts, t):
    """Truth value of a condition term under path facts (True/False/None)."""
    it = _Q.get(id(cx))
    if it is None:
        _Q.clear()
        it = _Q[id(cx)] = Interp(cx.prog, cx.types)
    t, pol = it.canon(t)
    v = it.decide(t, State(facts=facts))
    return None if v is None else (v == pol)


def members(*vals):
    return ('tuple', tuple(c(v) for v in vals))


def cmp_(op, l, r):
    return ('cmp', op, l, r)


def calls(path, name=None, recv=None):
    return [e for e in path.ev if e.kind == 'call' and (name is None or e.name == name or e.name.split('.')[-1] == name)
            and (recv is None or e.recv == recv)]


def index(path, ev):
    return path.ev.index(ev)


def ends(t, *names):
    """t is an attribute path ending with the given names"""
    for n in reversed(names):
        if t is None or t[0] != 'a' or t[2] != n:
            return False
        t = t[1]
    return True


def is_raise(path, *names):
    if not path.raised:
        return False
    if not names:
        return True
    return exc_name(path) in names


def exc_name(path):
    v = path.exit[1]
    if v[0] == 'call':
        return show(v[1]).split('.')[-1]
    if v[0] == 'new':
        return v[1].split('.')[-1]
    return show(v).split('.')[-1]


def strip_iter(t):
    """the sequence an element / key term ranges over"""
    while t[0] in ('nth', 'elem', 'idx', 'key'):
        t = t[1]
    return t


def mentions(t, pred):
    return contains(t, pred)


def has_attr(t, name):
    return contains(t, lambda s: s[0] == 'a' and s[2] == name)


def roots(t):
    """set of ('p',x) a term depends on"""
    return set(s for s in subterms(t) if s[0] == 'p')


def conds(p, upto=None):
    """Conditions decided along the path (up to an event index), as the truth they had when
    they were tested."""
    out = {}
    for i, e in enumerate(p.ev):
        if upto is not None and i >= upto:
            break
        if e.kind == 'assume':
            out[e.a] = e.b
    return out


def torn(p, *attrs):
    """The path takes a test on nothing but parameters and attributes that are never assigned
    (attrs) both ways: not a path that can happen."""
    seen = {}
    fixed = set(attrs) | {'dir', 'storage'}
    for e in p.ev:
        if e.kind == 'assume':
            names = set(s[2] for s in subterms(e.a) if s[0] == 'a')
            if names & set(attrs) and names <= fixed:
                if seen.setdefault(e.a, e.b) != e.b:
                    return True
        if e.kind == 'set' and e.b in attrs:
            seen.clear()
    return False


def segments(cx, q, inline=(), unroll=1, skip=()):
    """A function too branchy to be walked as one: each of its top level statements is walked by
    itself; what earlier statements bound is an opaque input.  [(position, paths)]"""
    import ast
    f = cx.prog.func(q) if isinstance(q, str) else q
    out = []
    bound = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
    for i, s in enumerate(f.node.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        key = ('segment', f.qual, i, inline, unroll)
        g = cx.memo.get(key)
        if g is None:
            a = f.node.args
            params = list(f.params)
            extra = sorted(bound - set(params))
            node = ast.FunctionDef(name=f.node.name, decorator_list=[], returns=None, type_comment=None, lineno=s.lineno, col_offset=0,
                                   end_lineno=s.end_lineno, end_col_offset=0, body=[s],
                                   args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p, annotation=None, lineno=s.lineno, col_offset=0) for p in params + extra],
                                                      vararg=a.vararg, kwonlyargs=a.kwonlyargs, kw_defaults=a.kw_defaults, kwarg=a.kwarg, defaults=[]))
            g = cx.memo[key] = Func(node, f.module, f.cls, f.kind, [])
        try:
            g.qual = f.qual + '#%d' % i
        except AttributeError:
            pass
        out.append((i, s, g))
    return out
