"""Constant evaluation of module level expressions (no execution of repository code)."""
import ast


class NotConst(Exception):
    pass


class Dup(object):
    """duplicate keys seen in dict literals"""
    def __init__(self):
        self.items = []


def const(prog, m, e, dup=None, depth=0, env=None):
    if depth > 40:
        raise NotConst('too deep')

    def go(x):
        return const(prog, m, x, dup, depth + 1, env)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Dict):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(go(v))
                continue
            kk = go(k)
            vv = go(v)
            if kk in d and dup is not None:
                dup.items.append((kk, k.lineno, d[kk], vv))
            d[kk] = vv
        return d
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        r = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r.extend(go(x.value))
            else:
                r.append(go(x))
        return tuple(r) if isinstance(e, ast.Tuple) else set(r) if isinstance(e, ast.Set) else r
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.Invert, ast.Not)):
        v = go(e.operand)
        return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else not v
    if isinstance(e, ast.BinOp):
        a, b = go(e.left), go(e.right)
        op = type(e.op).__name__
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'BitOr': lambda: a | b, 'BitAnd': lambda: a & b,
                    'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}[op]()
        except Exception as x:
            raise NotConst(str(x))
    if isinstance(e, ast.Name) and env and e.id in env:
        return env[e.id]
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = go(e.left), go(e.comparators[0])
        op = type(e.ops[0]).__name__
        try:
            return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'In': lambda: a in b, 'NotIn': lambda: a not in b, 'Is': lambda: a is b, 'IsNot': lambda: a is not b,
                    'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        except Exception as x:
            raise NotConst(str(x))
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = prog.resolve_expr(m, e)
        if isinstance(r, tuple) and r[0] == 'const':
            return module_value(prog, r[1], r[2], dup, depth + 1)
        from .model import Class, Func
        if isinstance(r, (Class, Func)):
            return r
        if isinstance(e, ast.Name) and e.id in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[e.id]
        raise NotConst(ast.unparse(e))
    if isinstance(e, ast.Subscript):
        try:
            return go(e.value)[go(e.slice)]
        except (KeyError, IndexError, TypeError) as x:
            raise NotConst(str(x))
    if isinstance(e, ast.IfExp):
        return go(e.body) if go(e.test) else go(e.orelse)
    if isinstance(e, (ast.DictComp, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        return comp(prog, m, e, dup, depth, env)
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if nm in ('dict', 'OrderedDict') and not e.args:
            return {k.arg: go(k.value) for k in e.keywords}
        if nm in ('dict', 'OrderedDict', 'tuple', 'list', 'str', 'set', 'frozenset') and len(e.args) == 1 and not e.keywords:
            v = go(e.args[0])
            t = {'dict': dict, 'OrderedDict': dict, 'tuple': tuple, 'list': list, 'str': str, 'set': set, 'frozenset': frozenset}[nm]
            try:
                return t(v)
            except Exception as x:
                raise NotConst(str(x))
        if nm in ('AUID', 'UUID', 'MobID') and (len(e.args) == 1 or e.keywords):
            a = e.args[0] if e.args else e.keywords[0].value
            kw = None if e.args else e.keywords[0].arg
            v = go(a)
            if kw in (None, 'hex') and isinstance(v, str):
                return Ident(v)
            if kw == 'int':
                return Ident('%032x' % v)
            raise NotConst('identifier')
        if isinstance(f, ast.Attribute) and f.attr in ('upper', 'lower', 'strip', 'replace', 'format', 'items', 'keys', 'values', 'copy', 'join', 'split', 'get') and not e.keywords:
            v = go(f.value)
            if isinstance(v, (str, dict)):
                try:
                    r = getattr(v, f.attr)(*[go(a) for a in e.args])
                except Exception as x:
                    raise NotConst(str(x))
                return list(r) if f.attr in ('items', 'keys', 'values') else r
        if isinstance(f, ast.Name) and nm in ('bool', 'int', 'len', 'zip', 'enumerate', 'range', 'sorted', 'chain') and not e.keywords:
            try:
                r = {'bool': bool, 'int': int, 'len': len, 'zip': zip, 'enumerate': enumerate, 'range': range, 'sorted': sorted}[nm](*[go(a) for a in e.args])
            except NotConst:
                raise
            except Exception as x:
                raise NotConst(str(x))
            return list(r) if nm in ('zip', 'enumerate', 'range', 'sorted') else r
        raise NotConst(ast.unparse(e)[:60])
    raise NotConst(type(e).__name__)


def bind(t, v, env):
    if isinstance(t, ast.Name):
        env[t.id] = v
        return
    if isinstance(t, (ast.Tuple, ast.List)):
        v = list(v)
        if len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                bind(a, b, env)
            return
    raise NotConst('target')


def comp(prog, m, e, dup, depth, env):
    out = []

    def run(i, env):
        if len(out) > 20000:
            raise NotConst('too many')
        if i == len(e.generators):
            def go(x):
                return const(prog, m, x, dup, depth + 1, env)
            out.append((go(e.key), go(e.value)) if isinstance(e, ast.DictComp) else go(e.elt))
            return
        g = e.generators[i]
        for v in const(prog, m, g.iter, dup, depth + 1, env):
            e2 = dict(env)
            bind(g.target, v, e2)
            if all(const(prog, m, c, dup, depth + 1, e2) for c in g.ifs):
                run(i + 1, e2)
    run(0, dict(env or {}))
    return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out


class Ident(str):
    """the text of an identifier literal, compared by value"""
    def __new__(cls, v):
        h = norm(v)
        return str.__new__(cls, h if h is not None else 'bad:' + v)


def norm(v):
    if not isinstance(v, str):
        return None
    h = v.replace('urn:', '').replace('uuid:', '').replace('smpte:umid:', '').strip('{}').replace('-', '').replace('.', '').lower()
    if len(h) not in (32, 64):
        return None
    try:
        int(h, 16)
    except ValueError:
        return None
    return h


def touches(n, name):
    """does this statement rebind or change the module level name"""
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name and \
           x.func.attr in ('update', 'setdefault', 'pop', 'clear', 'append', 'extend', 'add', 'remove', 'popitem', 'insert'):
            return True
        if isinstance(x, ast.Global) and name in x.names:
            return True
    return False


def module_value(prog, m, name, dup=None, depth=0):
    """value of a module level name after the module body has run"""
    unset = object()
    v = unset
    for st in m.tree.body:
        if not touches(st, name):
            continue
        env = {} if v is unset else {name: v}
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            loc = [x for f in ast.walk(st) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in [a.arg for a in f.args.args]]
            stores = any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(st)) and not any(isinstance(x, ast.Global) for x in ast.walk(st))
            if name in loc or stores:
                continue            # a local of that name
            raise NotConst('%s.%s is changed in a function' % (m.name, name))
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t = st.targets[0]
            if isinstance(t, ast.Name):
                v = const(prog, m, st.value, dup, depth + 1, env)
                continue
            if isinstance(t, ast.Subscript) and v is not unset and isinstance(v, dict):
                v = dict(v)
                v[const(prog, m, t.slice, None, depth + 1, env)] = const(prog, m, st.value, dup, depth + 1, env)
                continue
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            v = const(prog, m, st.value, dup, depth + 1, env)
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'update' and isinstance(v, dict):
            c = st.value
            v = dict(v)
            for a in c.args:
                v.update(const(prog, m, a, dup, depth + 1, env))
            for k in c.keywords:
                if k.arg is None:
                    raise NotConst('**')
                v[k.arg] = const(prog, m, k.value, dup, depth + 1, env)
            continue
        if isinstance(st, ast.For) and isinstance(v, dict) and not st.orelse and len(st.body) == 1:
            b = st.body[0]
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name) and b.targets[0].value.id == name:
                v = dict(v)
                for x in const(prog, m, st.iter, dup, depth + 1, env):
                    e2 = {name: v}
                    bind(st.target, x, e2)
                    v[const(prog, m, b.targets[0].slice, None, depth + 1, e2)] = const(prog, m, b.value, dup, depth + 1, e2)
                continue
        raise NotConst('%s.%s is filled by statements' % (m.name, name))
    if v is unset:
        raise NotConst('%s.%s not found' % (m.name, name))
    return v


def module_const(prog, mod, name, dup=None):
    return module_value(prog, prog.module(mod), name, dup)
