"""Flow-insensitive effect summaries over the call graph: which attributes a function changes,
and which it writes to the file."""
import ast
from ..model import Func, Class

MUTATORS = set('append extend insert pop popitem remove clear update setdefault sort reverse add discard __setitem__ __delitem__ appendleft popleft frombytes fromfile byteswap'.split())


def base_attr(e, alias):
    """attribute name an lvalue / receiver denotes: self.x, self.x[i], local alias of self.x"""
    while isinstance(e, (ast.Subscript, ast.Starred)):
        e = e.value
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Name):
        return alias.get(e.id)
    return None


class Effects(object):
    def __init__(self, cx, modules=('cfb',)):
        self.cx = cx
        self.modules = modules
        self.local = {}
        self.memo = {}
        for f in cx.prog.funcs:
            self.local[f] = self.scan(f)

    def scan(self, f):
        alias, mut, read, callees, writes = {}, set(), set(), set(), False
        body = f.node.body if not isinstance(f.node, ast.Lambda) else [f.node.body]
        nodes = [n for b in body for n in ast.walk(b)]
        for n in nodes:
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Attribute, ast.Subscript)):
                a = base_attr(n.value, {})
                if a:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            alias[t.id] = a
            elif isinstance(n, (ast.For, ast.comprehension)):
                pass
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                todo = list(ts)
                while todo:
                    t = todo.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        todo += t.elts
                        continue
                    if isinstance(t, ast.Starred):
                        t = t.value
                    if isinstance(t, ast.Attribute):
                        mut.add(t.attr)
                        callees.add(('set', t.attr))
                    elif isinstance(t, ast.Subscript):
                        a = base_attr(t, alias)
                        if a:
                            mut.add(a)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                read.add(n.attr)
                callees.add(('get', n.attr))
            if isinstance(n, ast.Call):
                g = n.func
                if isinstance(g, ast.Attribute):
                    if g.attr in MUTATORS:
                        a = base_attr(g.value, alias)
                        if a:
                            mut.add(a)
                    if isinstance(g.value, ast.Name) and alias.get(g.value.id) == 'f' or isinstance(g.value, ast.Attribute) and g.value.attr == 'f':
                        if g.attr in ('write', 'writelines'):
                            writes = True
                        continue
                    callees.add(('call', g.attr))
                elif isinstance(g, ast.Name):
                    callees.add(('name', g.id))
                    if g.id.startswith('write_u') and n.args:
                        a = base_attr(n.args[0], alias)
                        if a == 'f' or isinstance(n.args[0], ast.Name) and n.args[0].id == 'f':
                            writes = True
        return dict(mut=mut, read=read, callees=callees, writes=writes)

    def targets(self, f, kind, name):
        prog = self.cx.prog
        out = []
        if kind == 'name':
            r = prog.resolve_name(f.module, name)
            if isinstance(r, Func):
                out.append(r)
            elif isinstance(r, Class) and r.method('__init__'):
                out.append(r.method('__init__'))
            return [x for x in out if x.module.name in self.modules]
        for lst in prog.classes.values():
            for k in lst:
                if k.module.name not in self.modules:
                    continue
                t = {'call': k.methods, 'get': k.getters, 'set': k.setters}[kind].get(name)
                if t is not None:
                    out.append(t)
        return out

    def closure(self, f):
        """functions reachable from f, itself included"""
        if f in self.memo:
            return self.memo[f]
        seen, todo = [], [f]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.append(g)
            for kind, name in self.local[g]['callees']:
                if kind == 'call' and name in ('get', 'pop', 'insert', 'open', 'write', 'read', 'close', 'seek', 'remove', 'path') and not self.sure(g, name):
                    continue
                todo += self.targets(g, kind, name)
        self.memo[f] = seen
        return seen

    def sure(self, f, name):
        """a container-like name is taken for the package's own method only on a receiver that is
        a stream or entry"""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name:
                v = n.func.value
                if isinstance(v, ast.Name) and v.id == 'self':
                    return True
                if name in ('open', 'remove') and isinstance(v, ast.Attribute) and v.attr in ('cfb', 'storage'):
                    return True
                if name in ('pop', 'insert') and isinstance(v, ast.Name) and 'entry' in v.id:
                    return True
        return False

    def mut(self, f):
        return set().union(*[self.local[g]['mut'] for g in self.closure(f)])

    def serialised(self, f):
        """attributes read by functions of the closure that write to the file"""
        out = set()
        for g in self.closure(f):
            if self.writer(g):
                out |= self.local[g]['read']
                todo, seen = [g], set()
                while todo:
                    h = todo.pop()
                    for kind, name in self.local[h]['callees']:
                        for t in self.targets(h, kind, name):
                            if t.qual not in self.cx.known and t not in seen:
                                seen.add(t)
                                todo.append(t)
                                out |= self.local[t]['read']
        return out

    def writer(self, f, seen=()):
        """writes itself, or through a helper this analysis does not know by name"""
        if self.local[f]['writes']:
            return True
        for kind, name in self.local[f]['callees']:
            for t in self.targets(f, kind, name):
                if t.qual not in self.cx.known and t not in seen and self.writer(t, seen + (f,)):
                    return True
        return False

    def writes(self, f):
        return any(self.local[g]['writes'] for g in self.closure(f))
