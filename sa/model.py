"""Program model: every module of the package under analysis, parsed and indexed.

Nothing of the analysed package is imported or executed; everything below works on the
syntax trees of the files found on disk at the time of the run.
"""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone, or the source cannot be analysed."""


class Func(object):
    __slots__ = ('node', 'module', 'cls', 'name', 'kind', 'decorators', 'qual')

    def __init__(self, node, module, cls, kind, decorators):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.kind = kind
        self.decorators = decorators
        owner = cls.name + '.' if cls is not None else ''
        suffix = '' if kind in ('method', 'function', 'static', 'classmethod') else ':' + kind
        self.qual = '%s.%s%s%s' % (module.name, owner, node.name, suffix)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_exprs = node.bases
        self.bases = []          # resolved Class objects
        self.methods = {}        # name -> Func (plain methods)
        self.getters = {}
        self.setters = {}
        self.attrs = {}          # class level assignments name -> expr
        self.decorators = node.decorator_list

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo[0:0] = c.bases
        return out

    def find(self, table, name):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
            # a plain method shadows an inherited property and vice versa
            if table != 'methods' and name in c.methods:
                return None
        return None

    def method(self, name):
        return self.find('methods', name)

    def getter(self, name):
        return self.find('getters', name)

    def setter(self, name):
        return self.find('setters', name)

    def attr(self, name):
        return self.find('attrs', name)

    def is_subclass(self, name):
        return any(c.name == name for c in self.mro())

    def all_funcs(self):
        for t in (self.methods, self.getters, self.setters):
            for f in t.values():
                yield f

    def __repr__(self):
        return '<Class %s.%s>' % (self.module.name, self.name)


class Module(object):
    def __init__(self, name, path, rel, tree, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.source = source
        self.funcs = {}
        self.classes = {}
        self.consts = {}      # name -> expr of the last module level assignment
        self.imports = {}     # local name -> ('mod', m) | ('from', m, name) | ('ext', dotted)
        self.multi = set()    # names assigned more than once

    def __repr__(self):
        return '<Module %s>' % self.name


def _toplevel(body):
    """Statements at module level, looking through if/try blocks."""
    for st in body:
        yield st
        if isinstance(st, ast.If):
            for s in _toplevel(st.body + st.orelse):
                yield s
        elif isinstance(st, ast.Try):
            hs = []
            for h in st.handlers:
                hs += h.body
            for s in _toplevel(st.body + hs + st.orelse + st.finalbody):
                yield s
        elif isinstance(st, ast.With):
            for s in _toplevel(st.body):
                yield s


class Program(object):
    def __init__(self, root='/repo', package='src/aaf2', sources=None):
        """sources: optional {relative module path: text} overriding / replacing the tree
        (used by the checker's own self-tests)."""
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}      # class name -> list of Class
        self.funcs = []        # every Func, nested functions excluded
        if sources is None:
            sources = {}
            base = os.path.join(root, package)
            if not os.path.isdir(base):
                raise AnalysisBroken('package directory %s not found' % base)
            for dp, dn, fn in os.walk(base):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith('.py'):
                        p = os.path.join(dp, f)
                        with open(p, 'rb') as fh:
                            sources[os.path.relpath(p, base)] = fh.read().decode('utf8')
        self.sources = sources
        for rel in sorted(sources):
            text = sources[rel]
            try:
                tree = ast.parse(text, rel)
            except SyntaxError as e:
                raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            if name == '__init__':
                name = ''
            self.modules[name] = Module(name, os.path.join(root, package, rel),
                                        os.path.join(package, rel), tree, text)
        for m in self.modules.values():
            self._index(m)
        for lst in self.classes.values():
            for c in lst:
                for b in c.base_exprs:
                    r = self.resolve_expr(c.module, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
        self.method_owners = {}
        for lst in self.classes.values():
            for c in lst:
                for n in c.methods:
                    self.method_owners.setdefault(n, []).append(c)

    # -- indexing ---------------------------------------------------------
    def _index(self, m):
        for st in _toplevel(m.tree.body):
            if isinstance(st, (ast.FunctionDef,)):
                f = Func(st, m, None, 'function', list(st.decorator_list))
                m.funcs[st.name] = f
                self.funcs.append(f)
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in m.consts:
                            m.multi.add(t.id)
                        m.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.consts[st.target.id] = st.value
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.multi.add(st.target.id)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('ext', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                self._import_from(m, st)

    def _pkg_of(self, m):
        if m.rel.endswith('__init__.py'):
            return m.name
        return m.name.rpartition('.')[0]

    def _import_from(self, m, st):
        if st.level == 0:
            if st.module == '__future__':
                return
            for a in st.names:
                m.imports[a.asname or a.name] = ('ext', '%s.%s' % (st.module, a.name))
            return
        base = self._pkg_of(m)
        for _ in range(st.level - 1):
            base = base.rpartition('.')[0]
        target = st.module or ''
        full = '.'.join(x for x in (base, target) if x)
        for a in st.names:
            sub = '.'.join(x for x in (full, a.name) if x)
            if sub in self.modules and (full not in self.modules or a.name not in getattr(self.modules.get(full), 'consts', {})):
                m.imports[a.asname or a.name] = ('mod', sub)
            else:
                m.imports[a.asname or a.name] = ('from', full, a.name)

    def _index_class(self, m, st):
        c = Class(st, m)
        m.classes[st.name] = c
        self.classes.setdefault(st.name, []).append(c)
        for s in _toplevel(st.body):
            if isinstance(s, ast.FunctionDef):
                kind, extra = 'method', []
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'getter'
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        kind = 'static'
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        kind = 'classmethod'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                    elif isinstance(d, ast.Attribute) and d.attr == 'getter':
                        kind = 'getter'
                    elif isinstance(d, ast.Attribute) and d.attr == 'deleter':
                        kind = 'deleter'
                    else:
                        extra.append(d)
                f = Func(s, m, c, kind, extra)
                self.funcs.append(f)
                if kind == 'getter':
                    c.getters[s.name] = f
                elif kind == 'setter':
                    c.setters[s.name] = f
                elif kind == 'deleter':
                    pass
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        # name = property(getf, setf)
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            args = list(v.args) + [None, None]
                            kw = {k.arg: k.value for k in v.keywords}
                            g = kw.get('fget', args[0])
                            se = kw.get('fset', args[1])
                            if isinstance(g, ast.Name) and g.id in c.methods:
                                c.getters[t.id] = c.methods[g.id]
                            if isinstance(se, ast.Name) and se.id in c.methods:
                                c.setters[t.id] = c.methods[se.id]
                            continue
                        c.attrs[t.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value

    # -- lookups ----------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken('module %s not found in %s' % (name, self.package))
        return self.modules[name]

    def cls(self, name, module=None):
        lst = self.classes.get(name, [])
        if module is not None:
            lst = [c for c in lst if c.module.name == module]
        if not lst:
            raise AnalysisBroken('class %s not found' % name)
        return lst[0]

    def has_cls(self, name):
        return name in self.classes

    def func(self, qual):
        """'cfb.DirEntry.name:setter' or 'utils.mangle_name'"""
        q, _, kind = qual.partition(':')
        parts = q.split('.')
        # longest module prefix
        for n in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:n])
            if mod in self.modules:
                rest = parts[n:]
                m = self.modules[mod]
                if len(rest) == 1 and rest[0] in m.funcs:
                    return m.funcs[rest[0]]
                if len(rest) == 1:
                    r = self.resolve_name(m, rest[0])
                    if isinstance(r, Func):
                        return r
                if len(rest) == 2 and rest[0] in m.classes:
                    c = m.classes[rest[0]]
                    f = {'': c.method, 'setter': c.setter, 'getter': c.getter}[kind](rest[1])
                    if f is not None:
                        return f
        raise AnalysisBroken('function %s not found' % qual)

    def maybe_func(self, qual):
        try:
            return self.func(qual)
        except AnalysisBroken:
            return None

    def resolve_name(self, m, name, seen=None):
        """-> Func | Class | Module | ('const', Module, name) | ('ext', dotted) | None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.consts:
            return ('const', m, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'ext':
                return imp
            if imp[0] == 'mod':
                return self.modules[imp[1]]
            if imp[1] in self.modules:
                r = self.resolve_name(self.modules[imp[1]], imp[2], seen)
                if r is not None:
                    return r
                sub = '.'.join(x for x in (imp[1], imp[2]) if x)
                if sub in self.modules:
                    return self.modules[sub]
            return None
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def subclasses(self, name):
        out = []
        for lst in self.classes.values():
            for c in lst:
                if c.is_subclass(name):
                    out.append(c)
        return sorted(out, key=lambda c: (c.module.name, c.name))

    def line_count(self):
        return sum(s.count('\n') for s in self.sources.values())
