"""Receiver types used to resolve method calls.

Attribute types are inferred from constructor calls stored on self anywhere in the class, plus
a table of hints for attributes filled from parameters.  A hint only helps to resolve calls:
when the receiver type is unknown, a method name defined by exactly one class of the package
(and not also a method of a builtin container or file) resolves to that class.
"""
import ast
from .model import Func, Class
from .terms import is_c, cval

ATTR_HINTS = {
    ('Stream', 'storage'): 'CompoundFileBinary', ('Stream', 'dir'): 'DirEntry',
    ('DirEntry', 'storage'): 'CompoundFileBinary', ('DirEntry', 'parent'): 'DirEntry',
    ('CompoundFileBinary', 'root'): 'DirEntry',
    ('AAFObject', 'root'): 'AAFFile', ('AAFObject', 'dir'): 'DirEntry',
    ('AAFObjectManager', 'root'): 'AAFFile',
    ('AAFFactory', 'root'): 'AAFFile',
    ('Property', 'parent'): 'AAFObject',
    ('StreamProperty', 'dir'): 'DirEntry',
    ('AAFFile', 'cfb'): 'CompoundFileBinary', ('AAFFile', 'manager'): 'AAFObjectManager',
    ('AAFFile', 'metadict'): 'MetaDictionary', ('AAFFile', 'create'): 'AAFFactory',
}
RET_HINTS = {
    ('CompoundFileBinary', 'find'): 'DirEntry', ('CompoundFileBinary', 'create_dir_entry'): 'DirEntry',
    ('CompoundFileBinary', 'makedir'): 'DirEntry', ('CompoundFileBinary', 'makedirs'): 'DirEntry',
    ('CompoundFileBinary', 'move'): 'DirEntry', ('CompoundFileBinary', 'open'): 'Stream',
    ('CompoundFileBinary', 'read_dir_entry'): 'DirEntry',
    ('DirEntry', 'get'): 'DirEntry', ('DirEntry', 'touch'): 'DirEntry', ('DirEntry', 'open'): 'Stream',
    ('DirEntry', 'left'): 'DirEntry', ('DirEntry', 'right'): 'DirEntry', ('DirEntry', 'child'): 'DirEntry',
    ('DirEntry', 'makedir'): 'DirEntry',
    ('AAFObjectManager', 'create_temp_dir'): 'DirEntry',
    ('StreamProperty', 'open'): 'Stream',
}
COMMON = set('''get append extend pop insert read write clear remove copy keys values items update close
seek tell index count sort reverse setdefault add discard encode decode split join strip format find
open flush readinto truncate fromfile frombytes tobytes upper lower startswith endswith replace hex
__init__ __getitem__ __setitem__ __len__ __iter__ __contains__ dump value name'''.split())


class Types(object):
    def __init__(self, prog):
        self.prog = prog
        self.attrs = {}
        self._infer()

    def _infer(self):
        for lst in self.prog.classes.values():
            for cl in lst:
                for f in cl.all_funcs():
                    if not f.params:
                        continue
                    me = f.params[0]
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                            r = self.prog.resolve_expr(f.module, n.value.func)
                            if isinstance(r, Class):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                        self.attrs.setdefault((cl.name, t.attr), r)

    def lookup_class(self, name):
        lst = self.prog.classes.get(name)
        return lst[0] if lst else None

    def attr_type(self, cls, attr):
        for k in cls.mro():
            if (k.name, attr) in ATTR_HINTS:
                return self.lookup_class(ATTR_HINTS[(k.name, attr)])
            if (k.name, attr) in self.attrs:
                return self.attrs[(k.name, attr)]
        return None

    def ret_type(self, cls, m):
        for k in cls.mro():
            if (k.name, m) in RET_HINTS:
                return self.lookup_class(RET_HINTS[(k.name, m)])
        return None

    def global_obj(self, qual, prog):
        mod, _, n = qual.rpartition('.')
        # 'cfb.DirEntry.method' style
        if mod in prog.modules:
            m = prog.modules[mod]
            return m.classes.get(n) or m.funcs.get(n)
        mod2, _, cl = mod.rpartition('.')
        if mod2 in prog.modules:
            k = prog.modules[mod2].classes.get(cl)
            if k is not None:
                return k.method(n)
        return None

    def class_of_global(self, qual, prog):
        r = self.global_obj(qual, prog)
        return r if isinstance(r, Class) else None

    @staticmethod
    def is_entry(t):
        """an element of an object's table of properties"""
        if t[0] == 'i' and t[1][0] == 'a' and t[1][2] == 'property_entries':
            return True
        if t[0] in ('elem', 'nth'):
            s = t[1]
            while s[0] == 'call' and s[1][0] == 'b' and s[1][1] in ('list', 'tuple', 'sorted', 'iter') and s[2]:
                s = s[2][0]
            if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'properties' and not s[2]:
                return True
            if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'values' and s[1][1][0] == 'a' and s[1][1][2] == 'property_entries':
                return True
        if t[0] == 'i' and t[2] == ('c', 'int', 1) and t[1][0] in ('elem', 'nth'):
            s = t[1][1]
            while s[0] == 'call' and s[1][0] == 'b' and s[1][1] in ('list', 'tuple', 'sorted', 'iter') and s[2]:
                s = s[2][0]
            if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'items' and s[1][1][0] == 'a' and s[1][1][2] == 'property_entries':
                return True
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('get', 'pop') and t[1][1][0] == 'a' and t[1][1][2] == 'property_entries':
            return True
        return False

    def typeof(self, t, it):
        k = t[0]
        kind = getattr(it, 'kind', None)
        if kind is not None and self.is_entry(t):
            return kind
        if k == 'new':
            r = self.global_obj(t[1], self.prog)
            return r if isinstance(r, Class) else None
        if k == 'a':
            b = it.typeof(t[1])
            if b is not None:
                g = b.getter(t[2])
                if g is None or (b.name, t[2]) in ATTR_HINTS:
                    return self.attr_type(b, t[2])
            return None
        if k == 'call' and t[1][0] == 'a':
            b = it.typeof(t[1][1])
            if b is not None:
                return self.ret_type(b, t[1][2])
            f = self.unique_method(t[1][2], t[1][1])
            if f is not None and f.cls is not None:
                return self.ret_type(f.cls, t[1][2])
        return None

    def unique_method(self, name, recv):
        if name in COMMON:
            return None
        owners = self.prog.method_owners.get(name, [])
        if len(owners) == 1:
            return owners[0].methods[name]
        return None

    def isinstance_(self, obj, cls, it):
        """Only decided for terms whose class is exact."""
        if is_c(obj):
            v = cval(obj)
            names = []
            for x in (cls[1] if cls[0] == 'tuple' else (cls,)):
                if x[0] != 'b':
                    names.append(None)
                else:
                    names.append(x[1])
            table = {'int': int, 'str': str, 'bytes': bytes, 'float': float, 'dict': dict, 'list': list, 'tuple': tuple}
            if v is None:
                return False
            if all(n in table for n in names):
                return isinstance(v, tuple(table[n] for n in names))
            return None
        kind = getattr(it, 'kind', None)
        entry = kind is not None and self.is_entry(obj)
        if obj[0] == 'new' or entry:
            k = kind if entry else self.global_obj(obj[1], self.prog)
            if isinstance(k, Class):
                res = []
                for x in (cls[1] if cls[0] == 'tuple' else (cls,)):
                    if x[0] != 'g':
                        return None
                    res.append(k.is_subclass(x[1].rpartition('.')[2]))
                return any(res)
        return None
