"""The data model tables, evaluated from source."""
from .consts import const, module_const, NotConst, Dup, norm, Ident
from .model import AnalysisBroken

CATS = ('ints', 'enums', 'records', 'fixed_arrays', 'var_arrays', 'renames', 'strings', 'streams', 'opaques', 'extenums',
        'chars', 'generic_chars', 'indirects', 'sets', 'strongrefs', 'weakrefs')


class Prop(object):
    def __init__(self, name, auid, pid, typ, optional, unique):
        self.name, self.auid, self.pid, self.typ, self.optional, self.unique = name, auid, pid, typ, optional, unique


class Cls(object):
    def __init__(self, name, auid, parent, concrete, where):
        self.name, self.auid, self.parent, self.concrete, self.where = name, auid, parent, concrete, where
        self.props = []
        self.ext = []


class Typ(object):
    def __init__(self, cat, name, auid, row, where):
        self.cat, self.name, self.auid, self.row, self.where = cat, name, auid, row, where


class Model(object):
    def __init__(self, prog):
        self.prog = prog
        self.classes = {}       # auid -> Cls
        self.names = {}         # name or alias -> auid
        self.types = {}         # auid -> Typ
        self.tnames = {}
        self.issues = []        # (construct, where, message)
        self.undecided = []
        self.load()

    def issue(self, construct, where, msg):
        self.issues.append((construct, where, msg))

    def table(self, mod, name):
        d = Dup()
        try:
            v = module_const(self.prog, mod, name, d)
        except NotConst as e:
            self.undecided.append(('%s.%s' % (mod, name), str(e)))
            return {}
        rel = self.prog.module(mod).rel
        for k, line, a, b in d.items:
            if a != b:
                self.issue('%s.%s[%r]' % (mod, name, k), '%s:%d' % (rel, line), 'the key %r is given twice with different values; the first is lost' % (k,))
        if not isinstance(v, dict):
            self.undecided.append(('%s.%s' % (mod, name), 'not a table'))
            return {}
        return v

    def load(self):
        prog = self.prog
        sources = [('metadict', 'root_classes', 'base'), ('model.classdefs', 'classdefs', 'base'), ('model.ext.classdefs', 'classdefs', 'ext')]
        for mod, name, layer in sources:
            rel = prog.module(mod).rel
            for cname, row in self.table(mod, name).items():
                self.add_class(cname, row, '%s %s' % (rel, cname), layer)
        for mod, layer in (('model.classdefs', 'base'), ('model.ext.classdefs', 'ext')):
            rel = prog.module(mod).rel
            for alias, name in self.table(mod, 'aliases').items():
                if name not in self.names:
                    self.issue('alias %s' % alias, rel, 'the alias %s names the class %s, which does not exist' % (alias, name))
                    continue
                if alias in self.names and self.names[alias] != self.names[name]:
                    self.issue('alias %s' % alias, rel, 'the alias %s hides another class' % alias)
                    continue
                self.names[alias] = self.names[name]
        for mod, layer in (('metadict', 'root'), ('model.typedefs', 'base'), ('model.ext.typedefs', 'ext')):
            m = prog.module(mod)
            for cat in CATS:
                key = cat
                if layer == 'root':
                    if cat != 'strongrefs':
                        continue
                    key = 'root_types'
                if key not in m.consts:
                    continue
                for tname, row in self.table(mod, key).items():
                    self.add_type(cat, tname, row, '%s %s' % (m.rel, tname), layer)
            if layer != 'root':
                for k, e in m.consts.items():
                    if k not in CATS:
                        try:
                            v = module_const(prog, mod, k)
                        except NotConst:
                            continue
                        if isinstance(v, dict) and v and all(isinstance(x, (tuple, list)) for x in v.values()):
                            self.undecided.append(('%s.%s' % (mod, k), 'a table of no known category'))

    def add_class(self, name, row, where, layer):
        if not isinstance(row, (tuple, list)) or len(row) != 4:
            self.issue('class %s' % name, where, 'the row of class %s does not have four fields' % name)
            return
        auid, parent, concrete, props = row
        a = norm(auid)
        if a is None:
            self.issue('class %s' % name, where, 'class %s has no valid identifier' % name)
            return
        p = None
        if parent is not None:
            p = norm(parent) or self.names.get(parent)
            if p is None:
                self.issue('class %s' % name, where, 'the parent of class %s is neither an identifier nor a class' % name)
                return
        if not isinstance(concrete, bool):
            self.issue('class %s' % name, where, 'class %s is neither concrete nor abstract: %r' % (name, concrete))
        k = self.classes.get(a)
        if k is None:
            if name in self.names:
                self.issue('class %s' % name, where, 'two classes are called %s' % name)
                return
            k = self.classes[a] = Cls(name, a, p, concrete, where)
            k.layer = layer
            self.names[name] = a
        else:
            if k.layer == layer:
                self.issue('class %s' % name, where, 'the classes %s and %s have the same identifier' % (k.name, name))
                return
            if k.name != name:
                self.issue('class %s' % name, where, 'the extension calls class %s %s' % (k.name, name))
            if k.parent != p or k.concrete != concrete:
                self.issue('class %s' % name, where, 'the extension changes parent or kind of class %s' % name)
        for pn, pr in (props or {}).items():
            if not isinstance(pr, (tuple, list)) or len(pr) not in (4, 5):
                self.issue('property %s.%s' % (name, pn), where, 'the row of property %s.%s does not have five fields' % (name, pn))
                continue
            pa, pid, pt, opt = pr[:4]
            uniq = pr[4] if len(pr) > 4 else False
            if norm(pa) is None:
                self.issue('property %s.%s' % (name, pn), where, 'property %s.%s has no valid identifier' % (name, pn))
                continue
            if pid is not None and not (isinstance(pid, int) and 0 < pid <= 0xFFFF):
                self.issue('property %s.%s' % (name, pn), where, 'the number of property %s.%s is not a property number' % (name, pn))
            q = Prop(pn, norm(pa), pid, norm(pt) or pt, opt, uniq)
            q.layer = layer
            k.props.append(q)

    def add_type(self, cat, name, row, where, layer):
        if not isinstance(row, (tuple, list)):
            row = (row,)
        row = tuple(row)
        a = norm(row[0]) if row else None
        if a is None:
            self.issue('type %s' % name, where, 'type %s has no valid identifier' % name)
            return
        t = self.types.get(a)
        if t is not None:
            if t.cat != cat or t.name != name:
                self.issue('type %s' % name, where, 'the types %s and %s have the same identifier' % (t.name, name))
                return
            if cat in ('enums', 'extenums') and t.layer != layer:
                el = dict(t.row[-1])
                for k, v in row[-1].items():
                    if k in el and el[k] != v:
                        self.issue('type %s' % name, where, 'the extension gives %r of %s another name' % (k, name))
                    el[k] = v
                t.row = t.row[:-1] + (el,)
                return
            if t.row[1:] != row[1:]:
                self.issue('type %s' % name, where, 'the type %s is defined twice, differently' % name)
            return
        if name in self.tnames:
            self.issue('type %s' % name, where, 'two types are called %s' % name)
            return
        t = self.types[a] = Typ(cat, name, a, row, where)
        t.layer = layer
        self.tnames[name] = a

    # -- queries ------------------------------------------------------------------
    def chain(self, auid):
        out, seen = [], set()
        while auid in self.classes and auid not in seen:
            seen.add(auid)
            out.append(self.classes[auid])
            auid = self.classes[auid].parent
        return out

    def below(self, auid):
        return [k for k in self.classes.values() if any(x.auid == auid for x in self.chain(k.auid))]

    def props(self, auid):
        return [p for k in self.chain(auid) for p in k.props]

    def prop_names(self, auid, down=False):
        s = set(p.name for p in self.props(auid))
        if down:
            for k in self.below(auid):
                s |= set(p.name for p in k.props)
        return s

    def type_of(self, ref):
        return self.types.get(norm(ref) or self.tnames.get(ref))

    def sf(self, t, seen=()):
        """store format category of a type"""
        if t.cat in ('strongrefs', 'weakrefs', 'streams'):
            return {'strongrefs': 'strong', 'weakrefs': 'weak', 'streams': 'stream'}[t.cat]
        if t.cat in ('var_arrays', 'sets'):
            e = self.type_of(t.row[1])
            if e is None or t.auid in seen:
                return 'data'
            x = self.sf(e, seen + (t.auid,))
            if x in ('strong', 'weak'):
                return x + (' vector' if t.cat == 'var_arrays' else ' set')
        return 'data'

    def target(self, t, seen=()):
        """the class a reference type refers to, '' when it is no reference"""
        if t is None:
            return None
        if t.cat in ('strongrefs', 'weakrefs'):
            return norm(t.row[1]) or self.names.get(t.row[1])
        if t.cat in ('var_arrays', 'sets') and t.auid not in seen:
            return self.target(self.type_of(t.row[1]), seen + (t.auid,))
        return ''

    def size(self, t, seen=()):
        """encoded size, None when not fixed"""
        if t is None or t.auid in seen:
            return None
        s = seen + (t.auid,)
        if t.cat == 'ints':
            return t.row[1]
        if t.cat == 'enums':
            return self.size(self.type_of(t.row[1]), s)
        if t.cat == 'fixed_arrays':
            n = self.size(self.type_of(t.row[1]), s)
            return None if n is None else n * t.row[2]
        if t.cat == 'records':
            tot = 0
            for _, m in t.row[1]:
                n = self.size(self.type_of(m), s)
                if n is None:
                    return None
                tot += n
            return tot
        return None

    def dump(self):
        """plain data for the reference copy"""
        cl = {}
        for k in self.classes.values():
            cl[k.auid] = {'name': k.name, 'parent': k.parent, 'concrete': k.concrete,
                          'props': {p.auid: [p.name, p.pid, p.typ, bool(p.optional), bool(p.unique)] for p in k.props}}
        ty = {}
        for t in self.types.values():
            ty[t.auid] = {'name': t.name, 'cat': t.cat, 'row': plain(t.row[1:])}
        return {'classes': cl, 'types': ty}


def plain(v):
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return sorted([[norm(k) or k, plain(x)] for k, x in v.items()], key=lambda x: str(x[0]))
    return norm(v) or v


def load(prog):
    if not hasattr(prog, '_aafmodel'):
        prog._aafmodel = Model(prog)
    return prog._aafmodel
