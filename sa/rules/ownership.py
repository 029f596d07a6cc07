"""C12 one owner and refusals that change nothing, C13 keys of collection members,
C14 every kind is detached, attached and copied, C29 generated names"""
import ast
from .util import *
from ..interp import MUTATORS
from .order import ev as fold, Unk
from .kinds import everykind, full, about_entries
from .obj_state import change, kind_of_prop, fresh, DIRS, STATE

# ---------------------------------------------------------------------------- C12

HELPERS = ('check_values', 'extend', 'append', 'clear', 'add_pid_entry', 'remove_pid_entry', 'attached', 'ref_classdef', 'set_data')
SKIP = set('''__init__ copy attach detach decode encode read_index write_index object index_name add_pid_entry remove_pid_entry
mark_modified swap_unique_key'''.split())
TABLE = ('objects', 'references')


def props(cx):
    return [cx.prog.cls('Property')] + list(cx.prog.subclasses('Property'))


def methods(cx):
    """methods and setters of the kinds of property, each once"""
    seen = set()
    for k in props(cx):
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f.qual + str(f.node.lineno) in seen or f.name in SKIP and f.name != 'object':
                continue
            if f.name in SKIP:
                continue
            seen.add(f.qual + str(f.node.lineno))
            yield k, f


def source(t):
    """the sequence a term is an element of, or None"""
    if t[0] in ('elem', 'nth'):
        return t[1]
    if t[0] == 'i' and t[2][0] == 'key' and t[2][1] == t[1]:
        return t[1]
    return None


def base(t):
    """what a sequence is a copy of, or a sequence over"""
    while True:
        if source(t) is not None:
            t = source(t)
        elif t[0] == 'call' and t[1][0] == 'b' and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('values', 'copy') and not t[2]:
            t = t[1][1]
        else:
            return t


def given(t, me):
    """the parameter object an expression is (the parameter or an element of it), or None"""
    if t[0] == 'p' and t != me:
        return t
    s = source(t)
    if s is not None:
        b = base(s)
        if b[0] == 'p' and b != me:
            return t
        if b[0] in ('tuple', 'list') and len(b[1]) == 1:
            return given(b[1][0], me)
    return None


def taken(e, me):
    """(object, weak) when the event stores a given object, or its key, in the property"""
    vals = []
    if e.kind == 'set' and e.v is not None and e.b in ('object', 'objectref', 'ref', 'objects', 'references'):
        vals = [e.v]
    elif e.kind == 'setitem' and e.v is not None:
        vals = [e.v]
    elif e.kind == 'call' and e.recv is not None and e.name in ('append', 'add', 'insert', 'setdefault', 'update', 'extend') and contains(e.recv, lambda s: s[0] == 'a' and s[2] in TABLE):
        vals = list(e.args[-1:])
    for v in vals:
        x = given(v, me)
        if x is not None and not (e.kind == 'call' and e.name == 'extend'):
            return x, False
        for s in subterms(v):
            if s[0] == 'a' and s[2] == 'unique_key' and given(s[1], me) is not None:
                return given(s[1], me), True
            if s[0] == 'call' and s[1][0] in ('ext', 'mod', 'g', 'b', 'a') and show(s[1]).endswith('weakref.ref') and s[2] and given(s[2][0], me) is not None:
                return given(s[2][0], me), False
    return None


def truth(e):
    """(condition, truth) with negations removed"""
    t, v = e.a, e.b
    while t[0] == 'un' and t[1] == 'not':
        t, v = t[2], not v
    return t, v


def g_type(e, x):
    t, v = truth(e)
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'isinstance' and len(t[2]) == 1:
        if has_attr(t[1][1], 'ref_classdef') and t[2][0] == ('a', x, 'classdef'):
            return 'yes' if v else None
        if t[1][1] == ('a', x, 'classdef') and has_attr(t[2][0], 'ref_classdef'):
            return 'reversed' if v else None
    return None


def g_root(e, x, me):
    t, v = truth(e)
    if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!='):
        s = {t[2], t[3]}
        if ('a', x, 'root') in s and any(ends(y, 'parent', 'root') and y[1][1] == me for y in s):
            return v == (t[1] in ('is', '=='))
    return False


def g_dir(e, x, me):
    t, v = truth(e)
    if t == ('a', x, 'dir'):
        return v is False
    if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!='):
        s = [t[2], t[3]]
        pos = v == (t[1] in ('is', '=='))
        if ('a', x, 'dir') in s and NONE in s:
            return pos
        if x in s:
            o = s[1] if s[0] == x else s[0]
            if o != NONE and contains(o, lambda y: y == me):
                return pos
    if t[0] == 'cmp' and t[1] in ('in', 'not in') and contains(t[2], lambda y: y == x):
        if contains(t[3], lambda y: y == me):
            return v == (t[1] == 'in')
    if t[0] == 'call' and t[1] == ('b', 'any') and contains(t, lambda y: y == x) and contains(t, lambda y: y == me):
        return v
    return False


def guards(cx, p, i, x, me, weak):
    """missing guards of x before event i: list of (name, definite)"""
    out = []
    pre = [e for e in p.ev[:i] if e.kind == 'assume']
    ty = [g_type(e, x) for e in pre]
    if 'yes' not in ty:
        about = any(contains(e.a, lambda s: s == ('a', x, 'classdef')) and g_type(e, x) is None for e in pre) or passed(cx, p, i, x)
        out.append(('type reversed' if 'reversed' in ty else 'type', 'reversed' in ty or not about))
    if not any(g_root(e, x, me) for e in pre):
        about = any(contains(e.a, lambda s: s == ('a', x, 'root')) for e in pre) or passed(cx, p, i, x)
        out.append(('root', not about))
    if not weak and not any(g_dir(e, x, me) for e in pre):
        seen = [e for e in pre if contains(e.a, lambda s: s == ('a', x, 'dir'))]
        # a plain "it has a place" that was not refused is the violation itself
        plain = any(e.b is True and truth(e)[0] == ('a', x, 'dir') for e in seen)
        out.append(('place', (plain or not seen) and not passed(cx, p, i, x)))
    return out


def passed(cx, p, i, x):
    """x (or what it is an element of) was handed to a function that was not looked into"""
    whole = base(x)
    for e in p.ev[:i]:
        if e.kind == 'call' and e.func is None and e.recv is not None and e.recv[0] == 'p' and e.name not in MUTATORS and any(a == x or base(a) == whole for a in e.args):
            return True
    return False


def impossible(p):
    """a sequence that was found empty by one loop is walked by another"""
    empty, full_ = set(), set()
    ev = p.ev
    for i, e in enumerate(ev):
        if e.kind == 'iter':
            nxt = next((x for x in ev[i + 1:] if x.kind in ('loop', 'loopexit', 'iter')), None)
            if nxt is not None and nxt.kind == 'loop' and nxt.a == e.a:
                full_.add(e.a)
            elif nxt is not None and nxt.kind in ('loopexit', 'iter'):
                empty.add(e.a)
            elif nxt is None and not p.raised:
                empty.add(e.a)
        elif e.kind == 'compiter':
            full_.add(e.a)
    if any(t[0] != 'comp' and t in full_ for t in empty):
        return True
    # an object is never false
    some = set(e.a[2] for e in ev if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] == 'is' and e.a[3] == NONE and e.b is False)
    if any(e.kind == 'assume' and e.b is False and e.a in some and e.a[0] == 'a' and e.a[2] in ('object', 'value', 'dir') for e in ev):
        return True
    for e in ev:
        if e.kind == 'assume' and e.a[0] == 'cmp' and e.a[1] in ('in', 'not in') and (e.b is True) == (e.a[1] == 'in') and vacuous(e.a[3]):
            return True
    return False


def vacuous(t):
    """a sequence that is empty whatever the input"""
    if t[0] in ('tuple', 'list', 'set', 'dict'):
        return not t[1]
    if t == c(()):
        return True
    if t[0] == 'call' and t[1] in (('b', 'set'), ('b', 'list'), ('b', 'tuple'), ('b', 'frozenset')):
        return not t[2] or len(t[2]) == 1 and vacuous(t[2][0])
    return t[0] == 'comp' and len(t[3]) > 0 and vacuous(t[3][0])


WORDS = {'type': 'without testing that its class fits', 'type reversed': 'after testing that the expected class is an instance of its class, not the reverse',
         'root': 'without testing that it belongs to the same file', 'place': 'although it already has a place in the file'}


def C12(cx):
    n = nw = 0
    for k, f in methods(cx):
        if len(f.params) < 2:
            continue
        me = ('p', f.params[0])
        inl = [h for h in HELPERS if h != f.name]
        if f.name in ('value', 'append'):
            inl = [h for h in inl if h not in ('extend', 'append', 'clear')]
        try:
            ps = cx.paths(f, assume=True, inline=tuple(inl), selfcls=k)
        except AnalysisBroken as x:
            cx.unk('C12.guard', f.qual, str(x))
            continue
        ps = [p for p in ps if not impossible(p)]
        hit = False
        name = '%s.%s' % (k.name, f.name)
        loops_changed = {}
        for p in ps:
            first = None
            stack = []
            for i, e in enumerate(p.ev):
                if e.kind == 'loop':
                    stack.append(e.line)
                elif e.kind == 'loopexit' and stack:
                    stack.pop()
                if changes(e, f, me):
                    if first is None:
                        first = i
                    for l in stack:
                        loops_changed.setdefault(l, (e, p))
            if p.raised:
                continue
            tk = [(i, taken(e, me)) for i, e in enumerate(p.ev) if taken(e, me) is not None]
            for i, (x, weak) in tk[:3]:
                if x[0] == 'p' and f.name == '__setitem__' and x == ('p', f.params[1]):
                    continue
                hit = True
                for what, sure in guards(cx, p, i, x, me, weak):
                    if sure:
                        cx.bad('C12.guard', '%s %s' % (name, what.split()[0]), p.ev[i].where, '%s takes an object in %s' % (name, WORDS[what]), p)
                    else:
                        cx.unk('C12.guard', '%s %s' % (name, what), 'test not recognised')
                cx.ok('C12.guard', name)
            # handed to a method that may refuse, after something has changed
            if first is not None:
                for i, e in enumerate(p.ev):
                    if i > first and e.kind == 'call' and e.recv == me and e.name in ('extend', 'append', 'insert') and e.args:
                        for a in e.args[-1:]:
                            x = given(a, me) or a
                            obs = [x]
                            if e.name == 'extend':
                                obs = [('elem', a)] + [s for q in p.ev[:i] if q.kind == 'assume' for s in subterms(q.a) if source(s) is not None and base(s) == base(a)]
                            best = None
                            for o in obs:
                                m = [w for w in guards(cx, p, first, o, me, 'Weak' in k.name)]
                                if best is None or len(m) < len(best):
                                    best = m
                            if empty_loop(p, a):
                                continue
                            if best and any(s for _, s in best):
                                cx.bad('C12.refuse', '%s %s' % (name, e.name), p.ev[first].where, '%s changes the property before the new objects are tested (%s)' % (name, ', '.join(w for w, _ in best)), p)
                            else:
                                cx.ok('C12.refuse', '%s %s' % (name, e.name))
        # refusals change nothing
        for p in ps:
            if not refusal(p, me):
                continue
            ch = [e for e in p.ev if changes(e, f, me)]
            cx.check(not ch, 'C12.refuse', name, ch[0].where if ch else f.where, '%s refuses after it has changed the property' % name, p)
            stack = []
            for e in p.ev:
                if e.kind == 'loop':
                    stack.append(e.line)
                elif e.kind == 'loopexit' and stack:
                    stack.pop()
            for l in stack:
                if l in loops_changed:
                    cx.bad('C12.refuse', name, loops_changed[l][0].where, '%s refuses an element after earlier ones of the same call have been taken in' % name, p)
        n += hit
    cx.need('operations taking objects in', n, 4)
    attach_refuses(cx)
    replaced(cx)
    bypass(cx)


def empty_loop(p, a):
    ev = p.ev
    for i, e in enumerate(ev):
        if e.kind == 'iter' and base(e.a) == base(a):
            nxt = next((x for x in ev[i + 1:] if x.kind in ('loop', 'loopexit', 'iter')), None)
            if nxt is None or nxt.kind != 'loop':
                return True
    return False


REFUSE = ('AAFAttachError', 'TypeError', 'ValueError', 'AAFPropertyError', 'IndexError', 'KeyError')


def refusal(p, me):
    """the operation ends by refusing what it was given"""
    if not p.raised:
        return False
    last = p.ev[-1] if p.ev else None
    if last is not None and last.kind == 'raise':
        return exc_name(p) in REFUSE
    for e in reversed(p.ev):
        if e.kind == 'assume':
            return contains(e.a, lambda s: s[0] == 'a' and s[2] in ('classdef', 'root', 'dir') and given(s[1], me) is not None)
    return False


def changes(e, f, me):
    if e.kind == 'call' and e.recv is not None and (e.name in ('detach', 'attach', 'clear', 'pop', 'popitem') and not fresh(e.recv) and
                                                    (e.recv == me or has_attr(e.recv, 'object') or has_attr(e.recv, 'objects') or given(e.recv, me) or e.name in ('detach', 'attach'))):
        if e.recv[0] in ('new', 'dict', 'list'):
            return False
        return True
    if e.kind == 'call' and e.name in DIRS and e.name not in ('create_temp_dir',):
        return True
    if e.kind == 'set' and e.b in ('object', 'objectref', 'objects') and e.a == me:
        return True
    if e.kind in ('setitem', 'delitem') and e.a == ('a', me, 'objects'):
        return True
    ch = change(e, True)
    if ch is None or fresh(ch[0]):
        return False
    # names and widths of an empty collection hold no content
    if ch[1] in ('data', 'weakref_index', 'key_pid', 'key_size') and e.kind == 'set' and e.a == me:
        return ch[1] == 'data' and not (e.v is not None and e.v[0] == 'call' and e.v[1] == ('a', me, 'encode') and not roots(e.v) - {me})
    return True


def attach_refuses(cx):
    """an object that has a place is not given a second one"""
    f = cx.prog.func('core.AAFObject.attach')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, assume=True):
        st = [(i, e) for i, e in enumerate(p.ev) if e.kind == 'set' and e.a == me and e.b == 'dir']
        for i, e in st:
            n += 1
            ok = any(x.kind == 'assume' and (g_dir(x, me, ('p', ' ')) or same_place(x, me)) for x in p.ev[:i])
            about = any(x.kind == 'assume' and contains(x.a, lambda s: s == ('a', me, 'dir')) and truth(x)[0] != ('a', me, 'dir') and truth(x)[0][0] != 'cmp' for x in p.ev[:i])
            if not ok and about:
                cx.unk('C12.attach', 'attach', 'test not recognised')
            else:
                cx.check(ok, 'C12.attach', 'attach', e.where, 'an object that has a place in a file is given another without being refused', p)
    cx.need('attach', n, 1)
    f = cx.prog.func('properties.StreamProperty.attach')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True):
        mv = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'move']
        for i in mv:
            look = [e for e in p.ev[:i] if e.kind == 'assume' and contains(e.a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'find', 'exists') and contains(s, lambda y: y == ('a', me, 'stream_name')))]
            free = [e for e in look if truth(e)[1] is (False if truth(e)[0][0] == 'call' else truth(e)[0][1] in ('is', '=='))]
            if look and not free:
                cx.bad('C12.attach', 'stream attach', p.ev[i].where, 'a stream is moved onto an existing one', p)
            elif not look:
                cx.unk('C12.attach', 'stream attach', 'no test for an existing stream')
            else:
                cx.ok('C12.attach', 'stream attach')
            break


def same_place(e, me):
    t, v = truth(e)
    return t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!=') and ('a', me, 'dir') in (t[2], t[3]) and NONE not in (t[2], t[3]) and v == (t[1] in ('is', '=='))


def bypass(cx):
    """collections are only filled by their own methods"""
    for f in cx.prog.funcs:
        if f.module.name in ('properties', 'mxf', 'cfb') or isinstance(f.node, ast.Lambda):
            continue
        for nd in ast.walk(f.node):
            t = None
            if isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Store) and isinstance(nd.value, ast.Attribute) and nd.value.attr in TABLE:
                t = nd
            elif isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and nd.attr in ('objectref', 'references', 'objects'):
                t = nd
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in MUTATORS and isinstance(nd.func.value, ast.Attribute) and nd.func.value.attr in TABLE:
                t = nd
            if t is not None and f.qual in cx.known:
                cx.bad('C12.bypass', '%s' % f.qual, '%s:%d' % (f.where.rsplit(':', 1)[0], t.lineno), '%s fills a collection past the tests of the collection' % f.qual)
            elif t is not None:
                cx.unk('C12.bypass', f.qual, 'fills a collection directly')
    cx.ok('C12.bypass', 'package')


# -- taking something out ends its place

STRONG = ('StrongRefProperty', 'StrongRefVectorProperty', 'StrongRefSetProperty')


def loaded(t, me):
    """an element read through the property, so that it is found when it is not in memory"""
    if source(t) is not None:
        b = base(source(t))
        return b == me
    if t == ('a', me, 'value'):
        return True
    if t[0] == 'call' and t[1][0] == 'a' and t[1][1] == me and t[1][2] in ('get', 'read_object', '__getitem__'):
        return True
    if t[0] == 'i' and t[1] == me:
        return True
    if t[0] == 'call' and contains(t[1], lambda s: s[0] == 'a' and s[2] == 'manager') and t[1][2] == 'read_object':
        return True
    return False


def of_cache(t, me):
    """the element as far as it is in memory"""
    return contains(t, lambda s: s in (('a', me, 'object'), ('a', me, 'objectref'), ('a', me, 'objects')))


def dispossessed(p, i, me):
    """'yes' when what was in the place before event i was detached or is known to be nothing,
    'cache' when this is known only of what is in memory, None otherwise"""
    best = None
    for k, e in enumerate(p.ev):
        if e.kind == 'call' and e.name == 'detach' and e.recv is not None:
            if loaded(e.recv, me) or of_cache(e.recv, me):
                return 'yes'
        if e.kind == 'call' and e.recv == me and e.name in ('clear', 'remove_pid_entry', 'pop'):
            return 'yes'
        if e.kind == 'assume' and k < i:
            t, v = truth(e)
            none = None
            if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!=') and NONE in (t[2], t[3]):
                o = t[2] if t[3] == NONE else t[3]
                none = v == (t[1] in ('is', '=='))
            elif t[0] == 'cmp' and t[1] in ('in', 'not in') and contains(t[3], lambda s: s == ('a', me, 'references') or s == me or s[0] == 'a' and s[2] == 'property_entries'):
                if v == (t[1] == 'not in'):
                    return 'yes'
                continue
            elif t[0] == 'cmp' and t[1] in ('is', 'is not'):
                # it is the new object itself
                o = None
                if v == (t[1] == 'is') and any(loaded(x, me) or of_cache(x, me) for x in t[2:4]):
                    return 'yes'
                continue
            else:
                o, none = t, v is False
            if not none:
                continue
            if loaded(o, me) or o == ('a', me, 'references') or o[0] == 'call' and contains(o, lambda s: s == ('a', me, 'references')):
                return 'yes'
            if o == ('a', me, 'attached') or ends(o, 'dir'):
                best = best or 'off'
            if of_cache(o, me):
                best = 'cache' if best != 'yes' else best
    if best == 'cache' and any(e.kind == 'assume' and truth(e)[1] is False and (truth(e)[0] == ('a', me, 'attached') or ends(truth(e)[0], 'parent', 'dir')) for e in p.ev):
        return 'yes'
    return best


def replaced(cx):
    n = 0
    for kn in STRONG:
        k = cx.prog.cls(kn)
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f.name in ('__init__', 'copy', 'attach', 'detach', 'decode', 'encode', 'read_index', 'object', 'get', 'read_object', 'items', 'swap_unique_key', 'insert') or not f.params:
                continue
            me = ('p', f.params[0])
            inl = [h for h in HELPERS if h not in ('extend', 'append', 'clear', 'remove_pid_entry', 'attached')]
            try:
                ps = cx.paths(f, assume=True, inline=tuple(inl), selfcls=k)
            except AnalysisBroken as x:
                cx.unk('C12.replace', f.qual, str(x))
                continue
            name = '%s.%s' % (kn, f.name)
            for p in ps:
                if p.raised or impossible(p):
                    continue
                for i, e in enumerate(p.ev):
                    what = None
                    if kn == 'StrongRefProperty' and e.kind == 'set' and e.a == me and e.b in ('object', 'objectref') and given(e.v, me) is not None:
                        what = 'replaces an object'
                    elif kn == 'StrongRefSetProperty' and e.kind == 'setitem' and e.a == ('a', me, 'objects') and given(e.v, me) is not None:
                        what = 'replaces an element'
                    elif kn == 'StrongRefVectorProperty' and f.name == '__setitem__' and e.kind == 'setitem' and e.a == ('a', me, 'objects') and given(e.v, me) is not None:
                        what = 'replaces an element'
                    elif e.kind == 'call' and e.recv == ('a', me, 'references') and e.name in ('pop', 'remove', 'popitem') or e.kind == 'delitem' and e.a == ('a', me, 'references'):
                        what = 'removes an element'
                    elif e.kind == 'set' and e.a == me and e.b == 'references' and emptied(e.v) or e.kind == 'call' and e.recv == ('a', me, 'references') and e.name == 'clear':
                        what = 'drops all elements'
                        skipped = [x for x in p.ev[:i] if x.kind == 'iter' and (x.a == me or base(x.a) == me)]
                        if skipped and not any(x.kind == 'loop' and x.a == skipped[-1].a for x in p.ev):
                            continue
                    if what is None:
                        continue
                    n += 1
                    d = dispossessed(p, i, me)
                    if d == 'yes':
                        cx.ok('C12.replace', name)
                    elif d in (None, 'cache', 'off'):
                        cx.bad('C12.replace', name, e.where, '%s %s without detaching the old one%s' % (name, what, ' when that is not in memory' if d == 'cache' else ''), p)
                    break
        # removing the property itself
        g = k.method('remove_pid_entry')
        me = ('p', g.params[0])
        for p in cx.paths(g, assume=True, selfcls=k, inline=('clear', 'remove_pid_entry')):
            if p.raised or impossible(p):
                continue
            for i, e in enumerate(p.ev):
                gone = e.kind == 'delitem' and has_attr(e.a, 'property_entries') or e.kind == 'call' and e.name in ('pop', '__delitem__') and e.recv is not None and ends(e.recv, 'property_entries')
                if not gone:
                    continue
                n += 1
                it = [x for x in p.ev[:i] if x.kind == 'iter' and (x.a == me or base(x.a) == me)]
                none = it and not any(x.kind == 'loop' and x.a == it[-1].a for x in p.ev)
                d = 'yes' if none else dispossessed(p, i, me)
                off = any(x.kind == 'assume' and truth(x)[1] is False and (truth(x)[0] == ('a', me, 'attached') or ends(truth(x)[0], 'dir')) for x in p.ev[:i])
                cx.check(d == 'yes' or off, 'C12.replace', '%s removal' % kn, e.where, 'removing a property of kind %s leaves its objects in their places' % kn, p)
                break
        s = k.setters.get('value')
        if s is not None:
            me = ('p', s.params[0])
            for p in cx.paths(s, assume=True, selfcls=k, args={s.params[1]: NONE}):
                if p.raised:
                    continue
                gone = [e for e in p.ev if e.kind == 'delitem' and has_attr(e.a, 'property_entries') or e.kind == 'call' and e.name == 'pop' and e.recv is not None and ends(e.recv, 'property_entries')]
                if gone:
                    cx.check(dispossessed(p, p.ev.index(gone[0]), me) == 'yes', 'C12.replace', '%s removal' % kn, gone[0].where, 'setting a property of kind %s to None leaves its objects in their places' % kn, p)
    cx.need('replacing and removing operations', n, 6)
    f = cx.prog.func('core.AAFObject.__delitem__')
    for p in cx.paths(f, assume=True):
        if p.raised:
            continue
        rm = [e for e in p.ev if e.kind == 'call' and e.name in ('remove_pid_entry', 'detach', 'clear') and e.recv is not None]
        gone = [e for e in p.ev if e.kind == 'delitem' and has_attr(e.a, 'property_entries') or e.kind == 'call' and e.name == 'pop' and e.recv is not None and ends(e.recv, 'property_entries')]
        if gone or rm:
            cx.check(bool(rm), 'C12.replace', '__delitem__', gone[0].where if gone else f.where, 'deleting a property leaves the objects it owns in their places', p)


def emptied(t):
    return t is not None and (t[0] in ('list', 'dict', 'set', 'tuple') and not t[1] or t[0] == 'call' and t[1] in (('b', 'list'), ('b', 'dict')) and not t[2])


# ---------------------------------------------------------------------------- C13

def offset(t, n0):
    """k when t is n0 + k"""
    if n0 is None:
        return None
    try:
        a, b = [fold(t, lambda s, v=v: (v,) if s == n0 else None) for v in (0, 1000003)]
    except Unk:
        return None
    return a if isinstance(a, int) and isinstance(b, int) and b - a == 1000003 else None


def local_put(e, x):
    """the local key an event stores for property x, or None"""
    refs = ('a', x, 'references')
    if e.kind == 'setitem' and e.a == refs:
        return e.v
    if e.kind == 'call' and e.recv == refs:
        if e.name == 'append' and e.args:
            return e.args[0]
        if e.name in ('insert', 'setdefault', '__setitem__') and len(e.args) > 1:
            return e.args[1]
        if e.name in ('extend', 'update') and e.args:
            return ('many', e.args[0])
    return None


def moved(t, x):
    """a local key another element of the property had"""
    refs = ('a', x, 'references')
    return t[0] == 'i' and t[1] == refs or t[0] == 'call' and t[1][0] == 'a' and t[1][1] == refs and t[1][2] in ('pop', 'get', '__getitem__')


def has_len_refs(t, x):
    return contains(t, lambda s: s[0] == 'call' and s[1] in (('b', 'len'), ('b', 'max'), ('b', 'hash'), ('b', 'id')))


def collections_of(f):
    """the terms standing for a collection property in a function"""
    out = []
    if f.params:
        out.append(('p', f.params[0]))
    return out


def C13(cx):
    counter(cx)
    keyed(cx)
    swap(cx)
    guarded_key(cx)
    names(cx)


def counter(cx):
    n = 0
    todo = []
    for kn in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
        k = cx.prog.cls(kn)
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f.params and touches_(f, ('next_free_key', 'references')):
                todo.append((k, f))
    for f in cx.prog.funcs:
        if (f.cls is None or not f.cls.is_subclass('Property')) and f.module.name != 'mxf' and not isinstance(f.node, ast.Lambda) and touches_(f, ('next_free_key',)):
            todo.append((None, f))
    for k, f in todo:
        inl = [h for h in ('add_pid_entry', 'check_values') if h != f.name and h == 'add_pid_entry']
        try:
            ps = cx.paths(f, assume=True, unroll=2, selfcls=k, inline=tuple(inl))
        except AnalysisBroken as x:
            cx.unk('C13.counter', f.qual, str(x))
            continue
        name = f.qual
        for p in ps:
            if p.raised:
                continue
            xs = set()
            for e in p.ev:
                if e.kind == 'set' and e.b in ('next_free_key', 'references'):
                    xs.add(e.a)
                elif e.kind in ('setitem', 'delitem') and e.a[0] == 'a' and e.a[2] == 'references':
                    xs.add(e.a[1])
                elif e.kind == 'call' and e.recv is not None and e.recv[0] == 'a' and e.recv[2] == 'references':
                    xs.add(e.recv[1])
            for x in sorted(xs, key=repr):
                n += judge_counter(cx, k, f, name, p, x)
    cx.need('operations on local keys', n, 4)


def touches_(f, names):
    return any(isinstance(nd, ast.Attribute) and nd.attr in names for nd in ast.walk(f.node))


def judge_counter(cx, k, f, name, p, x):
    n0 = ('a', x, 'next_free_key')
    base_ = 0           # offsets are relative to n0, or absolute after a reset
    absolute = False
    used, cur, n = [], 0, 0
    reset_refs = False
    kind_of = k
    for e in p.ev:
        if e.kind == 'set' and e.a == x and e.b == 'references':
            v = e.v
            if emptied(v):
                reset_refs = True
                used = []
            elif contains(v, lambda s: s[0] == 'a' and s[2] == 'references' and s[1] != x):
                # copied with its counter
                src = [s[1] for s in subterms(v) if s[0] == 'a' and s[2] == 'references'][0]
                cnt = [q for q in p.ev if q.kind == 'set' and q.a == x and q.b == 'next_free_key']
                n += 1
                cx.check(bool(cnt) and cnt[-1].v == ('a', src, 'next_free_key'), 'C13.counter', name, e.where, '%s takes over the local keys of a collection without its counter of free keys' % name, p)
                return n
            elif contains(v, lambda s: s == ('a', x, 'references')):
                pass
            else:
                # read from the file, together with its counter
                cnt = [q for q in p.ev if q.kind == 'set' and q.a == x and q.b == 'next_free_key']
                if 'Weak' in (k.name if k else ''):
                    return n
                n += 1
                if not cnt and f.name != '__init__':
                    cx.bad('C13.counter', name, e.where, '%s sets the local keys but not the counter of free keys' % name, p)
                return n
            continue
        if e.kind == 'call' and e.recv == ('a', x, 'references') and e.name == 'clear':
            reset_refs = True
            used = []
            continue
        if e.kind == 'set' and e.a == x and e.b == 'next_free_key':
            n += 1
            v = e.v
            o = offset(v, n0)
            if o is not None and not absolute:
                if o < cur:
                    cx.bad('C13.counter', name, e.where, '%s sets the counter of free keys back' % name, p)
                cur = o
            elif is_c(v):
                first = f.name == '__init__' or x[0] == 'new'
                empt = reset_refs or any(q.kind == 'set' and q.a == x and q.b == 'references' and emptied(q.v) for q in p.ev) or any(q.kind == 'call' and q.recv == ('a', x, 'references') and q.name == 'clear' for q in p.ev)
                if not empt and not first:
                    cx.bad('C13.counter', name, e.where, '%s resets the counter of free keys of a collection that has elements' % name, p)
                absolute = True
                cur = cval(v)
                n0 = None
            elif v[0] == 'a' and v[2] == 'next_free_key':
                # taken over from another collection
                cpy = [q for q in p.ev if q.kind == 'set' and q.a == x and q.b == 'references' and contains(q.v, lambda s: s == ('a', v[1], 'references'))]
                if not cpy:
                    cx.unk('C13.counter', name, 'counter taken over without the keys')
                return n
            elif contains(v, lambda s: s[0] == 'call' and str(show(s[1])).split('.')[-1].startswith(('read', 'unpack'))):
                return n
            elif contains(v, lambda s: s == n0) and contains(v, lambda s: s == ('b', 'max')):
                cx.unk('C13.counter', name, 'counter computed')
                return n
            elif contains(v, lambda s: s == ('a', x, 'references')):
                cx.bad('C13.counter', name, e.where, '%s computes the counter of free keys from the elements there are, so a key is used again' % name, p)
                return n
            else:
                cx.unk('C13.counter', name, 'counter set to %s' % show(v)[:60])
                return n
            continue
        v = local_put(e, x)
        if v is None:
            continue
        if k is None and not any(q.kind == 'set' and q.b == 'next_free_key' for q in p.ev) and not contains(v, lambda s: s[0] == 'a' and s[2] == 'next_free_key'):
            if not moved(v, x):
                continue
        n += 1
        if v[0] == 'many':
            o = v[1]
            if contains(o, lambda s: s == n0):
                cx.unk('C13.counter', name, 'keys given out together')
                return n
            if 'read' in f.name:
                continue
            cx.unk('C13.counter', name, 'keys %s' % show(o)[:60])
            return n
        o = offset(v, n0) if n0 is not None else (cval(v) if is_c(v) else None)
        if o is not None:
            if o < 0 or o in used:
                cx.bad('C13.counter', name, e.where, '%s gives two elements the same local key' % name, p)
            used.append(o)
        elif moved(v, x):
            continue
        elif 'read' in f.name or contains(v, lambda s: s[0] == 'call' and 'unpack' in show(s[1])):
            continue
        elif is_c(v) or has_len_refs(v, x):
            cx.bad('C13.counter', name, e.where, '%s gives an element the local key %s, which another element may have or have had' % (name, show(v)), p)
            return n
        else:
            cx.unk('C13.counter', name, 'key %s' % show(v)[:60])
            return n
    if used:
        cx.check(cur > max(used), 'C13.counter', name, f.where, '%s leaves the counter of free keys at one that is in use' % name, p)
    elif n:
        cx.ok('C13.counter', name)
    return n


def keyed(cx):
    """elements of keyed sets are stored under their own key, in both tables"""
    k = cx.prog.cls('StrongRefSetProperty')
    n = 0
    for f in list(k.methods.values()) + list(k.setters.values()):
        if f.name in ('copy', 'read_index', '__init__', 'read_object', 'get', 'items', 'detach', 'swap_unique_key') or not f.params:
            continue
        me = ('p', f.params[0])
        for p in cx.paths(f, assume=True, selfcls=k, inline=('add_pid_entry',)):
            if p.raised or impossible(p):
                continue
            for e in p.ev:
                if e.kind == 'setitem' and e.a == ('a', me, 'objects') and e.v is not None and given(e.v, me) is not None:
                    n += 1
                    own = e.b == ('a', e.v, 'unique_key')
                    if own:
                        cx.ok('C13.keyed', f.qual)
                    elif is_c(e.b) or not contains(e.b, lambda s: s == e.v):
                        cx.bad('C13.keyed', f.qual, e.where, '%s stores an element under %s, not under its own unique key' % (f.qual, show(e.b)), p)
                    else:
                        cx.unk('C13.keyed', f.qual, 'key %s' % show(e.b)[:60])
                    there = any(q.kind == 'setitem' and q.a == ('a', me, 'references') and q.b == e.b for q in p.ev) or \
                        any(q.kind == 'call' and q.recv == ('a', me, 'references') and q.name in ('setdefault', '__setitem__') and q.args and q.args[0] == e.b for q in p.ev)
                    had = any(q.kind == 'assume' and has_key(q, me, e.b) for q in p.ev)
                    cx.check(there or had, 'C13.keyed', '%s index' % f.qual, e.where, '%s stores an element without entering its key in the index' % f.qual, p)
    cx.need('keyed elements', n, 1)
    # the low level way: the key given is the key of the value given
    f = cx.prog.func('properties.add2set') if 'properties.add2set' in set(g.qual for g in cx.prog.funcs) else None
    if f is not None and len(f.params) == 4:
        ob, ky, va = ('p', f.params[0]), ('p', f.params[2]), ('p', f.params[3])
        for p in cx.paths(f, assume=True):
            if p.raised:
                continue
            for e in p.ev:
                if e.kind == 'setitem' and e.a[0] == 'a' and e.a[2] in ('objects', 'references'):
                    if e.b in (ky, ('a', va, 'unique_key'), ('a', va, 'auid')):
                        cx.ok('C13.keyed', 'add2set')
                    else:
                        cx.bad('C13.keyed', 'add2set', e.where, 'an element is stored under %s, not under its key' % show(e.b), p)
        for g in cx.prog.funcs:
            for c_ in ast.walk(g.node):
                if isinstance(c_, ast.Call) and (isinstance(c_.func, ast.Name) and c_.func.id == 'add2set' or isinstance(c_.func, ast.Attribute) and c_.func.attr == 'add2set') and len(c_.args) == 4:
                    a, b = c_.args[2], c_.args[3]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and isinstance(b, ast.Name):
                        cx.check(a.value.id == b.id and a.attr in ('auid', 'unique_key'), 'C13.keyed', 'add2set in %s' % g.qual, '%s:%d' % (g.where.rsplit(':', 1)[0], c_.lineno),
                                 '%s registers %s under %s' % (g.qual, b.id, ast.unparse(a)))


def has_key(q, me, key):
    """the condition says that the index has the key"""
    t, v = truth(q)
    refs = ('a', me, 'references')
    if t[0] == 'cmp' and t[1] in ('in', 'not in') and t[2] == key and t[3] in (refs, me):
        return v == (t[1] == 'in')
    if t[0] == 'cmp' and NONE in t[2:4]:
        o = t[2] if t[3] == NONE else t[3]
        if o[0] == 'call' and o[1] == ('a', refs, 'get') and o[2] and o[2][0] == key:
            return v == (t[1] in ('is not', '!='))
    return False


def swap(cx):
    k = cx.prog.cls('StrongRefSetProperty')
    f = k.method('swap_unique_key')
    me, old, new = [('p', x) for x in f.params[:3]]
    refs, objs = ('a', me, 'references'), ('a', me, 'objects')
    n = 0
    for p in cx.paths(f, assume=True, selfcls=k):
        if p.raised:
            ch = [e for e in p.ev if e.kind in ('setitem', 'delitem') or e.kind == 'set' or e.kind == 'call' and e.name in ('pop',)]
            cx.check(not ch or p.ev[-1].kind != 'raise', 'C13.swap', 'refusal', ch[0].where if ch else f.where, 'a refused key change has already changed the collection', p)
            continue
        n += 1
        # refused when the new key is taken
        free = same_key = seen = False
        for e in p.ev:
            if e.kind != 'assume':
                continue
            t, v = truth(e)
            if t[0] == 'cmp' and t[1] in ('in', 'not in') and t[2] == new and t[3] in (refs, me, ('call', ('a', refs, 'keys'), (), ())):
                seen = True
                free = free or v == (t[1] == 'not in')
            elif t[0] == 'cmp' and set(t[2:4]) == {old, new} and t[1] in ('==', '!=', 'is', 'is not'):
                same_key = same_key or v == (t[1] in ('==', 'is'))
            elif contains(t, lambda s: s == new):
                seen = True
                if t[0] == 'cmp' and NONE in t[2:4] and contains(t, lambda s: s in (refs, me)):
                    free = free or v == (t[1] in ('is', '=='))
                elif t[0] == 'call' and contains(t, lambda s: s in (refs, me)):
                    free = free or v is False
        if same_key and not any(e.kind in ('setitem', 'delitem', 'set') or e.kind == 'call' and e.name in MUTATORS for e in p.ev):
            continue
        cx.check(free or same_key, 'C13.swap', 'taken key', f.where, 'the unique key of an element is changed to one that another element may have', p)
        loc = [e for e in p.ev if local_put(e, me) is not None]
        for e in loc:
            cx.check(e.b == new or e.kind == 'call' and e.args[0] == new, 'C13.swap', 'new key', e.where, 'the index entry goes to %s' % show(e.b) if e.b else '', p)
            cx.check(moved(local_put(e, me), me) and contains(local_put(e, me), lambda s: s == old), 'C13.swap', 'local key', e.where, 'the element does not keep its local key, so it is stored under another name', p)
        cx.check(bool(loc), 'C13.swap', 'index', f.where, 'the index does not get the new key', p)
        gone = any(e.kind == 'call' and e.recv == refs and e.name == 'pop' and e.args and e.args[0] == old or e.kind == 'delitem' and e.a == refs and e.b == old for e in p.ev)
        cx.check(gone or same_key, 'C13.swap', 'old key', f.where, 'the index keeps the old key', p)
        ob = [e for e in p.ev if e.kind == 'setitem' and e.a == objs]
        cx.check(bool(ob) and all(e.b == new for e in ob), 'C13.swap', 'objects', f.where, 'the element is not found under its new key', p)
        stored = [e for e in p.ev if e.kind == 'set' and e.b in ('data', 'value') and contains(e.a, lambda s: s[0] == 'a' and s[2] == 'unique_property')]
        bytes_ = [e for e in stored if e.b == 'value' or e.v == ('a', new, 'bytes_le')]
        sd = [e for e in p.ev if e.kind == 'call' and e.name == 'set_data' and e.args and e.args[0] == ('a', new, 'bytes_le')]
        cx.check(bool(bytes_ or sd), 'C13.swap', 'stored key', stored[0].where if stored else f.where, 'the element itself keeps its old unique key', p)
    cx.need('key swap', n, 1)


def guarded_key(cx):
    """changing the unique key of an element goes through its collection"""
    n = 0
    for k in props(cx):
        f = k.setters.get('value')
        if f is None or not k.name in ('Property', 'UniqueIdProperty'):
            continue
        me = ('p', f.params[0])
        for p in cx.paths(f, assume=True, selfcls=k):
            if p.raised:
                continue
            conds_ = [truth(e) for e in p.ev if e.kind == 'assume']
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'data' or e.kind == 'call' and e.name in ('remove_pid_entry',) or e.kind == 'delitem']
            if not st:
                continue
            n += 1
            unique = [v for t, v in conds_ if ends(t, 'unique')]
            nodata = [1 for t, v in conds_ if t[0] == 'cmp' and ('a', me, 'data') in t[2:4] and NONE in t[2:4] and v == (t[1] in ('is', '=='))] + [1 for t, v in conds_ if t == ('a', me, 'data') and not v]
            off = [1 for t, v in conds_ if (ends(t, 'parent', 'dir') or t == ('a', me, 'attached')) and not v] + [1 for t, v in conds_ if t[0] == 'cmp' and any(ends(y, 'parent', 'dir') for y in t[2:4]) and NONE in t[2:4] and v == (t[1] in ('is', '=='))]
            sw = [e for e in p.ev if e.kind == 'call' and e.name == 'swap_unique_key']
            if sw:
                for e in sw:
                    good = len(e.args) == 2 and e.args[1] == ('p', f.params[1]) and (e.args[0] == ('a', me, 'value') or contains(e.args[0], lambda s: s == ('a', me, 'data') or s == ('a', me, 'value')))
                    cx.check(good, 'C13.unique', 'swap call', e.where, 'the collection is asked to move the key %s to %s' % tuple(show(a) for a in (list(e.args) + [NONE, NONE])[:2]), p)
                    coll = 'mobs' if any(v and MOBID in show(t) for t, v in conds_) else 'essencedata' if any(v and ESSID in show(t) for t, v in conds_) else None
                    if coll and e.recv is not None and e.recv[0] == 'a':
                        cx.check(e.recv[2] == coll, 'C13.unique', 'swap collection', e.where, 'the key of a %s element is moved in the collection %s' % (coll, e.recv[2]), p)
                continue
            if any(v is False for v in unique) or nodata or off:
                cx.ok('C13.unique', f.qual)
            else:
                cx.bad('C13.unique', f.qual, st[0].where, 'the unique key of an element that is in a collection is changed without telling the collection', p)
    cx.need('setting plain values', n, 1)


MOBID, ESSID = 'MOB_MOBID_AUID', 'ESSENCEDATA_MOBID_AUID'


def names(cx):
    """different local keys give different storage names"""
    n = 0
    for kn in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
        k = cx.prog.cls(kn)
        f = k.method('index_ref_name')
        me = ('p', f.params[0])
        ps = [p for p in cx.paths(f, assume=True, selfcls=k) if not p.raised]
        if len(ps) != 1:
            cx.unk('C13.names', f.qual, 'several paths')
            continue
        t = ps[0].ret
        got = {}
        for key in (0, 1, 9, 10, 0xf, 0x10, 0xff, 0x100, 0xffff, 0x10000, 0x100000, 0xfffffff, 0x10000000, 0xfffffffe, 0xffffffff):
            def leaf(s, key=key):
                if moved(s, me):
                    return (key,)
                if s == ('a', me, 'index_name'):
                    return ('Name-1',)
                return None
            try:
                v = fold(t, leaf)
            except Unk:
                if not contains(t, lambda s: s == ('a', me, 'references')):
                    cx.bad('C13.names', f.qual, f.where, 'the storage name %s of an element does not depend on its local key' % show(t), ps[0])
                    n += 1
                else:
                    cx.unk('C13.names', f.qual, show(t)[:80])
                break
            n += 1
            if v in got:
                cx.bad('C13.names', f.qual, f.where, 'the local keys %#x and %#x give the same storage name %s' % (got[v], key, v), ps[0])
            got[v] = key
            if isinstance(v, str):
                cx.check(v.startswith('Name-1'), 'C13.names', '%s prefix' % f.qual, f.where, 'the name of an element lacks the name of its collection', ps[0])
                cx.check(v == 'Name-1{%x}' % key, 'C13.names', '%s form' % f.qual, f.where, 'the element with local key %#x is stored as %s, not as Name-1{%x}' % (key, v, key), ps[0])
    cx.need('storage names', n, 2)


# ---------------------------------------------------------------------------- C14

OWNING = STRONG + ('StreamProperty',)
NOT_STATE = ('objects', '_index_name', 'objectref', 'dir', '_propertydef', 'last_free_key', 'stream_name', 'parent', 'pid', 'format', 'version', 'data')


def C14(cx):
    dispatch(cx)
    taking_out(cx)
    putting_in(cx)
    kind_attach(cx)
    kind_detach(cx)
    walk(cx)
    copying(cx)
    kind_copy(cx)


def dispatch(cx):
    n = everykind(cx, 'C14.kinds', 'core.AAFObject.detach', 'detach', 'taking an object out of a file leaves its %s properties in')
    n += everykind(cx, 'C14.kinds', 'core.AAFObject.attach', 'attach', 'putting an object into a file leaves its %s properties out')
    n += everykind(cx, 'C14.kinds', 'core.AAFObject.copy', 'copy', 'copying an object leaves out its %s properties')
    cx.need('kinds of property dispatched', n, 8)
    # the kinds that own something know how to be taken out and put in
    for kn in OWNING:
        k = cx.prog.cls(kn)
        for m in ('attach', 'detach'):
            cx.check(k.method(m) is not None, 'C14.kinds', '%s of %s' % (m, kn), k.where if hasattr(k, 'where') else '', '%s cannot be %sed' % (kn, m))


def taking_out(cx):
    f = cx.prog.func('core.AAFObject.detach')
    me = ('p', f.params[0])
    n = 0
    for k in [cx.prog.cls(x) for x in STRONG]:
        for p in cx.paths(f, assume=True, kind=k, heap=None, args={f.params[1]: FALSE} if len(f.params) > 1 else None):
            if p.raised or not full(cx, p):
                continue
            gone = [(i, e) for i, e in enumerate(p.ev) if e.kind == 'set' and e.b == 'dir' and e.v == NONE]
            det = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'detach' and e.recv is not None and cx.types.is_entry(e.recv)]
            n += 1
            items = [e.a for e in p.ev if e.kind == 'loop' and e.a is not None and contains(e.a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'walk_references')]
            placed = [truth(e) for e in p.ev if e.kind == 'assume' and truth(e)[0][0] == 'a' and truth(e)[0][2] == 'dir']
            if any(v is True for _, v in placed) or not placed:
                for t, v in placed:
                    if v is True:
                        cx.check(any(e.a == t[1] for _, e in gone), 'C14.detach', 'place of %s' % ('the object' if t[1] == me else 'an element'), f.where,
                                 'a detached object keeps its place in the file', p)
            for i, e in gone:
                x = ('a', e.a, 'dir')
                pop = [j for j, q in enumerate(p.ev[:i]) if q.kind == 'call' and q.name in ('pop', '__delitem__') and q.recv is not None and ends(q.recv, 'manager') and q.args and contains(q.args[0], lambda s: s == x)]
                cx.check(bool(pop), 'C14.detach', 'manager', e.where, 'a detached object stays queued for saving, or is found again at its old place', p)
                if det and e.a != me:
                    cx.check(min(det) < i, 'C14.detach', 'order', e.where, 'an object loses its place before its properties are taken out, so they cannot be loaded any more', p)
    cx.need('detaching paths', n, 2)


def putting_in(cx):
    f = cx.prog.func('core.AAFObject.attach')
    me, d = ('p', f.params[0]), ('p', f.params[1])
    n = 0
    for k in [cx.prog.cls(x) for x in OWNING]:
        for p in cx.paths(f, assume=True, kind=k):
            if p.raised or not full(cx, p):
                continue
            n += 1
            st = [i for i, e in enumerate(p.ev) if e.kind == 'set' and e.a == me and e.b == 'dir']
            at = [i for i, e in enumerate(p.ev) if e.kind == 'call' and e.name == 'attach' and e.recv is not None and cx.types.is_entry(e.recv)]
            if not cx.check(bool(st) and p.ev[st[-1]].v == d, 'C14.attach', 'place', p.ev[st[-1]].where if st else f.where, 'an attached object does not get the place it is given', p):
                continue
            if at:
                cx.check(st[0] < at[0], 'C14.attach', 'order', p.ev[at[0]].where, 'the properties are put in before the object has a place, so nothing happens', p)
            cid = [e for e in p.ev if e.kind == 'set' and e.b == 'class_id' and e.a in (d, ('a', me, 'dir'))]
            cx.check(bool(cid) and cid[-1].v == ('a', me, 'class_id'), 'C14.attach', 'class', cid[-1].where if cid else f.where, 'the place of an attached object does not get its class', p)
            am = [e for e in p.ev if e.kind == 'call' and e.name in ('add_modified', 'mark_modified') and (e.args and e.args[0] == me or e.recv == me)]
            cx.check(bool(am), 'C14.attach', 'queue', f.where, 'an attached object is not queued for saving', p)
    cx.need('attaching paths', n, 2)


def element(t, me):
    """an element of the collection, in memory or read"""
    return loaded(t, me) or of_cache(t, me) or t == ('a', me, 'value')


def kind_attach(cx):
    n = 0
    for kn in STRONG:
        k = cx.prog.cls(kn)
        f = k.method('attach')
        me = ('p', f.params[0])
        hits = 0
        ps = [p for p in cx.paths(f, assume=True, selfcls=k, getitem=False) if not p.raised and not impossible(p)]
        for p in ps:
            at = [e for e in p.ev if e.kind == 'call' and e.name == 'attach' and e.recv is not None and element(e.recv, me)]
            lp = [e for e in p.ev if e.kind == 'iter']
            ent = [e for e in p.ev if e.kind == 'loop']
            if at:
                hits += 1
                for e in at:
                    a = e.args[0] if e.args else NONE
                    good = contains(a, lambda s: s[0] == 'a' and s[2] == 'dir' and s[1] == ('a', me, 'parent')) and \
                        contains(a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'makedir', 'touch') and len(s[2]) >= 1 and refname(s[2][0], me))
                    if good:
                        cx.ok('C14.member', kn)
                    elif contains(a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'makedir') and len(s[2]) >= 1 and not contains(s[2][0], lambda y: y == me or y[0] == 'call') or
                                  s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('get', 'makedir') and len(s[2]) >= 1 and kn != 'StrongRefProperty' and contains(s[2][0], lambda y: y == ('a', me, 'index_name'))
                                  and not contains(s[2][0], lambda y: y == ('a', me, 'references') or y[0] in ('call', 'elem'))):
                        cx.bad('C14.member', '%s name' % kn, e.where, 'an element is put under a name that is not the one it is looked up by', p)
                    else:
                        cx.unk('C14.member', '%s name' % kn, show(a)[:80])
                continue
            if lp and not ent:
                continue
            # why nothing was put in
            why = False
            for e in p.ev:
                if e.kind != 'assume':
                    continue
                t, v = truth(e)
                if v is False and (ends(t, 'parent', 'dir') or t == ('a', me, 'attached') or element(t, me) or t == ('a', me, 'object')):
                    why = True
                if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!='):
                    pos = v == (t[1] in ('is', '=='))
                    if pos and NONE in t[2:4] and any(ends(y, 'parent', 'dir') or element(y, me) for y in t[2:4]):
                        why = True
                    if pos and any(y[0] == 'a' and y[2] == 'dir' and element(y[1], me) for y in t[2:4]):
                        why = True
            cx.check(why, 'C14.member', '%s attach' % kn, f.where, 'putting a %s into a file can leave an element out' % kn, p)
        n += hits
        if not hits:
            cx.bad('C14.member', '%s attach' % kn, f.where, 'putting a %s into a file puts no element in' % kn)
        # every element: the walk is over the whole collection
        if kn != 'StrongRefProperty':
            for p in ps:
                for e in p.ev:
                    if e.kind == 'iter' and not (e.a == me or base(e.a) == me or contains(e.a, lambda s: s in (('a', me, 'references'), ('a', me, 'objects'), me))):
                        cx.unk('C14.member', '%s elements' % kn, show(e.a)[:60])
                    elif e.kind == 'iter' and contains(e.a, lambda s: s[0] == 'slice'):
                        cx.bad('C14.member', '%s elements' % kn, e.where, 'only a part of the elements of a %s is put into the file' % kn, p)
    cx.need('kinds putting elements in', n, 2)
    k = cx.prog.cls('StreamProperty')
    f = k.method('attach')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True, selfcls=k):
        if p.raised:
            continue
        none = any(e.kind == 'assume' and truth(e)[1] == (truth(e)[0][0] == 'cmp' and truth(e)[0][1] in ('is', '==')) and contains(e.a, lambda s: s == ('a', me, 'dir')) for e in p.ev)
        mv = [e for e in p.ev if e.kind == 'call' and e.name == 'move']
        cx.check(bool(mv) or none, 'C14.member', 'StreamProperty attach', f.where, 'putting a stream property into a file can leave the stream behind', p)
        for e in mv:
            if len(e.args) > 1:
                src_ok = contains(e.args[0], lambda s: s == ('a', me, 'dir'))
                dst_ok = contains(e.args[1], lambda s: s == ('a', ('a', me, 'parent'), 'dir')) and contains(e.args[1], lambda s: s == ('a', me, 'stream_name'))
                cx.check(src_ok and dst_ok, 'C14.member', 'StreamProperty attach', e.where, 'the stream is moved from %s to %s' % (show(e.args[0])[:60], show(e.args[1])[:60]), p)
            cl = [q for q in p.ev if q.kind == 'set' and q.a == me and q.b == 'dir' and q.v == NONE]
            cx.check(bool(cl), 'C14.member', 'StreamProperty attach', e.where, 'an attached stream property still refers to the place it had outside', p)


def refname(t, me):
    if t == ('a', me, 'ref'):
        return True
    if contains(t, lambda s: s[0] == 'call' and s[1] == ('a', me, 'index_ref_name')):
        return True
    return contains(t, lambda s: s == ('a', me, 'index_name')) and contains(t, lambda s: s == ('a', me, 'references'))


def kind_detach(cx):
    k = cx.prog.cls('StrongRefProperty')
    f = k.method('detach')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True, selfcls=k):
        if p.raised:
            continue
        st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b in ('objectref', 'object')]
        if not st:
            nothing = any(e.kind == 'assume' and truth(e)[1] is False and element(truth(e)[0], me) or e.kind == 'assume' and truth(e)[0][0] == 'cmp' and NONE in truth(e)[0][2:4] for e in p.ev)
            cx.check(nothing, 'C14.keep', 'StrongRefProperty', f.where, 'a detached reference keeps only a weak hold of its object', p)
            continue
        e = st[-1]
        if loaded(e.v, me) and e.b == 'objectref':
            cx.ok('C14.keep', 'StrongRefProperty')
        elif e.v[0] == 'call' and show(e.v[1]).endswith('weakref.ref') or e.b == 'object':
            cx.bad('C14.keep', 'StrongRefProperty', e.where, 'a detached reference keeps only a weak hold of its object', p)
        elif of_cache(e.v, me):
            vis = any(q.kind == 'assume' and truth(q)[1] is True and truth(q)[0] == e.v for q in p.ev)
            cx.check(vis, 'C14.keep', 'StrongRefProperty', e.where, 'a detached reference drops an object that was not in memory', p)
        else:
            cx.unk('C14.keep', 'StrongRefProperty', show(e.v)[:60])
    for kn in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
        k = cx.prog.cls(kn)
        f = k.method('detach')
        me = ('p', f.params[0])
        for p in cx.paths(f, assume=True, selfcls=k):
            if p.raised:
                continue
            st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'objects']
            if not st:
                cx.bad('C14.keep', kn, f.where, 'a detached %s keeps only a weak hold of its elements' % kn, p)
                continue
            v = st[-1].v
            if contains(v, lambda s: s[0] in ('new', 'call', 'g', 'ext') and 'Weak' in show(s)):
                cx.bad('C14.keep', kn, st[-1].where, 'a detached %s keeps only a weak hold of its elements' % kn, p)
                continue
            its = [e for e in p.ev if e.kind in ('iter', 'compiter')]
            whole = [e for e in its if e.a == me or base(e.a) == me or e.a[0] == 'call' and e.a[1][0] == 'a' and e.a[1][1] == me and e.a[1][2] in ('items', 'values', '__iter__')
                     or contains(e.a, lambda s: s == ('a', me, 'references')) or contains(e.a, lambda s: s[0] == 'call' and s[1] == ('b', 'len') and s[2] == (me,))]
            part = [e for e in its if contains(e.a, lambda s: s == ('a', me, 'objects'))]
            if not whole and (part or not its and contains(v, lambda s: s == ('a', me, 'objects'))):
                cx.bad('C14.keep', kn, st[-1].where, 'a detached %s loses the elements that were not in memory' % kn, p)
            elif whole:
                put = [e for e in p.ev if e.kind == 'setitem'] or any(e.kind == 'compiter' for e in its) or not any(e.kind == 'loop' for e in p.ev)
                cx.check(bool(put), 'C14.keep', kn, st[-1].where, 'a detached %s keeps no hold of its elements' % kn, p)
            else:
                cx.unk('C14.keep', kn, show(v)[:60])
    k = cx.prog.cls('StreamProperty')
    f = k.method('detach')
    me = ('p', f.params[0])
    for p in cx.paths(f, assume=True, selfcls=k):
        if p.raised:
            continue
        mv = [e for e in p.ev if e.kind == 'call' and e.name == 'move']
        st = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == 'dir']
        cx.check(bool(mv), 'C14.keep', 'StreamProperty', f.where, 'taking a stream property out of a file leaves its stream in', p)
        cx.check(bool(st) and st[-1].v != NONE, 'C14.keep', 'StreamProperty', f.where, 'a detached stream property does not know where its stream is', p)


def walk(cx):
    f = cx.prog.func('core.AAFObject.walk_references')
    me = ('p', f.params[0])
    n = 0
    for k in [cx.prog.cls(x) for x in STRONG]:
        ps = [p for p in cx.paths(f, assume=True, kind=k) if not p.raised and table_walked(cx, p)]
        if not ps:
            cx.unk('C14.walk', k.name, 'no path over the properties was recognised')
            continue
        n += 1
        took = 0
        for p in ps:
            if any(e.kind == 'assume' and truth(e)[1] is False and of_entry(cx, truth(e)[0]) for e in p.ev):
                continue        # a reference to nothing
            got = [e for e in p.ev if e.kind == 'call' and e.name in ('append', 'extend', 'add', 'insert', 'update') and any(of_entry(cx, a) for a in e.args)
                   or e.kind == 'call' and e.name == 'walk_references' and e.recv is not None and of_entry(cx, e.recv)
                   or e.kind == 'setitem' and e.v is not None and of_entry(cx, e.v)
                   or e.kind == 'set' and e.v is not None and of_entry(cx, e.v)
                   or e.kind == 'yield' and e.a is not None and of_entry(cx, e.a)]
            comp = [e for e in p.ev if e.kind == 'compiter' and of_entry(cx, e.a)]
            took += bool(got or comp)
            if not got and not comp:
                if any(e.kind == 'iter' and of_entry(cx, e.a) and not entered(p, e) for e in p.ev):
                    continue        # an empty collection
                odd = [e for e in p.ev if e.kind == 'assume' and contains(e.a, cx.types.is_entry)]
                if odd:
                    cx.unk('C14.walk', k.name, 'depends on a test on the property')
                else:
                    cx.bad('C14.walk', k.name, f.where, 'walking an object tree leaves out the objects of %s properties' % k.name, p)
            part = [e for e in got + comp for a in (list(e.args or ()) + [e.a, e.v]) if isinstance(a, tuple) and contains(a, lambda s: s[0] == 'a' and s[2] in ('objects', 'objectref', 'object') and cx.types.is_entry(s[1]))]
            if part:
                cx.bad('C14.walk', k.name, part[0].where, 'walking an object tree leaves out objects that are not in memory', p)
        if not took:
            cx.bad('C14.walk', k.name, f.where, 'walking an object tree leaves out the objects of %s properties' % k.name, ps[0])
        else:
            cx.ok('C14.walk', k.name)
    rec = [p for p in cx.paths(f, assume=True) if any(e.kind == 'call' and e.name == 'walk_references' for e in p.ev)]
    cx.check(bool(rec), 'C14.walk', 'depth', f.where, 'walking an object tree does not go below the first level')
    for p in cx.paths(f, assume=True):
        if not p.raised:
            y = [e for e in p.ev if e.kind == 'yield' and contains(e.a, lambda s: s == me)]
            cx.check(bool(y), 'C14.walk', 'self', f.where, 'walking an object tree leaves out its root', p)
    cx.need('kinds walked', n, 2)


def table_walked(cx, p):
    """the table of properties was not empty"""
    n = 0
    for e in p.ev:
        if e.kind in ('iter', 'compiter') and about_entries(cx, e.a) and not contains(e.a, cx.types.is_entry):
            if e.kind == 'iter' and e.a[0] not in ('list', 'tuple') and not entered(p, e):
                return False
            n += 1
    return n > 0


def of_entry(cx, t):
    return contains(t, cx.types.is_entry)


def entered(p, e):
    ev = p.ev
    i = ev.index(e)
    nxt = next((x for x in ev[i + 1:] if x.kind in ('loop', 'loopexit', 'iter')), None)
    return nxt is not None and nxt.kind == 'loop'


def copying(cx):
    """every entry of the table of properties is copied into that of the copy"""
    f = cx.prog.func('core.AAFObject.copy')
    me = ('p', f.params[0])
    n = 0
    for k in props(cx):
        for p in cx.paths(f, assume=True, kind=k):
            if p.raised or not full(cx, p):
                continue
            n += 1
            put = [e for e in p.ev if e.kind == 'setitem' and e.a[0] == 'a' and e.a[2] == 'property_entries' and e.a[1] != me]
            good = [e for e in put if e.v[0] == 'call' and e.v[1][0] == 'a' and e.v[1][2] == 'copy' and cx.types.is_entry(e.v[1][1])]
            shared = [e for e in put if cx.types.is_entry(e.v)]
            if shared:
                cx.bad('C14.copy', 'sharing', shared[0].where, 'a copied object shares the properties of its original', p)
            add = any(e.kind == 'call' and e.name in ('add_pid_entry', 'update', 'setdefault') for e in p.ev)
            if not add:
                cx.check(bool(good), 'C14.copy', 'table', f.where, 'a copied property is not put into the table of the copy', p)
            for e in good:
                a = e.v[2]
                if len(a) >= 2:
                    cx.check(a[0] == e.a[1], 'C14.copy', 'parent', e.where, 'a copied property belongs to %s, not to the copy' % show(a[0])[:60], p)
                    cx.check(a[1] == e.b, 'C14.copy', 'number', e.where, 'a copied property is numbered %s but entered under %s' % (show(a[1])[:40], show(e.b)[:40]), p)
            r = p.ret
            cx.check(r is not None and r != me, 'C14.copy', 'result', f.where, 'copying returns the object itself', p)
            st = [e for e in p.ev if e.kind == 'set' and e.b == 'root' and e.a == r]
            if st:
                nosrc = [e for e in p.ev if e.kind == 'assume']
                cx.check(contains(st[-1].v, lambda s: s == ('p', 'root')) or st[-1].v == ('a', me, 'root') or any(truth(e)[0] == ('p', 'root') for e in nosrc), 'C14.copy', 'root', st[-1].where, 'the copy belongs to %s' % show(st[-1].v)[:60], p)
    cx.need('copying paths', n, 4)


def state_attrs(k):
    out = []
    for kk in k.mro():
        sl = kk.attrs.get('__slots__') if hasattr(kk, 'attrs') else None
        if sl is None:
            continue
        node = sl if isinstance(sl, ast.AST) else (sl[0] if isinstance(sl, (list, tuple)) and sl and isinstance(sl[0], ast.AST) else None)
        if node is None:
            continue
        if isinstance(node, ast.Assign):
            node = node.value
        try:
            out += list(ast.literal_eval(node))
        except (ValueError, SyntaxError):
            pass
    return [a for a in out if a not in NOT_STATE]


def same_root(p, me, parent):
    """True / False / None: the copy stays in the file of the original"""
    for e in p.ev:
        if e.kind == 'assume':
            t, v = truth(e)
            if t[0] == 'cmp' and t[1] in ('is', '==', 'is not', '!='):
                s = set(t[2:4])
                if ('a', parent, 'root') in s and ('a', ('a', me, 'parent'), 'root') in s:
                    return v == (t[1] in ('is', '=='))
    return None


def copied_value(t, me):
    """copy call on an element of the original"""
    for s in subterms(t):
        if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'copy' and element(s[1][1], me):
            return s
    return None


def kind_copy(cx):
    n = 0
    for k in props(cx):
        f = k.method('copy')
        if f is None:
            continue
        me, parent = ('p', f.params[0]), ('p', f.params[1])
        ps = [p for p in cx.paths(f, assume=True, selfcls=k, inline=('copy',) if k.name != 'Property' else ()) if not p.raised and not impossible(p)]
        ps = [p for p in ps if not any(e.kind == 'call' and False for e in p.ev)]
        state = state_attrs(k)
        name = k.name
        for p in ps:
            r = p.ret
            if r is None or r == me:
                cx.bad('C14.state', name, f.where, 'the copy of a %s is the property itself' % name, p)
                continue
            n += 1
            sr = same_root(p, me, parent)
            sets = {}
            for e in p.ev:
                if e.kind == 'set' and e.a == r:
                    sets[e.b] = e
            # the stored bytes
            d = sets.get('data')
            if d is not None and d.v is not None:
                ok = contains(d.v, lambda s: s == ('a', me, 'data')) or contains(d.v, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'encode')
                cx.check(ok, 'C14.state', '%s data' % name, d.where, 'the copy of a %s gets %s as its data' % (name, show(d.v)[:60]), p)
            else:
                cx.bad('C14.state', '%s data' % name, f.where, 'the copy of a %s does not get its data' % name, p)
            # nothing that can change is shared
            for e in p.ev:
                if e.kind in ('set', 'setitem') and e.v is not None and (e.a == r or e.kind == 'setitem' and contains(e.a, lambda s: s == r)):
                    if e.v in (('a', me, 'references'), ('a', me, 'objects'), ('a', me, 'objectref')):
                        cx.bad('C14.share', '%s %s' % (name, e.v[2]), e.where, 'the copy of a %s shares %s with its original' % (name, e.v[2]), p)
                    elif 'Weak' not in name and (loaded(e.v, me) and e.b not in ('data', 'ref') or e.v == ('a', me, 'object')):
                        cx.bad('C14.share', '%s element' % name, e.where, 'the copy of a %s owns an object of its original' % name, p)
                elif e.kind == 'call' and e.recv == r and e.name in ('append', 'extend', 'insert') and 'Weak' not in name:
                    for a in e.args:
                        if loaded(a, me):
                            cx.bad('C14.share', '%s element' % name, e.where, 'the copy of a %s takes an object of its original' % name, p)
            if sr is True:
                for a in state:
                    e = sets.get(a)
                    if e is None:
                        cx.bad('C14.state', '%s %s' % (name, a), f.where, 'the copy of a %s does not get %s, which is part of what is saved' % (name, a), p)
                    elif contains(e.v, lambda s, a=a: s[0] == 'a' and s[1] == me and s[2] in (a, '_' + a)):
                        cx.ok('C14.state', '%s %s' % (name, a))
                    elif is_c(e.v) or contains(e.v, lambda s: s[0] == 'a' and s[1] == me) and not contains(e.v, lambda s: s[0] == 'call'):
                        cx.bad('C14.state', '%s %s' % (name, a), e.where, 'the copy of a %s gets %s as its %s' % (name, show(e.v)[:60], a), p)
                    else:
                        cx.unk('C14.state', '%s %s' % (name, a), show(e.v)[:60])
            if name in STRONG:
                members_copied(cx, k, name, f, p, r, me, parent, sr)
            elif 'Weak' in name and sr is False:
                weak_copied(cx, name, f, p, r, me, parent)
            elif name == 'StreamProperty':
                stream_copied(cx, name, f, p, r, me)
    cx.need('copies of properties', n, 8)


def members_copied(cx, k, name, f, p, r, me, parent, sr):
    its = [e for e in p.ev if e.kind == 'iter' and (e.a == me or base(e.a) == me or contains(e.a, lambda s: s == me))]
    if its and not any(entered(p, e) for e in its):
        return
    part = [e for e in its if contains(e.a, lambda s: s == ('a', me, 'objects'))]
    if part:
        cx.bad('C14.members', name, part[0].where, 'copying a %s leaves out the elements that are not in memory' % name, p)
        return
    put = [e for e in p.ev if e.kind in ('set', 'setitem') and e.v is not None and copied_value(e.v, me) is not None and (contains(e.a, lambda s: s == r) or e.kind == 'setitem' and (e.a[0] == 'dict' or any(q.kind == 'set' and q.a == r and q.v == e.a for q in p.ev)))]
    put += [e for e in p.ev if e.kind == 'call' and e.recv is not None and contains(e.recv, lambda s: s == r) and e.name in ('append', 'extend', 'insert', 'add') and any(copied_value(a, me) for a in e.args)]
    if not put:
        if any(e.kind == 'assume' and truth(e)[1] is False and element(truth(e)[0], me) for e in p.ev):
            return
        cx.bad('C14.members', name, f.where, 'copying a %s does not copy its objects' % name, p)
        return
    for e in put:
        vals = [e.v] if e.kind != 'call' else list(e.args)
        cp = [copied_value(v, me) for v in vals if copied_value(v, me)][0]
        kw = dict(cp[3])
        pos = list(cp[2])
        root = kw.get('root', pos[1] if len(pos) > 1 else None)
        if sr is False:
            cx.check(root == ('a', parent, 'root'), 'C14.members', '%s root' % name, e.where, 'copying a %s into another file makes objects of %s' % (name, 'the old file' if root is None else show(root)), p)
        elif sr is True:
            cx.check(root is None or root in (('a', parent, 'root'), ('a', ('a', me, 'parent'), 'root'), NONE), 'C14.members', '%s root' % name, e.where, 'copying a %s makes objects of %s' % (name, show(root) if root else ''), p)
            # in an attached copy the element has its place at once
            att = any(q.kind == 'assume' and truth(q)[1] is True and truth(q)[0] == ('a', parent, 'dir') for q in p.ev)
            nd = kw.get('new_dir', pos[0] if pos else None)
            if att:
                cx.check(nd is not None and contains(nd, lambda s: s == ('a', parent, 'dir')), 'C14.members', '%s place' % name, e.where, 'copying a %s into an attached object makes objects without a place' % name, p)


def weak_copied(cx, name, f, p, r, me, parent):
    use = [e for e in p.ev if e.kind == 'set' and e.a == r and e.b == 'value' or e.kind == 'call' and e.recv == r and e.name in ('append', 'extend')]
    its = [e for e in p.ev if e.kind == 'iter']
    if not use:
        if its and not any(entered(p, e) for e in its):
            return
        cx.bad('C14.weak', name, f.where, 'copying a %s into another file loses what it refers to' % name, p)
        return
    for e in use:
        v = e.v if e.kind == 'set' else e.args[0]
        if contains(v, lambda s: s == ('a', parent, 'root')) or contains(v, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'copy'):
            cx.ok('C14.weak', name)
        elif loaded(v, me) or v == ('a', me, 'value'):
            cx.bad('C14.weak', name, e.where, 'the copy of a %s in another file refers to an object of the old file' % name, p)
        else:
            cx.unk('C14.weak', name, show(v)[:80])


def stream_copied(cx, name, f, p, r, me):
    rd = [e for e in p.ev if e.kind == 'call' and e.name == 'read']
    wr = [e for e in p.ev if e.kind == 'call' and e.name == 'write']
    lp = [e for e in p.ev if e.kind == 'loop']
    op = [e for e in p.ev if e.kind == 'call' and e.name == 'open']
    cx.check(any(e.recv == r for e in op), 'C14.stream', 'stream', f.where, 'copying a stream property makes no stream for the copy', p)
    for e in wr:
        cx.check(any(e.args and e.args[0] == q.v for q in rd) or e.args and contains(e.args[0], lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'read'), 'C14.stream', 'content', e.where, 'the copy of a stream gets %s' % show(e.args[0] if e.args else NONE)[:60], p)
    if rd and not wr:
        cx.bad('C14.stream', 'content', rd[0].where, 'content of a stream is read but not copied', p)


