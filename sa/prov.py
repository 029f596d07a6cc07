"""Bit provenance: an abstract interpreter over the syntax tree in which every input is a
vector of named bits.  Nothing is run and nothing is solved: values are vectors whose positions
say which input bit (or constant) they hold, so byte orders, field offsets, widths, masks and
shifts are decided for all inputs at once.  A test on input bits is followed both ways, and the
bits it fixes are known afterwards.  What the domain cannot express is `Unk` (undecided)."""
import ast
import builtins
import struct as _struct
from fractions import Fraction
from .model import AnalysisBroken, Func, Class, Module


class Unk(Exception):
    pass


class Infeasible(Exception):
    pass


class AbsRaise(Exception):
    def __init__(self, name, args=()):
        Exception.__init__(self, name)
        self.name, self.vals = name, args


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# -- values ---------------------------------------------------------------------------------

class N(object):
    """integer: bits, least significant first; signed: two's complement of that width"""
    __slots__ = ('b', 'signed')

    def __init__(self, b, signed=False):
        self.b, self.signed = tuple(b), signed

    def key(self):
        return ('N', self.b, self.signed)

    def __repr__(self):
        return 'N(%s%s)' % (descr(self.b), ' signed' if self.signed else '')


class By(object):
    """bytes / bytearray: each item is 8 bits, or a blob ('enc', codec, T) of unknown length"""
    __slots__ = ('v', 'mut')

    def __init__(self, v=(), mut=False):
        self.v, self.mut = list(v), mut

    def fixed(self):
        if any(len(x) == 3 and x[0] == 'enc' for x in self.v):
            raise Unk('bytes of unknown length')
        return self.v

    def key(self):
        return ('By', tuple(self.v))

    def __repr__(self):
        return 'By[%s]' % ' '.join(descr(x) if len(x) == 8 else 'enc(%s)' % (x[1],) for x in self.v)


class T(object):
    """text: characters; ('hx', 4 bits) is a hexadecimal digit, ('ch', 16 bits) any character
    but NUL, ('txt', name) text of any length without NUL"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def key(self):
        return ('T', self.v)

    def __repr__(self):
        return 'T(%s)' % ''.join(x if isinstance(x, str) else '<%s>' % (x[1] if x[0] == 'txt' else descr(x[1]) + ('..' if x[0] == 'vx' else '')) for x in self.v)


class D(object):
    def __init__(self, pairs=()):
        self.p = [list(x) for x in pairs]

    def __repr__(self):
        return 'D(%r)' % (self.p,)


class S(object):
    def __init__(self, items=()):
        self.p = list(items)


class Obj(object):
    def __init__(self, cls, attrs=None):
        self.cls, self.at = cls, dict(attrs or {})

    def __repr__(self):
        return 'Obj(%s %s)' % (self.cls if isinstance(self.cls, str) else self.cls.name, self.at)


class Py(object):
    """a stand-in implemented by the rule"""
    def __init__(self, fn):
        self.fn = fn


class Meth(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Bound(object):
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Ext(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Bi(object):
    def __init__(self, name):
        self.name = name


class Clo(object):
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class Sup(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Cmp(object):
    """a comparison that depends on input bits"""
    def __init__(self, op, a, b, neg=False):
        self.op, self.a, self.b, self.neg = op, a, b, neg

    def __repr__(self):
        return 'Cmp(%s%r %s %r)' % ('not ' if self.neg else '', self.a, self.op, self.b)


class H(object):
    def __init__(self, v):
        self.v = v


class NI(object):
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NI()


def descr(bits):
    """short rendering of a bit vector"""
    if all(isinstance(x, int) for x in bits):
        return hex(sum(x << i for i, x in enumerate(bits)))
    out = []
    i = 0
    bits = list(bits)
    while i < len(bits):
        x = bits[i]
        if isinstance(x, int):
            j = i
            while j < len(bits) and isinstance(bits[j], int):
                j += 1
            out.append('%db' % (j - i))
            i = j
            continue
        j = i
        while j < len(bits) and isinstance(bits[j], tuple) and bits[j][0] == x[0] and bits[j][1] == x[1] + (j - i):
            j += 1
        out.append('%s.%d' % (x[0], x[1]) if j - i == 1 else '%s.%d-%d' % (x[0], x[1], x[1] + (j - i) - 1))
        i = j
    return ','.join(out[:12]) + (',..' if len(out) > 12 else '')


def atom_bits(name, start, n):
    return tuple((name, start + i) for i in range(n))


def sym_int(name, bits, signed=False):
    return N(atom_bits(name, 0, bits), signed)


def sym_bytes(name, n, mut=False):
    """byte i of the input is bits 8i.. of `name`"""
    return By([atom_bits(name, 8 * i, 8) for i in range(n)], mut)


def sym_hex(name, n):
    """n hexadecimal digits; digit i is bits 4i.. of `name`"""
    return T([('hx', atom_bits(name, 4 * i, 4)) for i in range(n)])


def sym_text(name):
    return T([('txt', name)])


def sym_chars(name, n):
    return T([('ch', atom_bits(name, 16 * i, 16)) for i in range(n)])


def const_bytes(v, mut=False):
    return By([tuple((x >> i) & 1 for i in range(8)) for x in bytearray(v)], mut)


def trim(b):
    b = list(b)
    while b and b[-1] == 0 and isinstance(b[-1], int):
        b.pop()
    return tuple(b)


def mk(b, signed=False):
    """N or a plain int"""
    if all(isinstance(x, int) for x in b):
        v = sum(x << i for i, x in enumerate(b))
        if signed and b and b[-1]:
            v -= 1 << len(b)
        return v
    if not signed:
        return N(trim(b))
    return N(b, True)


def bits_of(v, n=None):
    """unsigned bits of an integer value"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if v < 0:
            raise Unk('negative')
        b = tuple((v >> i) & 1 for i in range(max(v.bit_length(), 0)))
    elif isinstance(v, N):
        if v.signed:
            raise Unk('sign')
        b = v.b
    else:
        raise Unk('not an integer')
    if n is not None:
        if len(b) > n:
            raise Unk('wider than %d bits' % n)
        b = b + (0,) * (n - len(b))
    return b


def isint(v):
    return isinstance(v, (int, N))


CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(f):
    import re
    if isinstance(f, By):
        f = ''.join(chr(sum(b << i for i, b in enumerate(x))) for x in f.fixed())
    if not isinstance(f, str):
        raise Unk('format')
    f = f.replace(' ', '')
    order = '<'
    native = True
    if f[:1] in '<>=!@':
        order = {'>': '>', '!': '>'}.get(f[0], '<')
        native = f[0] == '@'
        f = f[1:]
    out = []
    pos = 0
    for m in re.finditer(r'(\d*)([a-zA-Z?])', f):
        if m.start() != pos:
            raise Unk('format %r' % f)
        pos = m.end()
        n, ch = m.groups()
        if ch == 's':
            out.append(('s', int(n) if n else 1))
        elif ch == 'x':
            out.append(('x', int(n) if n else 1))
        elif ch in CODES:
            if native and ch in 'lL':
                ch = 'q' if ch == 'l' else 'Q'      # 8 bytes on this platform
            out += [(ch, 1)] * (int(n) if n else 1)
        else:
            raise Unk('format code %s' % ch)
    if pos != len(f):
        raise Unk('format %r' % f)
    if native and len(set(CODES[ch][0] for ch, n in out if ch in CODES)) > 1:
        raise Unk('native alignment')
    return order, out


def fmt_size(fields):
    return sum(n if ch in 'sx' else CODES[ch][0] for ch, n in fields)


class Path(object):
    def __init__(self, ret, exc, bind, neq, fuzzy, extra):
        self.ret, self.exc, self.bind, self.neq, self.fuzzy, self.extra = ret, exc, bind, neq, fuzzy, extra


class Machine(object):
    MAXSTEPS = 60000

    def __init__(self, prog, stubs=None):
        self.prog = prog
        self.stubs = stubs or {}
        self.funcs = set()
        self.consts = {}
        self.reset(())

    def reset(self, decisions):
        self.dec, self.pos = list(decisions), 0
        self.bind, self.neq, self.memo_cmp = {}, [], {}
        self.fuzzy = False
        self.steps = 0
        self.fresh = 0
        self.mixed = 0
        self.opq = {}
        self.free = set()
        self.negs = []
        self.kept = []
        self.depth = 0

    def explore(self, fn, limit=400, unk=None):
        """fn(machine) -> value, once per way its tests can go"""
        out = []
        todo = [()]
        while todo:
            d = todo.pop()
            self.reset(d)
            try:
                try:
                    r, ex = fn(self), None
                except AbsRaise as e:
                    r, ex = None, e.name
                except Unk as e:
                    if unk is None:
                        raise
                    unk.append(str(e))
                    self.fuzzy = True
                    r, ex = None, '?'
                out.append(Path(r, ex, dict(self.bind), list(self.neq), self.fuzzy, None))
            except Infeasible:
                pass
            except RecursionError:
                raise Unk('recursion')
            for i in range(len(d), len(self.dec)):
                todo.append(tuple(self.dec[:i]) + (not self.dec[i],))
            if len(out) + len(todo) > limit:
                raise Unk('too many paths')
        return out

    # -- decisions ----------------------------------------------------------------------
    def choose(self):
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.dec.append(v)
        self.pos += 1
        return v

    def res(self, b):
        while isinstance(b, tuple) and b in self.bind:
            b = self.bind[b]
        return b

    def resb(self, bits):
        return tuple(self.res(x) for x in bits)

    def assume_eq(self, pairs):
        """pairs of bits to be equal -> True/False/None; a fork records what was assumed"""
        need = []
        seen = {}

        def find(x):
            x = self.res(x)
            while isinstance(x, tuple) and x in seen:
                x = seen[x]
            return x
        for a, b in pairs:
            a, b = find(a), find(b)
            if a == b:
                continue
            if isinstance(a, int) and isinstance(b, int):
                return False
            if isinstance(a, int):
                a, b = b, a
            seen[a] = b
            need.append((a, b))
        if not need:
            return True
        if any(isinstance(x, tuple) and x[0][:1] == '?' for q in need for x in q):
            self.fuzzy = True
        for nq in self.neq:
            if all(find(x) == find(y) for x, y in nq):
                return False
        if self.choose():
            self.bind.update(seen)
            return True
        self.neq.append(need)
        if len(need) == 1 and isinstance(need[0][1], int):
            self.bind[need[0][0]] = 1 - need[0][1]
            for nq in self.neq[:-1]:
                if all(self.res(x) == self.res(y) for x, y in nq):
                    raise Infeasible()
        return False

    def eq(self, a, b):
        """equality: True / False / Cmp"""
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, N):
            a = int(a)
        if isinstance(b, bool) and isinstance(a, N):
            b = int(b)
        if isint(a) and isint(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            pr = self.pairs_int(a, b)
            if pr is None:
                return False
            return self.cmp_pairs('==', a, b, pr)
        if isinstance(a, By) and isinstance(b, By):
            if a.key() == b.key():
                return True
            if any(len(x) == 3 for x in a.v + b.v):
                raise Unk('comparison of bytes of unknown length')
            if len(a.v) != len(b.v):
                return False
            for p, q in zip(a.v, b.v):
                if p != q and type(p[0]) is type(p[7]) is type(q[0]) is type(q[7]) is int:
                    for x, y in zip(p, q):
                        if type(x) is int and type(y) is int and x != y:
                            return False
            return self.cmp_pairs('==', a, b, [(x, y) for p, q in zip(a.v, b.v) for x, y in zip(p, q)])
        if isinstance(a, T) or isinstance(b, T):
            return self.eq_text(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, D) and isinstance(b, D):
            if len(a.p) != len(b.p):
                return False
            for k, v in a.p:
                r = self.dget(b, k)
                if r is None or not self.truth(self.eq(v, r[1])):
                    return False
            return True
        if type(a) is Obj and type(b) is Obj and a.cls is b.cls and 'decorators' in self.stubs and len(a.at) == len(b.at) == 1 and 'bytes_le' in a.at and 'bytes_le' in b.at:
            return self.eq_ident(a, b)
        return self.eq_other(a, b)

    def eq_ident(self, a, b):
        """identifiers of the same class: what the package's comparison says is kept for known bytes"""
        x, y = a.at['bytes_le'], b.at['bytes_le']
        if not isinstance(x, By) or not isinstance(y, By):
            return self.eq_other(a, b)
        k = (a.cls, tuple(x.v), tuple(y.v))
        memo = self.__dict__.setdefault('ident_memo', {})
        r = memo.get(k)
        if r is None:
            n = self.pos
            r = self.eq_other(a, b)
            if type(r) is bool and n == self.pos and all(i in (0, 1) for v in (x.v, y.v) for c in v for i in c):
                memo[k] = r
        return r

    def eq_other(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not isinstance(x.cls, str):
                f = x.cls.method('__eq__')
                if f is not None:
                    r = self.call_func(f, [x, y], {})
                    if r is not NOTIMPL:
                        return r
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls == b.cls == 'uuid.UUID':
                return self.eq(a.at['be'], b.at['be'])
            if isinstance(a.cls, str) and isinstance(b.cls, str) and a.cls != b.cls:
                return False
            raise Unk('comparison of objects')
        if type(a) in (int, str, bool, type(None)) and type(b) in (int, str, bool, type(None)):
            return a == b
        if isinstance(a, (str, int, N, T, By, Obj, D, list, tuple, type(None))) and isinstance(b, (str, int, N, T, By, Obj, D, list, tuple, type(None))):
            return False
        raise Unk('comparison')

    def pairs_int(self, a, b):
        def bv(x):
            if isinstance(x, int):
                return None
            return x
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            k = self.negated(a)
            if k is not None:
                return self.pairs_int(mk(k, True), -b)
            if a.signed:
                w = len(a.b)
                if not -(1 << (w - 1)) <= b < (1 << (w - 1)):
                    return None
                b &= (1 << w) - 1
            elif b < 0 or b >> len(a.b):
                return None
            return [(x, (b >> i) & 1) for i, x in enumerate(a.b)]
        n = max(len(a.b), len(b.b))

        def ext(v):
            fill = v.b[-1] if v.signed else 0
            return v.b + (fill,) * (n + 1 - len(v.b))
        return list(zip(ext(a), ext(b)))

    def cmp_pairs(self, op, a, b, pairs):
        for x, y in pairs:
            if type(x) is int and type(y) is int and x != y:
                return False
        pr = [(self.res(x), self.res(y)) for x, y in pairs]
        if all(x == y for x, y in pr):
            return True
        if any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in pr):
            return False
        return Cmp(op, a, b)

    def eq_text(self, a, b):
        if a == b if isinstance(a, str) and isinstance(b, str) else False:
            return True
        if not isinstance(a, (str, T)) or not isinstance(b, (str, T)):
            return False
        x, y = chars(a), chars(b)
        if tuple(x) == tuple(y):
            return True
        if any(isinstance(q, tuple) and q[0] in ('txt', 'vx') for q in x + y):
            raise Unk('comparison of text')
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if isinstance(p, str) and isinstance(q, str):
                if p != q:
                    return False
        raise Unk('comparison of text')

    def truth(self, v):
        if isinstance(v, Cmp):
            r = self._truth_cmp(v)
            return (not r) if v.neg else r
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, Fraction)):
            return bool(v)
        if isinstance(v, N):
            e = self.eq(v, 0)
            return not self.truth(e)
        if isinstance(v, By):
            if any(len(x) == 3 for x in v.v):
                if any(len(x) == 8 for x in v.v):
                    return True
                raise Unk('truth of bytes of unknown length')
            return bool(v.v)
        if isinstance(v, (list, tuple)):
            return bool(v)
        if isinstance(v, (D, S)):
            return bool(v.p)
        if isinstance(v, T):
            if any(x for x in v.v if isinstance(x, str) or x[0] != 'txt'):
                return True
            raise Unk('truth of text')
        if isinstance(v, Obj):
            if isinstance(v.cls, str):
                return self.truth(self.call(v.at['__bool__'], [], {})) if '__bool__' in v.at else True
            for n in ('__bool__', '__nonzero__', '__len__'):
                f = v.cls.method(n)
                if f is not None:
                    return self.truth(self.call_func(f, [v], {}))
            return True
        if isinstance(v, (Func, Class, Ext, Bi, Bound, Py, Clo)):
            return True
        raise Unk('truth')

    def _truth_cmp(self, v):
        if v.op == '==':
            if isinstance(v.a, By):
                pr = [(x, y) for p, q in zip(v.a.v, v.b.v) for x, y in zip(p, q)]
            else:
                pr = self.pairs_int(v.a, v.b)
                if pr is None:
                    return False
            return self.assume_eq(pr)
        if v.op == 'sign':
            return self.assume_eq([(v.a, 1)])
        if v.op in ('>', '<='):
            return self._truth_cmp(Cmp('<', v.b, v.a)) == (v.op == '>')
        if v.op == '>=':
            return not self._truth_cmp(Cmp('<', v.a, v.b))
        k = repr((v.op, v.a, v.b))
        if k not in self.memo_cmp:
            free = v.op == '<' and self.independent(v.a, v.b)
            if v.op != 'valid' and not free:
                self.fuzzy = True
            self.memo_cmp[k] = self.choose()
            if free and self.memo_cmp[k]:
                self.free.add(len(self.neq))
                self.neq.append(list(zip(self.resb(v.a.b), self.resb(v.b.b))))
        return self.memo_cmp[k]

    def less(self, op, a, b):
        """ordering of two integers"""
        if isinstance(a, int) and isinstance(b, int):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isint(a) and isint(b):
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if op in ('<', '>='):
                if ha < lb:
                    return op == '<'
                if la >= hb:
                    return op == '>='
            else:
                if ha <= lb:
                    return op == '<='
                if la > hb:
                    return op == '>'
            if isinstance(a, N) and a.signed and b == 0 and op in ('<', '>='):
                return Cmp('sign', a.b[-1], None, op == '>=')
            if isinstance(a, N) and not a.signed and isinstance(b, int) and op in ('<', '>=') and b == 1 << (len(a.b) - 1):
                return Cmp('sign', a.b[-1], None, op == '<')
            if isinstance(a, N) and not a.signed and isinstance(b, int) and op in ('<=', '>') and b == (1 << (len(a.b) - 1)) - 1:
                return Cmp('sign', a.b[-1], None, op == '<=')
            return Cmp(op, a, b)
        if isinstance(a, By) and isinstance(b, By):
            return Cmp(op, a, b)
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            if isinstance(x, Obj) and not isinstance(x.cls, str):
                f = x.cls.method({'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o])
                if f is not None:
                    r = self.call_func(f, [x, y], {})
                    if r is not NOTIMPL:
                        return r
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        raise Unk('ordering')

    def lt(self, a, b):
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.lt(x, y)
            return len(a) < len(b)
        return self.less('<', a, b)

    def sort(self, v, key=None, rev=False):
        ks = [(self.call(key, [x], {}) if key is not None else x, x) for x in v]
        out = []
        for k, x in ks:
            i = len(out)
            while i and self.truth(self.lt(out[i - 1][0], k) if rev else self.lt(k, out[i - 1][0])):
                i -= 1
            out.insert(i, (k, x))
        return [x for k, x in out]

    def independent(self, a, b):
        """any order of the two is possible"""
        if not isinstance(a, N) or not isinstance(b, N) or a.signed != b.signed or len(a.b) != len(b.b):
            return False
        x = list(self.resb(a.b) + self.resb(b.b))
        if not all(isinstance(q, tuple) and q[0][:1] != '?' for q in x) or len(set(x)) != len(x):
            return False
        return not any(q in x for i, nq in enumerate(self.neq) if i not in self.free for p in nq for q in p)

    def rng(self, v):
        if isinstance(v, int):
            return v, v
        k = self.negated(v)
        if k is not None:
            lo, hi = self.rng(mk(k, True))
            return -hi, -lo
        b = self.resb(v.b)
        lo = sum(x << i for i, x in enumerate(b) if isinstance(x, int))
        hi = sum((x if isinstance(x, int) else 1) << i for i, x in enumerate(b))
        if v.signed:
            w = len(b)
            if b[-1] == 1 and isinstance(b[-1], int):
                return lo - (1 << w), hi - (1 << w)
            if b[-1] == 0 and isinstance(b[-1], int):
                return lo, hi
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return lo, hi

    # -- integer arithmetic ---------------------------------------------------------------
    def binop(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b, '<<': lambda: a << b,
                        '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '**': lambda: a ** b}[op]()
            except KeyError:
                raise Unk('operator %s' % op)
            except ZeroDivisionError:
                raise AbsRaise('ZeroDivisionError')
        if isint(a) and isint(b):
            return self.intop(op, a, b)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return self.fraction(op, a, b)
        if op == '%' and isinstance(a, (str, T)):
            return self.percent(a, b)
        if op == '%' and isinstance(a, By) and all(len(x) == 8 and all(isinstance(q, int) for q in x) for x in a.v):
            t = self.percent(''.join(chr(sum(q << i for i, q in enumerate(x))) for x in a.v), b)
            return self.method(t, 'encode', ['ascii'], {})
        if op == '+':
            if isinstance(a, (str, T)) and isinstance(b, (str, T)):
                return text(chars(a) + chars(b))
            if isinstance(a, By) and isinstance(b, By):
                return By(a.v + b.v, a.mut)
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == '*':
            if isinstance(b, (By, list, tuple, str)):
                a, b = b, a
            if isinstance(b, int):
                if isinstance(a, By):
                    return By(a.v * b, a.mut)
                if isinstance(a, (list, tuple, str)):
                    return a * b
        raise Unk('operator %s' % op)

    def fraction(self, op, a, b):
        """known floating point numbers, taken as exact"""
        if not all(isinstance(x, (int, Fraction)) for x in (a, b)) or op not in ('+', '-', '*', '/', '//', '%'):
            raise Unk('operator %s' % op)
        if op in ('/', '//', '%') and b == 0:
            raise AbsRaise('ZeroDivisionError')
        return Fraction({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: Fraction(a) / b, '//': lambda: a // b, '%': lambda: a % b}[op]())

    def neg(self, v):
        if isinstance(v, int):
            return -v
        b = v.b if v.signed else v.b + (0,)
        x = self.negated(v)
        if x is not None:
            return mk(x, True)
        if b not in self.negs:
            self.negs.append(b)
        k = self.negs.index(b)
        return N(tuple(('?neg%d' % k, i) for i in range(len(b) + 1)), True)

    def negated(self, v):
        if isinstance(v, N):
            for k, x in enumerate(self.negs):
                if v.b == tuple(('?neg%d' % k, i) for i in range(len(x) + 1)):
                    return x
        return None

    def opaque(self, what, *vals):
        """a number that is no selection of input bits"""
        k = repr((what,) + vals)
        n = self.opq.setdefault(k, len(self.opq))
        return N(tuple(('?%s%d' % (what, n), i) for i in range(64)), True)

    def is_opaque(self, v):
        return isinstance(v, N) and any(isinstance(x, tuple) and x[0][:1] == '?' for x in v.b)

    def intop(self, op, a, b):
        if op in ('//', '*', '%', '-') and (self.is_opaque(a) or self.is_opaque(b)) and b != 1:
            return self.opaque('arith', op, a, b)
        if op == '**' or op == '-' and not (isinstance(b, int) and b == 0):
            if op == '-' and isinstance(a, N) and not a.signed and isinstance(b, int) and b == 1 << len(a.b) and len(a.b):
                if self.res(a.b[-1]) == 1 and isinstance(self.res(a.b[-1]), int):
                    return N(a.b, True)
            if op == '-' and isinstance(a, N) and isinstance(b, N) and a.signed == b.signed:
                # a - (a & mask), disjointness by subset
                if not a.signed and all(y == x or y == 0 and isinstance(y, int) for x, y in zip(a.b, b.b + (0,) * (len(a.b) - len(b.b)))) and len(b.b) <= len(a.b):
                    return mk(tuple(0 if x == y else x for x, y in zip(a.b, b.b + (0,) * (len(a.b) - len(b.b)))))
            raise Unk('arithmetic')
        if op in ('<<', '>>'):
            if not isinstance(b, int) or b < 0:
                raise Unk('shift')
            if a.signed:
                if op == '>>':
                    w = len(a.b)
                    return N(a.b[b:] or (a.b[-1],), True)
                raise Unk('shift of a signed value')
            return mk((0,) * b + a.b) if op == '<<' else mk(a.b[b:])
        if op == '&':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0:
                if a.signed:
                    full = a.b + (a.b[-1],) * max(0, b.bit_length() - len(a.b))
                else:
                    full = a.b
                return mk(tuple(x if (b >> i) & 1 else 0 for i, x in enumerate(full)))
            raise Unk('and')
        if op in ('+', '|', '^'):
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
            if op == '+':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, N) and x.signed and isinstance(y, int) and y == 1 << len(x.b):
                        if self.res(x.b[-1]) == 1 and isinstance(self.res(x.b[-1]), int):
                            return mk(x.b)
            x, y = bits_of(a), bits_of(b)
            n = max(len(x), len(y))
            x, y = x + (0,) * (n - len(x)), y + (0,) * (n - len(y))
            out = []
            for p, q in zip(x, y):
                p, q = self.res(p), self.res(q)
                if isinstance(p, int) and p == 0:
                    out.append(q)
                elif isinstance(q, int) and q == 0:
                    out.append(p)
                elif op == '|' and p == q:
                    out.append(p)
                elif op == '|' and 1 in (p, q):
                    out.append(1)
                elif op == '^':
                    raise Unk('overlapping bits')
                else:
                    # two different input bits in one place: no selection of input bits any more
                    self.mixed += 1
                    if op == '|':
                        out.append(('mixed%d' % self.mixed, 0))
                        continue
                    if x == y:
                        return mk((0,) + x)
                    out += [('mixed%d' % self.mixed, i) for i in range(n - len(out) + 1)]
                    break
            return mk(out)
        if op == '*':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 1:
                return a
            if isinstance(b, int) and b == 0:
                return 0
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                return self.intop('<<', a, b.bit_length() - 1)
            raise Unk('product')
        if op in ('//', '%'):
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and isinstance(a, N) and not a.signed:
                k = b.bit_length() - 1
                return mk(a.b[k:]) if op == '//' else mk(a.b[:k])
            raise Unk('division')
        raise Unk('operator %s' % op)

    # -- formatting -------------------------------------------------------------------------
    def hexdigits(self, v, width, pad, upper=False):
        if isinstance(v, int):
            return list(('%X' if upper else '%x') % v if not width else (('%0*X' if upper else '%0*x') % (width, v) if pad else '%*x' % (width, v)))
        b = bits_of(v)
        n = (len(b) + 3) // 4
        if not (width and pad) or n > width:
            return [('vx', b)]
        b = b + (0,) * (4 * width - len(b))
        out = []
        for i in range(width - 1, -1, -1):
            d = self.resb(b[4 * i:4 * i + 4])
            out.append(digit(d))
        return out

    def percent(self, f, args):
        import re
        if not isinstance(f, str):
            raise Unk('format text')
        args = list(args) if isinstance(args, tuple) else [args]
        out = []
        pos = 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-0# +]*)(\d*|\*)(?:\.(\d+))?([a-zA-Z%])', f):
            out += list(f[pos:m.start()])
            pos = m.end()
            name, flags, width, prec, conv = m.groups()
            if conv == '%':
                out.append('%')
                continue
            if name:
                a = self.dget(args[0], name)[1]
            else:
                if width == '*':
                    width = str(args.pop(0))
                if not args:
                    raise AbsRaise('TypeError')
                a = args.pop(0)
            out += self.field(a, conv, int(width) if width else 0, '0' in flags)
        out += list(f[pos:])
        return text(out)

    def field(self, a, conv, width, pad):
        if conv in 'xX':
            return self.hexdigits(a, width, pad, conv == 'X')
        if conv in 'di' and isinstance(a, int):
            return list('%0*d' % (width, a) if pad else '%*d' % (width, a))
        if conv in 'sr':
            s = self.to_str(a)
            if width:
                if not isinstance(s, str):
                    raise Unk('padding')
                s = '%*s' % (width, s)
            return chars(s)
        raise Unk('conversion %s' % conv)

    def to_str(self, a):
        if isinstance(a, (str, T)):
            return a
        if isinstance(a, (int, type(None))):
            return str(a)
        if isinstance(a, Obj):
            if a.cls == 'uuid.UUID':
                h = chars(self.hex_text(a.at['be']))
                return text(h[:8] + ['-'] + h[8:12] + ['-'] + h[12:16] + ['-'] + h[16:20] + ['-'] + h[20:])
            if not isinstance(a.cls, str):
                for n in ('__str__', '__repr__'):
                    f = a.cls.method(n)
                    if f is not None:
                        return self.call_func(f, [a], {})
        return text(['?'])

    def hex_text(self, b):
        out = []
        for x in b.fixed():
            x = self.resb(x)
            out += [digit(x[4:]), digit(x[:4])]
        return text(out)

    def from_hex(self, t, exc='ValueError'):
        """text of hexadecimal digits -> bits of each digit"""
        out = []
        for x in chars(t):
            if isinstance(x, str):
                if x not in '0123456789abcdefABCDEF':
                    raise AbsRaise(exc)
                v = int(x, 16)
                out.append(tuple((v >> i) & 1 for i in range(4)))
            elif x[0] == 'hx':
                out.append(x[1])
            else:
                raise Unk('text')
        return out

    def hex_int(self, t):
        ds = self.from_hex(t)
        if not ds:
            raise AbsRaise('ValueError')
        bits = ()
        for d in reversed(ds):
            bits += d
        return mk(bits)

    def hex_bytes(self, t, mut=False):
        ds = self.from_hex(text([x for x in chars(t) if x != ' ']))
        if len(ds) % 2:
            raise AbsRaise('ValueError')
        return By([ds[i + 1] + ds[i] for i in range(0, len(ds), 2)], mut)

    # -- struct ------------------------------------------------------------------------------
    def unpack(self, f, data, offset=0, exact=True):
        order, fields = parse_fmt(f)
        v = data.fixed()
        n = fmt_size(fields)
        if offset < 0:
            offset += len(v)
        if exact and len(v) != n or offset + n > len(v):
            raise AbsRaise('error')
        out = []
        for ch, k in fields:
            if ch in 'sx':
                if ch == 's':
                    out.append(By(v[offset:offset + k]))
                offset += k
                continue
            w, sg = CODES[ch]
            bs = v[offset:offset + w]
            offset += w
            if order == '>':
                bs = bs[::-1]
            out.append(mk(sum(bs, ()), sg))
        return tuple(out)

    def pack(self, f, vals):
        order, fields = parse_fmt(f)
        vals = list(vals)
        out = []
        for ch, k in fields:
            if ch == 'x':
                out += [(0,) * 8] * k
                continue
            if not vals:
                raise AbsRaise('error')
            a = vals.pop(0)
            if ch == 's':
                b = a.fixed()[:k]
                out += b + [(0,) * 8] * (k - len(b))
                continue
            w, sg = CODES[ch]
            out += self.int_bytes(a, w, sg, order)
        if vals:
            raise AbsRaise('error')
        return By(out)

    def int_bytes(self, a, w, signed, order, exc='error'):
        n = 8 * w
        if isinstance(a, bool):
            a = int(a)
        if not isint(a):
            if isinstance(a, (str, T, type(None), By, D, list, tuple)):
                raise AbsRaise(exc)
            raise Unk('not an integer')
        lo, hi = self.rng(a)
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if hi < mn or lo > mx:
            raise AbsRaise(exc)
        if hi == mx + 1 and self.negated(a) is not None:
            hi = mx         # the one number without a negative of its width
        if lo < mn or hi > mx:
            if isinstance(a, N):
                ab = self.resb(a.b)
                if not a.signed:
                    pr = [(x, 0) for x in ab[n - 1 if signed else n:]]
                elif self.assume_eq([(ab[-1], 0)]):
                    pr = [(x, 0) for x in ab[n - 1 if signed else n:]]
                elif not signed:
                    raise AbsRaise(exc)
                else:
                    pr = [(x, 1) for x in ab[n - 1:]]
                if not self.assume_eq(pr):
                    raise AbsRaise(exc)
        if isinstance(a, int):
            a &= (1 << n) - 1
            b = tuple((a >> i) & 1 for i in range(n))
        else:
            fill = a.b[-1] if a.signed else 0
            b = (a.b + (fill,) * n)[:n]
        bs = [b[i:i + 8] for i in range(0, n, 8)]
        return bs if order == '<' else bs[::-1]

    # -- containers ------------------------------------------------------------------------------
    def dget(self, d, k):
        for p in d.p:
            if self.truth(self.eq(p[0], k)):
                return p
        return None

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, By):
            return [mk(x) for x in v.fixed()]
        if isinstance(v, (str, T)):
            cs = chars(v)
            if any(isinstance(x, tuple) and x[0] in ('txt', 'vx') for x in cs):
                raise Unk('text of unknown length')
            return [text([x]) for x in cs]
        if isinstance(v, D):
            return [p[0] for p in v.p]
        if isinstance(v, S):
            return list(v.p)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            f = v.cls.method('__iter__')
            if f is not None:
                return self.iterate(self.call_func(f, [v], {}))
        if isinstance(v, Obj) and 'iter' in v.at:
            it = v.at['iter']
            return self.iterate(self.call(it, [], {}) if isinstance(it, Py) else it)
        if v is None or isinstance(v, (int, N, bool)):
            raise AbsRaise('TypeError')
        raise Unk('iteration')

    def index(self, v, i):
        if isinstance(v, D):
            p = self.dget(v, i)
            if p is None:
                raise AbsRaise('KeyError')
            return p[1]
        if isinstance(v, Obj):
            if not isinstance(v.cls, str):
                f = v.cls.method('__getitem__')
                if '__getitem__' in v.at:
                    return self.call(v.at['__getitem__'], [i], {})
                if f is not None:
                    return self.call_func(f, [v, i], {})
            elif '__getitem__' in v.at:
                return self.call(v.at['__getitem__'], [i], {})
            raise Unk('subscript')
        if isinstance(i, N):
            raise Unk('subscript by an input')
        if isinstance(v, By):
            if isinstance(i, slice):
                if v.v and any(len(x) == 3 for x in v.v):
                    return By(blob_slice(v.v, i), v.mut)
                return By(v.v[i], v.mut)
            if any(len(x) == 3 for x in v.v[:i + 1] if i >= 0):
                raise Unk('bytes of unknown length')
            try:
                return mk(v.fixed()[i] if i < 0 else v.v[i])
            except IndexError:
                raise AbsRaise('IndexError')
        if isinstance(v, (str, T)):
            cs = chars(v)
            if any(isinstance(x, tuple) and x[0] in ('txt', 'vx') for x in cs):
                raise Unk('text of unknown length')
            try:
                return text(cs[i] if isinstance(i, slice) else [cs[i]])
            except IndexError:
                raise AbsRaise('IndexError')
        if isinstance(v, (list, tuple, range)):
            try:
                r = v[i]
            except IndexError:
                raise AbsRaise('IndexError')
            except TypeError:
                raise AbsRaise('TypeError')
            return list(r) if isinstance(r, range) else r
        raise Unk('subscript')

    def set_index(self, v, i, x):
        if isinstance(v, Obj):
            if '__setitem__' in v.at:
                self.call(v.at['__setitem__'], [i, x], {})
                return
            if not isinstance(v.cls, str) and v.cls.method('__setitem__'):
                self.call_func(v.cls.method('__setitem__'), [v, i, x], {})
                return
            raise Unk('item assignment')
        if isinstance(v, D):
            p = self.dget(v, i)
            if p is None:
                v.p.append([i, x])
            else:
                p[1] = x
            return
        if isinstance(v, list):
            if isinstance(i, slice):
                v[i] = self.iterate(x)
            else:
                try:
                    v[i] = x
                except (IndexError, TypeError):
                    raise AbsRaise('IndexError')
            return
        if isinstance(v, By):
            if not v.mut:
                raise AbsRaise('TypeError')
            v.fixed()
            if isinstance(i, slice):
                new = x.fixed() if isinstance(x, By) else [bits_of(y, 8) for y in self.iterate(x)]
                if i.step not in (None, 1) and len(v.v[i]) != len(new):
                    raise AbsRaise('ValueError')
                v.v[i] = new
            else:
                if not isint(x):
                    raise AbsRaise('TypeError')
                b = bits_of(x)
                if len(b) > 8:
                    if isinstance(x, int):
                        raise AbsRaise('ValueError')
                    raise Unk('value wider than a byte')
                try:
                    v.v[i] = bits_of(x, 8)
                except IndexError:
                    raise AbsRaise('IndexError')
            return
        if isinstance(v, Obj) and not isinstance(v.cls, str) and v.cls.method('__setitem__'):
            self.call_func(v.cls.method('__setitem__'), [v, i, x], {})
            return
        raise Unk('item assignment')

    # -- attributes -------------------------------------------------------------------------------
    def getattr(self, o, name):
        if isinstance(o, Module):
            if name == '__dict__':
                return D([(n, self.resolved(('const', o, n), n)) for n in o.consts])
            return self.resolved(self.prog.resolve_name(o, name), name)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, Obj):
            if name in o.at:
                return o.at[name]
            if name == '__class__':
                return o.cls if not isinstance(o.cls, str) else Ext(o.cls)
            if isinstance(o.cls, str):
                if '__getattr__' in o.at:
                    return self.call(o.at['__getattr__'], [name], {})
                return self.obj_attr(o, name)
            g = o.cls.getter(name)
            if g is not None:
                return self.call_func(g, [o], {})
            m = o.cls.method(name)
            if m is not None:
                if m.kind == 'static':
                    return m
                if m.kind == 'classmethod':
                    return Bound(m, o.cls)
                return Bound(m, o)
            a = o.cls.attr(name)
            if a is not None:
                return self.class_attr(o.cls, name)
            if name in ('numerator', 'denominator') and '_' + name in o.at and self.has_ext_base(o.cls, 'fractions.Fraction'):
                return o.at['_' + name]
            if o.cls.method('__getattr__') is not None:
                return self.call_func(o.cls.method('__getattr__'), [o, name], {})
            if self.lacks(o, name):
                raise AbsRaise('AttributeError')
            raise Unk('attribute %s' % name)
        if isinstance(o, Class):
            m = o.method(name)
            if m is not None:
                return Bound(m, o) if m.kind == 'classmethod' else m
            if name == '__name__':
                return o.name
            if name == '__module__':
                return 'aaf2.' + o.module.name
            if o.attr(name) is not None:
                return self.class_attr(o, name)
            if name == '__new__':
                return Py(lambda m_, a, k: Obj(a[0]))
            raise Unk('attribute %s' % name)
        if isinstance(o, Sup):
            mro = (o.obj if isinstance(o.obj, Class) else o.obj.cls).mro()
            i = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[i:]:
                if name in c.methods:
                    f = c.methods[name]
                    return f if f.name == '__new__' or f.kind == 'static' else Bound(f, o.obj)
                if name in c.getters:
                    return self.call_func(c.getters[name], [o.obj], {})
            if name == '__new__':
                return Py(lambda m_, a, k: Obj(a[0]))
            if name == '__init__':
                return Py(lambda m_, a, k: None)
            raise Unk('super attribute %s' % name)
        if isint(o):
            if name in ('numerator', 'real'):
                return o
            if name == 'denominator':
                return 1
        return Meth(o, name)

    def lacks(self, o, name):
        """no class of this object can give it the attribute"""
        if name.startswith('__'):
            return False
        for c in o.cls.mro():
            if '__getattr__' in c.methods or '__getattribute__' in c.methods or '__slots__' in c.attrs and name in ast.dump(c.attrs['__slots__']):
                return False
            for b in c.base_exprs:
                r = self.prog.resolve_expr(c.module, b)
                if not isinstance(r, Class) and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return False
        stored = getattr(self.prog, 'stored_attrs', None)
        if stored is None:
            stored = set()
            for mod in self.prog.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        stored.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        stored.add('*')
            self.prog.stored_attrs = stored
        return name not in stored and '*' not in stored

    def has_ext_base(self, cls, *names):
        for c in cls.mro():
            for b in c.base_exprs:
                r = self.prog.resolve_expr(c.module, b)
                if isinstance(r, tuple) and r[0] == 'ext' and r[1] in names:
                    return True
        return False

    def class_attr(self, cls, name):
        for c in cls.mro():
            if name in c.attrs:
                k = (c.module.name, c.name, name)
                if k not in self.consts:
                    self.consts[k] = self.expr(c.attrs[name], {'__class__': c}, c.module)
                return self.consts[k]
        raise Unk('attribute %s' % name)

    UUID_ATTRS = {'time_low': (0, 4), 'time_mid': (4, 6), 'time_hi_version': (6, 8), 'clock_seq_hi_variant': (8, 9), 'clock_seq_low': (9, 10), 'node': (10, 16)}
    PERM = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))

    def obj_attr(self, o, name):
        if o.cls == 'uuid.UUID':
            be = o.at['be']
            if name == 'bytes':
                return By(be.v)
            if name == 'bytes_le':
                return By([be.v[i] for i in self.PERM])
            if name == 'int':
                return mk(sum(be.v[::-1], ()))
            if name == 'hex':
                return self.hex_text(be)
            if name == 'urn':
                return text(list('urn:uuid:') + chars(self.to_str(o)))
            if name in self.UUID_ATTRS:
                a, b = self.UUID_ATTRS[name]
                return mk(sum(be.v[a:b][::-1], ()))
            if name == 'fields':
                return tuple(self.obj_attr(o, n) for n in ('time_low', 'time_mid', 'time_hi_version', 'clock_seq_hi_variant', 'clock_seq_low', 'node'))
        if o.cls == 'datetime.datetime' and name in ('date', 'time'):
            if name == 'date':
                return Py(lambda m, a, k: Obj('datetime.date', dict((n, o.at[n]) for n in ('year', 'month', 'day'))))
            return Py(lambda m, a, k: Obj('datetime.time', dict((n, o.at[n]) for n in ('hour', 'minute', 'second', 'microsecond'))))
        if o.cls in self.DT and name == 'replace':
            def repl(m, a, k):
                d = dict(o.at)
                d.update(zip(self.DT[o.cls], a))
                d.update(k)
                return m.ext_call(o.cls, [], d)
            return Py(repl)
        if o.cls == 'struct.Struct':
            f = o.at['fmt']
            if name == 'size':
                return fmt_size(parse_fmt(f)[1])
            return Py(lambda m, a, k: m.ext_call('struct.' + name, [f] + list(a), k))
        if o.cls == 'io.BytesIO':
            return Py(lambda m, a, k: m.bio(o, name, a))
        raise Unk('attribute %s' % name)

    def bio(self, o, name, a):
        buf = o.at['buf']
        if name == 'read':
            n = a[0] if a else None
            v = buf.fixed()
            p = o.at['pos']
            e = len(v) if n is None or isinstance(n, int) and n < 0 else p + n
            r = v[p:e]
            o.at['pos'] = p + len(r)
            return By(r)
        if name == 'write':
            p = o.at['pos']
            if p != len(buf.v):
                buf.fixed()
            buf.v[p:p + len(a[0].v)] = a[0].v
            o.at['pos'] = p + len(a[0].v)
            return len(a[0].v)
        if name == 'seek' and len(a) == 1:
            o.at['pos'] = a[0]
            return a[0]
        if name == 'tell':
            return o.at['pos']
        if name in ('getvalue', 'getbuffer'):
            return By(buf.v)
        if name == 'close':
            return None
        raise Unk('BytesIO.%s' % name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if '__setattr__' in o.at:
                self.call(o.at['__setattr__'], [name, v], {})
                return
            if not isinstance(o.cls, str):
                s = o.cls.setter(name)
                if s is not None:
                    self.call_func(s, [o, v], {})
                    return
                if o.cls.getter(name) is not None:
                    raise AbsRaise('AttributeError')
            o.at[name] = v
            return
        raise Unk('attribute assignment')

    # -- names ---------------------------------------------------------------------------------------
    def lookup(self, name, env, module):
        e = env
        while e is not None:
            if name in e:
                return e[name]
            e = e.get('__outer__')
        if (module.name, name) in self.stubs:
            return self.stubs[(module.name, name)]
        r = self.prog.resolve_name(module, name)
        if r is None:
            if name == 'NotImplemented':
                return NOTIMPL
            if name in ('unicode', 'long', 'basestring'):
                return Bi({'unicode': 'str', 'long': 'int', 'basestring': 'str'}[name])
            if hasattr(builtins, name):
                return Bi(name)
            raise Unk('name %s' % name)
        return self.resolved(r, name)

    def resolved(self, r, name):
        if isinstance(r, (Func, Class, Module)):
            return r
        if isinstance(r, tuple) and r[0] == 'ext':
            return Ext(r[1])
        if isinstance(r, tuple) and r[0] == 'const':
            m, n = r[1], r[2]
            if n == 'unicode':
                return Bi('str')
            k = (m.name, n)
            if n in m.multi:
                raise Unk('global %s' % n)
            if k not in self.consts:
                self.consts[k] = self.expr(m.consts[n], {}, m)
            return self.consts[k]
        raise Unk('name %s' % name)

    def ext_attr(self, o, name):
        if o.name == 'sys' and name == 'version_info':
            return Obj('ver', {'major': 3, 'minor': 12, '__getitem__': Py(lambda m, a, k: m.index((3, 12, 0), a[0]))})
        if ('extattr', o.name + '.' + name) in self.stubs:
            return self.stubs['extattr', o.name + '.' + name]
        if o.name == 'sys' and name == 'byteorder':
            raise Unk('host byte order')
        return Ext(o.name + '.' + name)

    # -- calls -----------------------------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Py):
            return f.fn(self, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Bi):
            return self.builtin(f.name, list(args), kw)
        if isinstance(f, Ext):
            return self.ext_call(f.name, list(args), kw)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, list(args), kw)
        if isinstance(f, Clo):
            return self.call_node(f.node, f.module, args, kw, f.env)
        if isinstance(f, Obj) and f.cls == 'weakref.ref':
            return f.at['to']
        if isinstance(f, Obj) and isinstance(f.at.get('__call__'), Py):
            return f.at['__call__'].fn(self, args, kw)
        if isinstance(f, Obj) and not isinstance(f.cls, str) and f.cls.method('__call__'):
            return self.call_func(f.cls.method('__call__'), [f] + list(args), kw)
        raise Unk('call')

    def instantiate(self, cls, args, kw):
        if (cls.module.name, cls.name) in self.stubs:
            return self.call(self.stubs[(cls.module.name, cls.name)], list(args), kw)
        nf = cls.method('__new__')
        if nf is not None:
            o = self.call_func(nf, [cls] + list(args), kw)
        else:
            if any(self.exc_class(c.name) for c in cls.mro()) or any(isinstance(b, ast.Name) and self.exc_class(b.id) for c in cls.mro() for b in c.base_exprs):
                return Obj(cls, {'args': tuple(args)})
            o = Obj(cls)
        if isinstance(o, Obj) and o.cls is cls:
            f = cls.method('__init__')
            if f is not None:
                self.call_func(f, [o] + list(args), kw)
        return o

    def exc_class(self, name):
        c = getattr(builtins, name, None)
        return c if isinstance(c, type) and issubclass(c, BaseException) else None

    def call_func(self, f, args, kw):
        k = (f.module.name, f.name) if f.cls is None else (f.module.name, f.cls.name + '.' + f.name)
        if k in self.stubs:
            return self.call(self.stubs[k], list(args), kw)
        self.funcs.add(f.qual)
        if f.decorators and 'decorators' in self.stubs:
            w = self.decorated(f)
            if w is not None:
                return self.call(w, list(args), kw)
        return self.call_raw(f, args, kw)

    def call_raw(self, f, args, kw):
        env = {'__class__': f.cls}
        return self.call_node(f.node, f.module, args, kw, env if f.cls is not None else None)

    def decorated(self, f):
        """what the package's own decorators make of a function; None when it has none"""
        memo = self.__dict__.setdefault('decorated_', {})
        if f.node not in memo:
            w = None
            for d in reversed(f.decorators):
                if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                    continue
                t = d.func if isinstance(d, ast.Call) else d
                if isinstance(t, ast.Name):
                    r = self.prog.resolve_name(f.module, t.id)
                    if isinstance(r, Func):
                        dec = self.expr(d, {}, f.module)
                        w = self.call(dec, [w or Py(lambda m, a, k: m.call_raw(f, a, k))], {})
            memo[f.node] = w
        return memo[f.node]

    def call_node(self, node, module, args, kw, outer):
        self.depth += 1
        if self.depth > 40:
            raise Unk('recursion')
        try:
            env = {'__outer__': outer}
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            for n in names:
                if args:
                    env[n] = args.pop(0)
            if args:
                if a.vararg is None:
                    raise AbsRaise('TypeError')
                env[a.vararg.arg] = tuple(args)
            elif a.vararg is not None:
                env[a.vararg.arg] = ()
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    if k in env:
                        raise AbsRaise('TypeError')
                    env[k] = v
                elif a.kwarg is not None:
                    extra[k] = v
                else:
                    raise AbsRaise('TypeError')
            if a.kwarg is not None:
                env[a.kwarg.arg] = D(extra.items())
            defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for n, d in defs:
                if n not in env:
                    env[n] = self.expr(d, {'__outer__': outer}, module)
            for n in names:
                if n not in env:
                    raise AbsRaise('TypeError')
            if isinstance(node, ast.Lambda):
                return self.expr(node.body, env, module)
            gen = is_generator(node)
            if gen:
                env['__yield__'] = []
            try:
                self.block(node.body, env, module)
            except _Return as r:
                if not gen:
                    return r.v
            return env['__yield__'] if gen else None
        finally:
            self.depth -= 1

    # -- statements --------------------------------------------------------------------------------------
    def block(self, body, env, m):
        for s in body:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unk('too many steps')
        k = type(s)
        if k is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.do_yield(s.value, env, m)
                return
            self.expr(s.value, env, m)
        elif k is ast.Assign:
            v = self.expr(s.value, env, m)
            for t in s.targets:
                self.assign(t, v, env, m)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env, m), env, m)
        elif k is ast.AugAssign:
            t = s.target
            op = OPS[type(s.op)]
            if isinstance(t, ast.Name):
                old = self.lookup(t.id, env, m)
                self.assign(t, self.aug(op, old, self.expr(s.value, env, m)), env, m)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, env, m)
                old = self.getattr(o, t.attr)
                self.setattr(o, t.attr, self.aug(op, old, self.expr(s.value, env, m)))
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env, m)
                i = self.sub(t.slice, env, m)
                self.set_index(o, i, self.aug(op, self.index(o, i), self.expr(s.value, env, m)))
            else:
                raise Unk('target')
        elif k is ast.Return:
            raise _Return(None if s.value is None else self.expr(s.value, env, m))
        elif k is ast.If:
            self.block(s.body if self.truth(self.expr(s.test, env, m)) else s.orelse, env, m)
        elif k is ast.For:
            try:
                for x in self.iterate(self.expr(s.iter, env, m)):
                    self.steps += 1
                    self.assign(s.target, x, env, m)
                    try:
                        self.block(s.body, env, m)
                    except _Continue:
                        pass
                else:
                    self.block(s.orelse, env, m)
            except _Break:
                pass
        elif k is ast.While:
            try:
                while self.truth(self.expr(s.test, env, m)):
                    self.steps += 1
                    if self.steps > self.MAXSTEPS:
                        raise Unk('too many steps')
                    try:
                        self.block(s.body, env, m)
                    except _Continue:
                        pass
                else:
                    self.block(s.orelse, env, m)
            except _Break:
                pass
        elif k is ast.Break:
            raise _Break()
        elif k is ast.Continue:
            raise _Continue()
        elif k is ast.Pass or k in (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            if k is not ast.Pass:
                raise Unk('import in a function')
        elif k is ast.Assert:
            if not self.truth(self.expr(s.test, env, m)):
                raise AbsRaise('AssertionError')
        elif k is ast.Raise:
            if s.exc is None:
                cur = self.lookup('__exc__', env, m)
                raise AbsRaise(cur)
            raise AbsRaise(self.exc_name(s.exc, env, m))
        elif k is ast.Try:
            self.try_(s, env, m)
        elif k is ast.With:
            for it in s.items:
                v = self.expr(it.context_expr, env, m)
                if isinstance(v, Obj) and not isinstance(v.cls, str) and v.cls.method('__enter__'):
                    v = self.call_func(v.cls.method('__enter__'), [v], {})
                elif isinstance(v, Obj) and '__enter__' in v.at:
                    v = self.call(v.at['__enter__'], [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, m)
            self.block(s.body, env, m)
        elif k is ast.FunctionDef:
            env[s.name] = Clo(s, env, m)
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o = self.expr(t.value, env, m)
                    i = self.sub(t.slice, env, m)
                    if isinstance(o, (By, list)):
                        del (o.v if isinstance(o, By) else o)[i]
                    elif isinstance(o, Obj) and '__delitem__' in o.at:
                        self.call(o.at['__delitem__'], [i], {})
                    elif isinstance(o, D):
                        self.call(self.getattr(o, 'pop'), [i], {})
                    elif isinstance(o, Obj) and not isinstance(o.cls, str) and o.cls.method('__delitem__') is not None:
                        self.call_func(o.cls.method('__delitem__'), [o, i], {})
                    else:
                        raise Unk('del')
                else:
                    raise Unk('del')
        else:
            raise Unk('statement %s' % k.__name__)

    def exc_name(self, e, env, m):
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, ast.Name):
            if f.id in env and isinstance(env[f.id], str):
                return env[f.id]
            return f.id
        if isinstance(f, ast.Attribute):
            return f.attr
        raise Unk('raise')

    def try_(self, s, env, m):
        try:
            try:
                self.block(s.body, env, m)
            except AbsRaise as e:
                for h in s.handlers:
                    if self.catches(h.type, e.name, m):
                        env['__exc__'] = e.name
                        if h.name:
                            env[h.name] = Obj('exc', {'args': ()})
                        self.block(h.body, env, m)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, m)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, m)

    def catches(self, t, name, m):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.catches(x, name, m) for x in t.elts)
        want = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
        if want == name or want in ('Exception', 'BaseException'):
            return True
        a, b = self.exc_class(name), self.exc_class(want or '')
        if a and b:
            return issubclass(a, b)
        if self.prog.has_cls(name):
            c = self.prog.cls(name)
            if any(x.name == want for x in c.mro()):
                return True
            return any(isinstance(be, ast.Name) and (be.id == want or b and self.exc_class(be.id) and issubclass(self.exc_class(be.id), b)) for x in c.mro() for be in x.base_exprs)
        return False

    def aug(self, op, a, b):
        if op == '+' and isinstance(a, list):
            a.extend(self.iterate(b))
            return a
        if op == '+' and isinstance(a, By) and a.mut and isinstance(b, By):
            a.v.extend(b.v)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise AbsRaise('ValueError')
                vs = vs[:i] + [vs[i:len(vs) - after]] + vs[len(vs) - after:]
            if len(vs) != len(t.elts):
                raise AbsRaise('ValueError')
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, m)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env, m), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_index(self.expr(t.value, env, m), self.sub(t.slice, env, m), v)
        else:
            raise Unk('target')

    def do_yield(self, e, env, m):
        g = env
        while g is not None and '__yield__' not in g:
            g = g.get('__outer__')
        if g is None:
            raise Unk('yield')
        if isinstance(e, ast.YieldFrom):
            g['__yield__'].extend(self.iterate(self.expr(e.value, env, m)))
        else:
            g['__yield__'].append(None if e.value is None else self.expr(e.value, env, m))

    def sub(self, s, env, m):
        if isinstance(s, ast.Slice):
            def g(x):
                if x is None:
                    return None
                v = self.expr(x, env, m)
                if not (v is None or isinstance(v, int)):
                    raise Unk('slice bound')
                return v
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.expr(s, env, m)

    # -- expressions -------------------------------------------------------------------------------------
    def expr(self, e, env, m):
        k = type(e)
        if k is ast.Constant:
            v = e.value
            if isinstance(v, bytes):
                return const_bytes(v)
            if isinstance(v, (int, str, type(None))):
                return v
            raise Unk('constant')
        if k is ast.Name:
            return self.lookup(e.id, env, m)
        if k is ast.Attribute:
            return self.getattr(self.expr(e.value, env, m), e.attr)
        if k is ast.Subscript:
            return self.index(self.expr(e.value, env, m), self.sub(e.slice, env, m))
        if k is ast.BinOp:
            if type(e.op) not in OPS:
                raise Unk('operator')
            return self.binop(OPS[type(e.op)], self.expr(e.left, env, m), self.expr(e.right, env, m))
        if k is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                v = self.expr(e.operand, env, m)
                if isinstance(v, Cmp):
                    return Cmp(v.op, v.a, v.b, not v.neg)
                return not self.truth(v)
            v = self.expr(e.operand, env, m)
            if isinstance(v, int):
                return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(e.op)]()
            if isinstance(v, N) and type(e.op) in (ast.USub, ast.UAdd):
                return self.neg(v) if type(e.op) is ast.USub else v
            raise Unk('unary operator')
        if k is ast.BoolOp:
            v = None
            for i, x in enumerate(e.values):
                v = self.expr(x, env, m)
                if i == len(e.values) - 1:
                    return v
                t = self.truth(v)
                if isinstance(v, Cmp):
                    v = t
                if t != isinstance(e.op, ast.And):
                    return v
            return v
        if k is ast.Compare:
            left = self.expr(e.left, env, m)
            r = True
            for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
                right = self.expr(c, env, m)
                r = self.compare(op, left, right)
                if i < len(e.ops) - 1 and not self.truth(r):
                    return False
                left = right
            return r
        if k is ast.IfExp:
            return self.expr(e.body if self.truth(self.expr(e.test, env, m)) else e.orelse, env, m)
        if k in (ast.List, ast.Tuple, ast.Set):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.iterate(self.expr(x.value, env, m))
                else:
                    out.append(self.expr(x, env, m))
            return out if k is ast.List else tuple(out) if k is ast.Tuple else S(out)
        if k is ast.Dict:
            d = D()
            for a, b in zip(e.keys, e.values):
                if a is None:
                    for p in self.expr(b, env, m).p:
                        self.set_index(d, p[0], p[1])
                else:
                    self.set_index(d, self.expr(a, env, m), self.expr(b, env, m))
            return d
        if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            out = []
            self.comp(e.generators, 0, {'__outer__': env}, m, lambda en: out.append(self.expr(e.elt, en, m)))
            return S(out) if k is ast.SetComp else out
        if k is ast.DictComp:
            d = D()
            self.comp(e.generators, 0, {'__outer__': env}, m, lambda en: self.set_index(d, self.expr(e.key, en, m), self.expr(e.value, en, m)))
            return d
        if k is ast.Lambda:
            return Clo(e, env, m)
        if k is ast.JoinedStr:
            out = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    out += list(x.value)
                else:
                    v = self.expr(x.value, env, m)
                    spec = self.expr(x.format_spec, env, m) if x.format_spec is not None else ''
                    out += self.fmt_spec(v, spec)
            return text(out)
        if k is ast.Call:
            f = self.expr(e.func, env, m) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else Bi('super')
            if isinstance(f, Bi) and f.name == 'super':
                if e.args:
                    c, o = [self.expr(x, env, m) for x in e.args]
                else:
                    c = self.lookup('__class__', env, m)
                    o = env[sorted(env)[0]] if False else self.first_arg(env)
                return Sup(c, o)
            args = []
            for x in e.args:
                if isinstance(x, ast.Starred):
                    args += self.iterate(self.expr(x.value, env, m))
                else:
                    args.append(self.expr(x, env, m))
            kw = {}
            for x in e.keywords:
                v = self.expr(x.value, env, m)
                if x.arg is None:
                    if not isinstance(v, D):
                        raise Unk('**')
                    for a, b in v.p:
                        kw[a] = b
                else:
                    kw[x.arg] = v
            return self.call(f, args, kw)
        if k is ast.NamedExpr:
            v = self.expr(e.value, env, m)
            self.assign(e.target, v, env, m)
            return v
        raise Unk('expression %s' % k.__name__)

    def first_arg(self, env):
        for k in ('self', 'cls'):
            if k in env:
                return env[k]
        raise Unk('super')

    def comp(self, gens, i, env, m, emit):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        for x in self.iterate(self.expr(g.iter, env, m)):
            self.assign(g.target, x, env, m)
            if all(self.truth(self.expr(c, env, m)) for c in g.ifs):
                self.comp(gens, i + 1, env, m, emit)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            if isinstance(op, ast.Eq):
                return r
            return Cmp(r.op, r.a, r.b, not r.neg) if isinstance(r, Cmp) else not r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return self.less({ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)], a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, str) and isinstance(a, str):
                r = a in b
            elif isinstance(b, Obj) and '__contains__' in b.at:
                r = self.truth(self.call(b.at['__contains__'], [a], {}))
            elif isinstance(b, Obj) and not isinstance(b.cls, str) and b.cls.method('__contains__'):
                r = self.truth(self.call_func(b.cls.method('__contains__'), [b, a], {}))
            else:
                r = any(self.truth(self.eq(x, a)) for x in self.iterate(b))
            return r if isinstance(op, ast.In) else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, (Obj, Class, Func, NI)) or isinstance(b, (Obj, Class, Func, NI)):
                r = a is b
            else:
                raise Unk('identity')
            return r if isinstance(op, ast.Is) else not r
        raise Unk('comparison')

    def fmt_spec(self, v, spec):
        import re
        if spec == '':
            return chars(self.to_str(v))
        m_ = re.match(r'^(0?)(\d*)([xXds]?)$', spec) if isinstance(spec, str) else None
        if m_ is None:
            raise Unk('format spec')
        return self.field(v, m_.group(3) or 's', int(m_.group(2) or 0), bool(m_.group(1)))

    # -- library -------------------------------------------------------------------------------------------
    def to_bytes(self, a, mut):
        if not a:
            return By([], mut)
        x = a[0]
        if isinstance(x, By):
            return By(x.v, mut)
        if isinstance(x, bool):
            raise Unk('bytes of bool')
        if isinstance(x, int):
            return By([(0,) * 8] * x, mut)
        if isinstance(x, (list, tuple, S, range)):
            out = []
            for y in self.iterate(x):
                if not isint(y):
                    raise AbsRaise('TypeError')
                b = bits_of(y)
                if len(b) > 8:
                    if isinstance(y, int) or all(isinstance(q, int) for q in self.resb(b[8:])) and any(self.resb(b[8:])):
                        raise AbsRaise('ValueError')
                    raise Unk('value wider than a byte')
                out.append(bits_of(y, 8))
            return By(out, mut)
        if isinstance(x, (str, T)):
            if len(a) > 1:
                return self.method(x, 'encode', a[1:], {})
            raise AbsRaise('TypeError')
        if isinstance(x, Obj) and not isinstance(x.cls, str) and x.cls.method('__bytes__'):
            return self.call_func(x.cls.method('__bytes__'), [x], {})
        raise Unk('bytes()')

    def builtin(self, n, a, kw):
        if n in ('bytes', 'bytearray'):
            return self.to_bytes(a, n == 'bytearray')
        if n == 'memoryview':
            return a[0]
        if n == 'len':
            x = a[0]
            if isinstance(x, By):
                return len(x.fixed())
            if isinstance(x, (D, S)):
                return len(x.p)
            if isinstance(x, T):
                return len(self.iterate(x))
            if isinstance(x, (list, tuple, str, range)):
                return len(x)
            if isinstance(x, Obj) and not isinstance(x.cls, str) and x.cls.method('__len__'):
                return self.call_func(x.cls.method('__len__'), [x], {})
            if isinstance(x, Obj) and 'iter' in x.at:
                return len(self.iterate(x))
            raise Unk('len')
        if n == 'range':
            if all(isinstance(x, int) for x in a):
                return range(*a)
            raise Unk('range')
        if n == 'enumerate':
            st = a[1] if len(a) > 1 else kw.get('start', 0)
            return [(i + st, x) for i, x in enumerate(self.iterate(a[0]))]
        if n == 'zip':
            return [tuple(x) for x in zip(*[self.iterate(y) for y in a])]
        if n == 'reversed':
            return self.iterate(a[0])[::-1]
        if n == 'list':
            return list(self.iterate(a[0])) if a else []
        if n == 'tuple':
            return tuple(self.iterate(a[0])) if a else ()
        if n in ('set', 'frozenset'):
            return S(self.iterate(a[0]) if a else [])
        if n == 'iter':
            return self.iterate(a[0])
        if n == 'dict':
            d = D()
            if a:
                for p in (a[0].p if isinstance(a[0], D) else self.iterate(a[0])):
                    p = self.iterate(p) if not isinstance(p, list) else p
                    self.set_index(d, p[0], p[1])
            for k, v in kw.items():
                self.set_index(d, k, v)
            return d
        if n == 'isinstance':
            return self.isinst(a[0], a[1])
        if n == 'float' and len(a) == 1:
            x = a[0]
            if isinstance(x, (int, Fraction)):
                return Fraction(x)
            if isinstance(x, Obj):
                nd = [self.getattr(x, q) for q in ('numerator', 'denominator')]
                if all(isinstance(q, int) for q in nd) and nd[1]:
                    return Fraction(*nd)
            raise Unk('float of a run time value')
        if n == 'int':
            if not a:
                return 0
            x = a[0]
            if isinstance(x, Fraction):
                return int(x)
            if isint(x) and len(a) == 1:
                return int(x) if isinstance(x, int) else x
            if isinstance(x, (str, T)):
                base = a[1] if len(a) > 1 else kw.get('base', 10)
                if base == 16:
                    cs = chars(x)
                    if cs[:2] == ['0', 'x']:
                        cs = cs[2:]
                    return self.hex_int(text(cs))
                if isinstance(x, str) and isinstance(base, int):
                    try:
                        return int(x, base)
                    except ValueError:
                        raise AbsRaise('ValueError')
            if isinstance(x, Obj):
                if x.cls == 'uuid.UUID':
                    return self.obj_attr(x, 'int')
                if not isinstance(x.cls, str) and x.cls.method('__int__'):
                    return self.call_func(x.cls.method('__int__'), [x], {})
            raise Unk('int()')
        if n == 'str':
            if not a:
                return ''
            if isinstance(a[0], By):
                if len(a) > 1:
                    return self.method(a[0], 'decode', a[1:], {})
                raise Unk('str of bytes')
            return self.to_str(a[0])
        if n == 'repr':
            return self.to_str(a[0])
        if n == 'bool':
            return self.truth(a[0]) if a else False
        if n in ('min', 'max', 'sorted', 'sum', 'abs', 'pow', 'divmod', 'ord', 'chr'):
            if n == 'divmod':
                return (self.binop('//', a[0], a[1]), self.binop('%', a[0], a[1]))
            if n == 'pow' and len(a) == 2:
                return self.binop('**', a[0], a[1])
            if n == 'sum':
                r = a[1] if len(a) > 1 else 0
                for x in self.iterate(a[0]):
                    r = self.binop('+', r, x)
                return r
            if n == 'sorted':
                v = self.iterate(a[0])
                rev = kw.pop('reverse', False)
                key = kw.pop('key', None)
                if kw:
                    raise Unk('sorted')
                return self.sort(v, key, self.truth(rev))
            if n == 'ord' and isinstance(a[0], By) and len(a[0].v) == 1:
                return mk(a[0].v[0])
            vals = self.iterate(a[0]) if n in ('min', 'max') and len(a) == 1 else a
            if all(isinstance(x, int) for x in vals) or n == 'ord' and isinstance(vals[0], str):
                return {'min': min, 'max': max, 'abs': lambda x: abs(x[0]), 'ord': lambda x: ord(x[0]), 'chr': lambda x: chr(x[0])}[n](vals)
            if n == 'abs' and isinstance(a[0], N):
                if not a[0].signed or self.assume_eq([(a[0].b[-1], 0)]):
                    return a[0] if not a[0].signed else mk(a[0].b[:-1])
                return self.neg(a[0])
            if n in ('min', 'max') and vals and not kw:
                r = vals[0]
                for x in vals[1:]:
                    if self.truth(self.lt(x, r) if n == 'min' else self.lt(r, x)):
                        r = x
                return r
            raise Unk(n)
        if n in ('all', 'any'):
            for x in self.iterate(a[0]):
                if self.truth(x) != (n == 'all'):
                    return n == 'any'
            return n == 'all'
        if n == 'map':
            return [self.call(a[0], list(x), {}) for x in zip(*[self.iterate(y) for y in a[1:]])]
        if n == 'filter':
            return [x for x in self.iterate(a[1]) if self.truth(x if a[0] is None else self.call(a[0], [x], {}))]
        if n == 'hash':
            x = a[0]
            if isinstance(x, Obj):
                if x.cls == 'uuid.UUID':
                    return H(self.obj_attr(x, 'int'))
                if not isinstance(x.cls, str) and x.cls.method('__hash__'):
                    return self.call_func(x.cls.method('__hash__'), [x], {})
            if isinstance(x, By) and x.mut or isinstance(x, (list, D, S)):
                raise AbsRaise('TypeError')
            return H(x)
        if n == 'id':
            self.kept.append(a[0])
            if 'id' in self.stubs:
                return (1 << 30) + 16 * [x is a[0] for x in self.kept].index(True)
            return sym_int('id%d' % [x is a[0] for x in self.kept].index(True), 64)
        if n == 'print':
            return None
        if n == 'getattr':
            if isinstance(a[1], str):
                if isinstance(a[0], Obj) and len(a) > 2 and not self.hasattr(a[0], a[1]):
                    return a[2]
                return self.getattr(a[0], a[1])
        if n == 'hasattr' and isinstance(a[0], Obj) and isinstance(a[1], str):
            return self.hasattr(a[0], a[1])
        if n == 'setattr' and isinstance(a[1], str):
            self.setattr(a[0], a[1], a[2])
            return None
        if n == 'type' and len(a) == 1:
            return self.getattr(a[0], '__class__') if isinstance(a[0], Obj) else Obj('type')
        if n == 'format':
            return text(self.fmt_spec(a[0], a[1] if len(a) > 1 else ''))
        if n == 'slice':
            return slice(*a)
        if n == 'next':
            v = a[0]
            if isinstance(v, list):
                if v:
                    return v.pop(0)
                if len(a) > 1:
                    return a[1]
                raise AbsRaise('StopIteration')
        if n == 'issubclass' and isinstance(a[0], Class) and isinstance(a[1], Class):
            return a[1] in a[0].mro()
        if n == 'hex' and isinstance(a[0], int):
            return hex(a[0])
        if n == 'object':
            return Obj('object')
        if self.exc_class(n):
            return Obj('exc', {'args': tuple(a)})
        raise Unk('builtin %s' % n)

    def hasattr(self, o, name):
        if name in o.at:
            return True
        if isinstance(o.cls, str):
            raise Unk('hasattr')
        return any(o.cls.find(t, name) is not None for t in ('getters', 'methods', 'attrs'))

    EXT_SUB = {('datetime.datetime', 'datetime.date')}

    def isinst(self, x, c):
        if isinstance(c, (tuple, list)):
            return any(self.isinst(x, y) for y in c)
        if isinstance(c, Class):
            return isinstance(x, Obj) and not isinstance(x.cls, str) and c in x.cls.mro()
        if isinstance(c, Bi):
            n = c.name
            if n == 'int':
                return isint(x)
            if n == 'bool':
                return isinstance(x, (bool, Cmp))
            if n == 'str':
                return isinstance(x, (str, T))
            if n == 'bytes':
                return isinstance(x, By) and not x.mut
            if n == 'bytearray':
                return isinstance(x, By) and x.mut
            if n == 'float':
                return isinstance(x, Fraction) or isinstance(x, Obj) and x.cls == 'float'
            if n == 'list':
                return isinstance(x, list)
            if n == 'tuple':
                return isinstance(x, tuple)
            if n == 'dict':
                return isinstance(x, D)
            if n in ('set', 'frozenset'):
                return isinstance(x, S)
            if n == 'object':
                return True
            if n == 'type':
                return isinstance(x, Class)
        if isinstance(c, Ext):
            n = c.name
            if n in ('numbers.Rational', 'numbers.Integral', 'numbers.Number', 'numbers.Real'):
                if isint(x):
                    return True
                return isinstance(x, Obj) and not isinstance(x.cls, str) and n != 'numbers.Integral' and self.has_ext_base(x.cls, 'fractions.Fraction')
            if isinstance(x, Obj):
                if isinstance(x.cls, str):
                    return x.cls == n or (x.cls, n) in self.EXT_SUB
                return self.has_ext_base(x.cls, n)
            return False
        if isinstance(c, Obj) and c.cls == 'type':
            raise Unk('isinstance')
        raise Unk('isinstance')

    DT = {'datetime.date': ('year', 'month', 'day'), 'datetime.time': ('hour', 'minute', 'second', 'microsecond'),
          'datetime.datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')}

    def ext_call(self, n, a, kw):
        if ('ext', n) in self.stubs:
            return self.call(self.stubs['ext', n], list(a), kw)
        if n in ('uuid.UUID',):
            if 'bytes' in kw:
                b = By(kw['bytes'].v)
            elif 'bytes_le' in kw:
                b = By([kw['bytes_le'].fixed()[i] for i in self.PERM])
            elif 'int' in kw:
                v = bits_of(kw['int'])
                if len(v) > 128:
                    if isinstance(kw['int'], int):
                        raise AbsRaise('ValueError')
                    raise Unk('value wider than 128 bits')
                v = bits_of(kw['int'], 128)
                b = By([v[i:i + 8] for i in range(0, 128, 8)][::-1])
            elif 'hex' in kw or a:
                t = kw.get('hex', a[0] if a else None)
                if not isinstance(t, (str, T)):
                    raise AbsRaise('AttributeError')
                cs = [x for x in chars(t) if x not in ('-', '{', '}')]
                if cs[:9] == list('urn:uuid:'):
                    cs = cs[9:]
                if len(cs) != 32:
                    raise AbsRaise('ValueError')
                b = self.hex_bytes(text(cs))
            else:
                raise Unk('UUID()')
            if len(b.fixed()) != 16:
                raise AbsRaise('ValueError')
            return Obj('uuid.UUID', {'be': b})
        if n == 'uuid.uuid4':
            self.fresh += 1
            return Obj('uuid.UUID', {'be': sym_bytes('fresh%d' % self.fresh, 16)})
        if n == 'struct.unpack':
            return self.unpack(a[0], a[1])
        if n == 'struct.unpack_from':
            return self.unpack(a[0], a[1], a[2] if len(a) > 2 else kw.get('offset', 0), exact=False)
        if n == 'struct.pack':
            return self.pack(a[0], a[1:])
        if n == 'struct.pack_into':
            b = self.pack(a[0], a[3:])
            v = a[1].fixed()
            o = a[2]
            if not a[1].mut:
                raise AbsRaise('TypeError')
            if o + len(b.v) > len(v):
                raise AbsRaise('error')
            v[o:o + len(b.v)] = b.v
            return None
        if n == 'struct.calcsize':
            return fmt_size(parse_fmt(a[0])[1])
        if n == 'struct.Struct':
            return Obj('struct.Struct', {'fmt': a[0]})
        if n in ('binascii.hexlify', 'binascii.b2a_hex'):
            raise Unk('hexlify')
        if n in ('binascii.unhexlify', 'binascii.a2b_hex'):
            return self.hex_bytes(a[0])
        if n in ('io.BytesIO',):
            return Obj('io.BytesIO', {'buf': By(a[0].v, True) if a else By([], True), 'pos': 0})
        if n in self.DT:
            names = self.DT[n]
            vals = dict(zip(names, a))
            for k, v in kw.items():
                if k not in names or k in vals:
                    raise AbsRaise('TypeError')
                vals[k] = v
            need = names[:3] if n != 'datetime.time' else ()
            if any(x not in vals for x in need):
                raise AbsRaise('TypeError')
            top = {'month': 12, 'day': 31, 'hour': 23, 'minute': 59, 'second': 59, 'microsecond': 999999, 'year': 9999}
            if any(isinstance(v, int) and not (x in ('year', 'month', 'day')) <= v <= top[x] for x, v in vals.items() if x in top):
                raise AbsRaise('ValueError')
            # a calendar may refuse the values
            if not self.truth(Cmp('valid', n, repr(sorted(vals.items())))):
                raise AbsRaise('ValueError')
            for x in names:
                vals.setdefault(x, 0)
            return Obj(n, vals)
        if n in ('math.gcd', 'fractions.gcd') and len(a) == 2 and all(isint(x) for x in a):
            if all(isinstance(x, int) for x in a):
                import math
                return math.gcd(*a)
            return self.opaque('gcd', *a)
        if n == 'datetime.datetime.combine':
            if len(a) != 2 or not all(isinstance(x, Obj) and x.cls == c for x, c in zip(a, ('datetime.date', 'datetime.time'))):
                raise AbsRaise('TypeError')
            d = dict(a[0].at)
            d.update(a[1].at)
            return Obj('datetime.datetime', d)
        if n.startswith('logging.') or n.startswith('warnings.') or n.startswith('traceback.'):
            if n == 'logging.getLogger':
                return Ext('logging')
            return None
        if n in ('codecs.encode', 'codecs.decode'):
            return self.method(a[0], n.split('.')[1], a[1:], {})
        if n == 'itertools.chain':
            return [y for x in a for y in self.iterate(x)]
        if n == 'collections.OrderedDict':
            return self.builtin('dict', a, kw)
        if n == 'functools.reduce':
            xs = self.iterate(a[1])
            if len(a) > 2:
                r = a[2]
            else:
                r = xs.pop(0)
            for x in xs:
                r = self.call(a[0], [r, x], {})
            return r
        if n in ('int.from_bytes', 'operator.itemgetter'):
            pass
        raise Unk('call of %s' % n)

    def method(self, o, name, a, kw):
        if isinstance(o, Bi):
            if o.name == 'int' and name == 'from_bytes':
                order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
                bs = self.to_bytes([a[0]], False).fixed()
                if order == 'big':
                    bs = bs[::-1]
                return mk(sum(bs, ()), bool(kw.get('signed', False)))
            if o.name in ('bytes', 'bytearray') and name == 'fromhex':
                return self.hex_bytes(a[0], o.name == 'bytearray')
            if o.name == 'dict' and name == 'fromkeys':
                return D([(k, a[1] if len(a) > 1 else None) for k in self.iterate(a[0])])
            if o.name == 'str':
                return self.method(a[0], name, a[1:], kw)
        if isint(o):
            if name == 'to_bytes':
                n = a[0] if a else kw.get('length', 1)
                order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
                return By(self.int_bytes(o, n, bool(kw.get('signed', False)), '<' if order == 'little' else '>', 'OverflowError'))
            if name == 'bit_length' and isinstance(o, int):
                return o.bit_length()
        if isinstance(o, By):
            return self.by_method(o, name, a, kw)
        if isinstance(o, (str, T)):
            return self.text_method(o, name, a, kw)
        if isinstance(o, list):
            if name == 'sort':
                if set(kw) - set(('key', 'reverse')) or a:
                    raise Unk('sort')
                o[:] = self.sort(list(o), kw.get('key'), self.truth(kw.get('reverse', False)))
                return None
            if name == 'append':
                o.append(a[0])
                return None
            if name == 'extend':
                o.extend(self.iterate(a[0]))
                return None
            if name == 'insert':
                o.insert(a[0], a[1])
                return None
            if name == 'pop':
                try:
                    return o.pop(*a)
                except IndexError:
                    raise AbsRaise('IndexError')
            if name == 'reverse':
                o.reverse()
                return None
            if name == 'copy':
                return list(o)
        if isinstance(o, (list, tuple)) and name == 'index':
            for i, x in enumerate(o):
                if self.truth(self.eq(x, a[0])):
                    return i
            raise AbsRaise('ValueError')
        if isinstance(o, (list, tuple)) and name == 'count':
            return sum(1 for x in o if self.truth(self.eq(x, a[0])))
        if isinstance(o, D):
            if name == 'get':
                p = self.dget(o, a[0])
                return p[1] if p is not None else (a[1] if len(a) > 1 else None)
            if name in ('items', 'iteritems'):
                return [(k, v) for k, v in o.p]
            if name in ('keys', 'iterkeys'):
                return [k for k, v in o.p]
            if name in ('values', 'itervalues'):
                return [v for k, v in o.p]
            if name == 'setdefault':
                p = self.dget(o, a[0])
                if p is None:
                    o.p.append([a[0], a[1] if len(a) > 1 else None])
                    p = o.p[-1]
                return p[1]
            if name == 'update':
                for p in (a[0].p if isinstance(a[0], D) else [self.iterate(x) for x in self.iterate(a[0])]) if a else []:
                    self.set_index(o, p[0], p[1])
                for k, v in kw.items():
                    self.set_index(o, k, v)
                return None
            if name == 'pop':
                p = self.dget(o, a[0])
                if p is None:
                    if len(a) > 1:
                        return a[1]
                    raise AbsRaise('KeyError')
                o.p.remove(p)
                return p[1]
            if name == 'copy':
                return D(o.p)
        if isinstance(o, S):
            if name == 'add':
                o.p.append(a[0])
                return None
            if name == 'update':
                o.p += self.iterate(a[0])
                return None
            if name == 'copy':
                return S(o.p)
        if o is None:
            raise AbsRaise('AttributeError')
        raise Unk('method %s' % name)

    def by_method(self, o, name, a, kw):
        if name == 'decode':
            codec = norm_codec(a[0] if a else kw.get('encoding', 'utf-8'))
            if codec in ('utf-16-le', 'utf-16-be'):
                out = []
                v = o.v
                i = 0
                while i < len(v):
                    if len(v[i]) == 3:
                        if v[i][1] != codec:
                            raise Unk('decoding with another codec')
                        out += list(v[i][2])
                        i += 1
                        continue
                    if i + 1 >= len(v) or len(v[i + 1]) == 3:
                        if len(a) > 1 or 'errors' in kw:
                            out.append('?')
                            i += 1
                            continue
                        raise AbsRaise('UnicodeDecodeError')
                    lo, hi = (v[i], v[i + 1]) if codec == 'utf-16-le' else (v[i + 1], v[i])
                    bits = self.resb(lo + hi)
                    if all(isinstance(x, int) for x in bits):
                        out.append(chr(sum(x << j for j, x in enumerate(bits))))
                    else:
                        out.append(('ch', bits))
                    i += 2
                return text(out)
            if codec in ('ascii', 'latin-1', 'utf-8'):
                out = []
                for x in o.v:
                    if len(x) == 3:
                        if x[1] != codec:
                            raise Unk('decoding with another codec')
                        out += list(x[2])
                        continue
                    if not all(isinstance(b, int) for b in x):
                        raise Unk('decode')
                    out.append(chr(sum(b << j for j, b in enumerate(x))))
                return text(out)
            raise Unk('codec %s' % codec)
        if name == 'hex':
            return self.hex_text(o)
        if name == 'extend' and o.mut:
            o.v += self.to_bytes([a[0]], False).v
            return None
        if name == 'append' and o.mut:
            o.v.append(bits_of(a[0], 8))
            return None
        if name == 'reverse' and o.mut:
            o.fixed()
            o.v.reverse()
            return None
        if name == 'copy':
            return By(o.v, o.mut)
        if name == 'join':
            out = []
            for i, x in enumerate(self.iterate(a[0])):
                if i:
                    out += o.v
                out += x.v
            return By(out, o.mut)
        if name == 'ljust':
            v = list(o.fixed())
            fill = a[1].fixed()[0] if len(a) > 1 else tuple((32 >> i) & 1 for i in range(8))
            return By(v + [fill] * (a[0] - len(v)), o.mut)
        if name == 'startswith' or name == 'endswith':
            v = o.fixed()
            k = len(a[0].v)
            if k > len(v):
                return False
            return self.eq(By(v[:k] if name == 'startswith' else v[len(v) - k:]), By(a[0].v))
        if name == 'tobytes':
            return By(o.v)
        raise Unk('bytes.%s' % name)

    def text_method(self, o, name, a, kw):
        if name == 'encode':
            codec = norm_codec(a[0] if a else kw.get('encoding', 'utf-8'))
            out = []
            for x in chars(o):
                if isinstance(x, str):
                    try:
                        out += const_bytes(x.encode(codec)).v
                    except (UnicodeError, LookupError):
                        raise AbsRaise('UnicodeEncodeError')
                elif x[0] == 'ch' and codec in ('utf-16-le', 'utf-16-be'):
                    lo, hi = x[1][:8], x[1][8:]
                    out += [lo, hi] if codec == 'utf-16-le' else [hi, lo]
                elif x[0] == 'txt':
                    out.append(('enc', codec, (x,)))
                else:
                    raise Unk('encode')
            return By(out)
        if isinstance(o, str) and all(isinstance(x, str) for x in a) and name in ('replace', 'strip', 'lower', 'upper', 'split', 'startswith', 'endswith', 'lstrip', 'rstrip', 'find', 'isdigit', 'title', 'partition'):
            r = getattr(o, name)(*a)
            return r
        if name == 'format':
            import re
            if not isinstance(o, str):
                raise Unk('format')
            out = []
            pos = 0
            auto = 0
            for m_ in re.finditer(r'\{(\w*)(?::([^}]*))?\}', o):
                out += list(o[pos:m_.start()])
                pos = m_.end()
                k, spec = m_.groups()
                if k == '':
                    v = a[auto]
                    auto += 1
                elif k.isdigit():
                    v = a[int(k)]
                else:
                    v = kw[k]
                out += self.fmt_spec(v, spec or '')
            return text(out + list(o[pos:]))
        if name == 'join':
            out = []
            for i, x in enumerate(self.iterate(a[0])):
                if i:
                    out += chars(o)
                out += chars(x)
            return text(out)
        if name == 'zfill' and isinstance(o, T):
            v = self.iterate(o)
            return text(['0'] * (a[0] - len(v)) + chars(o))
        cs = chars(o)
        if any(isinstance(x, tuple) and x[0] in ('txt', 'vx') for x in cs):
            if name == 'split' and a == ['\x00']:
                parts = [[]]
                for x in cs:
                    if x == '\x00':
                        parts.append([])
                    else:
                        parts[-1].append(x)
                return [text(p) for p in parts]
            if name == 'rstrip' and a == ['\x00'] and not any(isinstance(x, tuple) and x[0] == 'vx' for x in cs):
                v = list(cs)
                while v and v[-1] == '\x00':
                    v.pop()
                return text(v)
            raise Unk('text.%s' % name)
        if name in ('lower', 'upper'):
            return text([getattr(x, name)() if isinstance(x, str) else x for x in cs])
        if name == 'replace':
            old, new = a[0], chars(a[1])
            if not isinstance(old, str) or not old:
                raise Unk('replace')
            out = []
            i = 0
            while i < len(cs):
                if self.match(cs, i, old):
                    out += new
                    i += len(old)
                else:
                    out.append(cs[i])
                    i += 1
            return text(out)
        if name in ('strip', 'lstrip', 'rstrip'):
            st = a[0] if a else ' \t\r\n'
            v = list(cs)

            def hit(x):
                if isinstance(x, str):
                    return x in st
                if x[0] == 'hx':
                    if any(ch in '0123456789abcdefABCDEF' for ch in st):
                        raise Unk('strip')
                    return False
                raise Unk('strip')
            while name != 'rstrip' and v and hit(v[0]):
                v.pop(0)
            while name != 'lstrip' and v and hit(v[-1]):
                v.pop()
            return text(v)
        if name in ('startswith', 'endswith'):
            p = a[0]
            if isinstance(p, str):
                if len(p) > len(cs):
                    return False
                return self.match(cs, 0 if name == 'startswith' else len(cs) - len(p), p)
        if name == 'split' and a and isinstance(a[0], str):
            parts = [[]]
            i = 0
            while i < len(cs):
                if self.match(cs, i, a[0]):
                    parts.append([])
                    i += len(a[0])
                else:
                    parts[-1].append(cs[i])
                    i += 1
            return [text(p) for p in parts]
        raise Unk('text.%s' % name)

    def match(self, cs, i, pat):
        if i + len(pat) > len(cs):
            return False
        maybe = False
        for x, y in zip(cs[i:i + len(pat)], pat):
            if isinstance(x, str):
                if x != y:
                    return False
            elif x[0] == 'hx':
                if y not in '0123456789abcdefABCDEF':
                    return False
                maybe = True
            else:
                if y == '\x00':
                    return False
                maybe = True
        if maybe:
            raise Unk('text match')
        return True


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**', ast.Div: '/'}


def digit(bits):
    if all(isinstance(x, int) for x in bits):
        return '%x' % sum(x << i for i, x in enumerate(bits))
    return ('hx', tuple(bits))


def chars(t):
    return list(t) if isinstance(t, str) else list(t.v) if isinstance(t, T) else bad_text(t)


def bad_text(t):
    raise Unk('not text')


def text(cs):
    cs = list(cs)
    if all(isinstance(x, str) for x in cs):
        return ''.join(cs)
    return T(cs)


def norm_codec(n):
    import codecs
    if not isinstance(n, str):
        raise Unk('codec')
    try:
        n = codecs.lookup(n).name
    except LookupError:
        raise AbsRaise('LookupError')
    return {'iso8859-1': 'latin-1'}.get(n, n)


def is_generator(node):
    g = getattr(node, 'sa_generator', None)
    if g is None:
        g = node.sa_generator = yields(node)
    return g


def yields(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def blob_slice(v, s):
    lo = s.start or 0
    if s.step not in (None, 1) or s.stop is not None or lo < 0 or any(len(x) == 3 for x in v[:lo]):
        if s.stop is not None and s.stop >= lo >= 0 and s.step in (None, 1) and not any(len(x) == 3 for x in v[:s.stop]):
            return v[s]
        raise Unk('slice of bytes of unknown length')
    return v[lo:]
