"""C04: container tables, writer against reader."""
import re
from .util import *
from .layout import *

UTW = ('write_u8', 'write_u16le', 'write_u32le', 'write_u64le', 'write_sid', 'encode_sid', 'write_filetime',
       'read_u8', 'read_u16le', 'read_u32le', 'read_u64le', 'read_sid', 'read_filetime', 'decode_sid',
       'encode_u16le', 'encode_u32le', 'encode_u8', 'encode_utf16le', 'decode_utf16le')
# [MS-CFB] 2.2 Compound File Header
HEADER = {'magic': (0, 8), 'class_id': (8, 16), 'minor_version': (24, 2), 'major_version': (26, 2),
          'byte_order': (28, 2), 'sector_size': (30, 2), 'mini_stream_sector_size': (32, 2),
          'dir_sector_count': (40, 4), 'fat_sector_count': (44, 4), 'dir_sector_start': (48, 4),
          'transaction_signature': (52, 4), 'min_stream_max_size': (56, 4), 'minifat_sector_start': (60, 4),
          'minifat_sector_count': (64, 4), 'difat_sector_start': (68, 4), 'difat_sector_count': (72, 4),
          'difat': (76, 4)}
CODE = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}


def fields(fmt):
    """[(width, repeat, bytes?)] of a struct format"""
    out = []
    for n, ch in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        k = int(n) if n else 1
        if ch == 's':
            out.append((k, 1))
        elif ch == 'x':
            out.append((k, 0))
        elif ch in CODE:
            out.extend([(CODE[ch], 1)] * k if k <= 64 else [(CODE[ch], k)])
        else:
            return None
    return out


def packed(t):
    """(fmt, args) of a struct.pack(...) / Struct(...).pack(...) term"""
    if t[0] != 'call':
        return None
    if t[1] == ('ext', 'struct.pack') and t[2]:
        f = fmt_of(t[2][0])
        return (f, t[2][1:]) if f else None
    if t[1][0] == 'a' and t[1][2] == 'pack' and t[1][1][0] == 'call' and t[1][1][1] == ('ext', 'struct.Struct'):
        f = fmt_of(t[1][1][2][0])
        return (f, t[2]) if f else ('?', t[2])
    return None


def data_len(t):
    t = strip_bytes(t) if not (t[0] == 'call' and t[1] in (('b', 'bytearray'), ('b', 'bytes')) and t[2] and is_c(t[2][0]) and isinstance(cval(t[2][0]), int)) else t
    if is_c(t) and isinstance(cval(t), (bytes, str)):
        return len(cval(t))
    if t[0] == 'a' and t[2] in ('bytes_le', 'bytes', 'bytes_be'):
        return 16
    if t[0] == 'bin' and t[1] == '*':
        a, b = t[2], t[3]
        if is_c(a) and is_c(b):
            try:
                return len(cval(a) * cval(b))
            except TypeError:
                return None
    if t[0] == 'call' and t[1] in (('b', 'bytearray'), ('b', 'bytes')) and t[2] and int_of(t[2][0]) is not None:
        return int_of(t[2][0])
    pk = packed(t)
    if pk and pk[0] != '?':
        return fsize(pk[0])
    return None


def write_ops(p, F):
    """ordered [(pos, width, value, ev, repeat)] of the writes to file F on a path"""
    out = []
    pos = None
    loop = []
    for e in p.ev:
        if e.kind == 'iter':
            loop.append([e.a, None, pos, None])
        elif e.kind == 'loop' and loop:
            loop[-1][1] = True
            loop[-1][2] = pos
        elif e.kind == 'loopexit' and loop:
            it, entered, start, _ = loop.pop()
            if entered:
                n = None
                if it[0] == 'call' and it[1] == ('b', 'range') and len(it[2]) == 1:
                    n = int_of(it[2][0])
                if n is not None and pos is not None and start is not None and isinstance(pos, int) and isinstance(start, int):
                    step = pos - start
                    pos = start + n * step
                    out = [(o[0], o[1], o[2], o[3], n) if isinstance(o[0], int) and o[0] >= start and o[4] == 1 else o for o in out]
                else:
                    pos = None
        elif e.kind == 'call' and e.recv == F and e.name == 'seek':
            v = norm(e.args[0]) if e.args else None
            pos = int_of(v) if v is not None and int_of(v) is not None else v
        elif e.kind == 'call' and e.recv == F and e.name == 'write' and e.args:
            d = e.args[0]
            items = None
            # concatenation
            parts = flat_concat(d)
            for d in parts:
                pk = packed(d)
                if pk and pk[0] not in (None, '?') and not any(a[0] == 'star' for a in pk[1]):
                    fl = fields(pk[0])
                    vals = list(pk[1])
                    if fl:
                        for w, rep in fl:
                            v = vals.pop(0) if rep and vals else None
                            out.append((pos, w, v, e, 1))
                            pos = pos + w if isinstance(pos, int) else None
                        continue
                w = data_len(d)
                if pk and pk[0] not in (None, '?') and any(a[0] == 'star' for a in pk[1]):
                    fl = fields(pk[0])
                    if fl and len(fl) == 1 and len(pk[1]) == 1:
                        out.append((pos, fl[0][0], pk[1][0], e, fl[0][1]))
                        pos = pos + w if isinstance(pos, int) and w else None
                        continue
                out.append((pos, w, d, e, 1))
                pos = pos + w if isinstance(pos, int) and w is not None else None
    return out


def flat_concat(t):
    if t[0] == 'bin' and t[1] == '+':
        return flat_concat(t[2]) + flat_concat(t[3])
    if t[0] == 'call' and t[1] == ('a', c(b''), 'join') and t[2] and t[2][0][0] in ('list', 'tuple'):
        return list(t[2][0][1])
    return [t]


def read_ops(p, F):
    """{read call term: (pos, width, ev)}"""
    out = {}
    pos = None
    loop = []
    for e in p.ev:
        if e.kind == 'iter':
            loop.append([e.a, None, pos])
        elif e.kind == 'loop' and loop:
            loop[-1][1], loop[-1][2] = True, pos
        elif e.kind == 'loopexit' and loop:
            it, entered, start = loop.pop()
            if entered:
                n = int_of(it[2][0]) if it[0] == 'call' and it[1] == ('b', 'range') and len(it[2]) == 1 else None
                pos = start + n * (pos - start) if n is not None and isinstance(pos, int) and isinstance(start, int) else None
        elif e.kind == 'call' and e.recv == F and e.name == 'seek':
            v = norm(e.args[0]) if e.args else None
            pos = int_of(v) if v is not None and int_of(v) is not None else None
        elif e.kind == 'call' and e.recv == F and e.name == 'read':
            w = int_of(e.args[0]) if e.args else None
            out[e.v] = (pos, w, e)
            pos = pos + w if isinstance(pos, int) and w is not None else None
    return out


def self_attr(t, me):
    """names of attributes of `me` a term depends on (outermost paths)"""
    return sorted(set(s[2] for s in subterms(t) if s[0] == 'a' and s[1] == me))


def header(cx):
    w = cx.prog.func('cfb.CompoundFileBinary.write_header')
    r = cx.prog.func('cfb.CompoundFileBinary.read_header')
    me = ('p', 'self')
    F = ('a', me, 'f')
    wmap = {}
    consts = {}
    nops = 0
    for p in cx.paths(w, inline=UTW):
        if p.raised:
            continue
        for pos, width, v, e, rep in write_ops(p, F):
            nops += 1
            if v is None:
                continue
            attrs = self_attr(v, me)
            attrs = [a for a in attrs if a != 'f']
            if v[0] == 'bin' and v[1] == '*' or (v[0] == 'call' and v[1] in (('b', 'bytearray'), ('b', 'bytes')) and width is None):
                continue        # padding
            if len(attrs) == 1 and isinstance(pos, int):
                wmap.setdefault(attrs[0], set()).add((pos, width, v, e.where, rep))
            elif not attrs and isinstance(pos, int):
                consts.setdefault(pos, set()).add((width, v, e.where))
            elif attrs and pos is None and len(attrs) == 1 and attrs[0] in HEADER:
                cx.unk('C04.header', 'write %s' % attrs[0], 'position not known')
    rmap = {}
    for p in cx.paths(r, inline=UTW):
        ro = read_ops(p, F)
        cur = None
        for e in p.ev:
            if e.kind == 'iter':
                cur = e
            elif e.kind == 'loopexit':
                cur = None
            elif cur is not None and e.kind == 'call' and e.name == 'append' and e.args and any(s in ro and ro[s][0] == 76 for s in subterms(e.args[0])):
                it = cur.a
                if it[0] == 'call' and it[1] == ('b', 'range') and len(it[2]) == 1 and int_of(it[2][0]) is not None:
                    cx.check(int_of(it[2][0]) == 109, 'C04.header', 'header DIFAT length (read)', cur.where,
                             'the header holds 109 table entries, %s are read' % int_of(it[2][0]))
        for e in p.ev:
            v = None
            if e.kind == 'set' and e.a == me:
                v, name = e.v, e.b
            elif e.kind == 'call' and e.name in ('append', 'extend') and e.recv is not None and has_attr(e.recv, 'difat') or \
                    (e.kind == 'call' and e.name == 'append' and e.args and e.recv is not None and (e.recv[0] == 'i' or e.recv[0] == 'list')):
                v, name = e.args[0], 'difat'
            if v is None:
                continue
            for s in subterms(v):
                if s in ro:
                    pos, width, ev = ro[s]
                    if pos is not None:
                        rmap.setdefault(name, set()).add((pos, width, ev.where))
    n = 0
    for a, (off, width) in sorted(HEADER.items()):
        if a in ('magic', 'byte_order'):
            continue
        con = 'header field %s' % a
        ws = [x for x in wmap.get(a, ())]
        rs = [x for x in rmap.get(a, ())]
        for pos, wd, v, where, rep in ws:
            n += 1
            cx.check((pos, wd) == (off, width), 'C04.header', con, where,
                     'written as %s bytes at offset %s, its place is %d bytes at %d' % (wd, pos, width, off))
            if a == 'difat' and rep != 1:
                cx.check(rep == 109, 'C04.header', 'header DIFAT length', where, 'the header holds 109 table entries, %s are written' % rep)
        for pos, wd, where in rs:
            n += 1
            if a == 'difat' and pos > 76:
                continue
            cx.check((pos, wd) == (off, width), 'C04.header', con + ' (read)', where,
                     'read as %s bytes at offset %s, its place is %d bytes at %d' % (wd, pos, width, off))
        if rs and not ws and wmap:
            at = consts.get(off)
            cx.bad('C04.header', con, w.where, 'the header writer never stores this field (offset %d holds %s)' % (
                off, [show(x[1]) for x in at] if at else 'nothing'))
        if ws and not rs and rmap:
            cx.bad('C04.header', con + ' (read)', r.where, 'the header reader never loads this field')
    cx.need('header fields matched between writer and reader', n, 20)
    # power-of-two fields
    for a in ('sector_size', 'mini_stream_sector_size'):
        for pos, wd, v, where, rep in wmap.get(a, ()):
            logs = any(s[0] == 'call' and s[1][0] in ('ext', 'a') and 'log' in str(s[1][-1]) or
                       (s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'bit_length') for s in subterms(v))
            if not logs:
                cx.bad('C04.header', 'header field %s shift' % a, where, 'stored as %s, the header keeps the power of two' % show(v))
            else:
                cx.ok('C04.header', 'header field %s shift' % a)
    # signature and byte order
    magic = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'
    for width, v, where in consts.get(0, ()):
        cx.check(v == c(magic), 'C04.header', 'signature', where, 'the signature written is %s' % show(v))
    for width, v, where in consts.get(28, ()):
        cx.check(int_of(v) == 0xFFFE or v == c(b'\xfe\xff'), 'C04.header', 'byte order mark', where, 'the byte order mark written is %s' % show(v))


def sector_of(pos, ss):
    """(S, off) when pos == (S + 1) * ss + off with off a remainder modulo ss (or 0)"""
    from ..terms import poly, from_poly
    d = dict(poly(pos))
    off = c(0)
    for m in list(d):
        if len(m) == 1 and m[0][0] == 'mod' and d[m] == 1:
            off = m[0]
            del d[m]
            break
    sat = norm(ss)
    q, rest = {}, {}
    for m, co in d.items():
        mm = list(m)
        if sat in mm:
            mm.remove(sat)
            q[tuple(mm)] = co
        elif is_c(sat) and isinstance(cval(sat), int) and co % cval(sat) == 0:
            q[m] = co // cval(sat)
        else:
            rest[m] = co
    if rest:
        return None
    q[()] = q.get((), 0) - 1
    if q[()] == 0:
        del q[()]
    return from_poly(q), off


def idx_of(t):
    if t[0] == 'nth':
        return ('nth', idx_of(t[1]), t[2])
    return ('idx', t[1])


def tables(cx):
    me = ('p', 'self')
    ss = ('a', me, 'sector_size')
    F = ('a', me, 'f')
    count = norm(('bin', '//', ss, c(4)))
    for name, table in (('write_fat', 'fat'), ('write_minifat', 'minifat')):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        n = 0
        for p in cx.paths(f, unroll=2):
            pos = None
            seen = -1
            for e in p.ev:
                if e.kind == 'call' and e.recv == F and e.name == 'seek':
                    pos = norm(e.args[0])
                elif e.kind == 'call' and e.recv == F and e.name == 'write':
                    if pos is None:
                        continue
                    seen += 1
                    so = sector_of(pos, ss)
                    con = '%s sector address' % table.upper()
                    if so is None:
                        cx.bad('C04.table-address', con, e.where, 'table sector is written at %s, not at (sector + 1) * sector size' % show(pos), p)
                        continue
                    cx.ok('C04.table-address', con)
                    S, off = so
                    sl = [s for s in subterms(e.args[0]) if s[0] == 'i' and s[2][0] == 'slice' and ends(s[1], table)]
                    wrong = [s for s in subterms(e.args[0]) if s[0] == 'i' and s[2][0] == 'slice' and s[1][0] == 'a' and s[1][2] in ('fat', 'minifat') and s[1][2] != table]
                    if wrong:
                        cx.bad('C04.table-content', con, e.where, 'the %s sectors are filled from the %s' % (table, wrong[0][1][2]), p)
                    for s in sl:
                        n += 1
                        lo, hi = slice_bounds(s[2])
                        d = norm(('bin', '-', hi, lo)) if hi is not None else None
                        cx.check(d == count, 'C04.table-content', '%s slice length' % table, e.where,
                                 'one sector holds sector_size // 4 entries, the slice has %s' % (show(d) if d else 'no end'), p)
                        # start must be index * count where index enumerates the sectors S comes from
                        src = strip_iter(S) if S[0] in ('elem', 'nth') else None
                        idx = [x for x in subterms(lo) if x[0] == 'idx']
                        if src is not None and idx:
                            want = norm(('bin', '*', idx_of(S), count))
                            good = norm(lo) == want
                            cx.check(good, 'C04.table-content', '%s slice start' % table, e.where,
                                     'sector %s of the table is filled from entry %s' % (show(S), show(lo)), p)
                        elif seen is not None:
                            want = norm(('bin', '*', c(seen), count))
                            cx.check(norm(lo) == want, 'C04.table-content', '%s slice start' % table, e.where,
                                     'sector number %d of the table is filled from entry %s' % (seen, show(lo)), p)
                        elif int_of(lo) is not None and int_of(lo) != 0:
                            cx.bad('C04.table-content', '%s slice start' % table, e.where, 'the first sector is filled from entry %s' % show(lo), p)
                    pk = [packed(s) for s in subterms(e.args[0]) if packed(s)]
                    for fm, a in pk:
                        cx.check(True, 'C04.table-content', '%s encoding' % table, e.where, '')
        if not n:
            cx.unk('C04.table-content', name, 'no slice of the table recognised')
    # reading: each table sector from (sid+1)*ss, sector_size bytes
    for name in ('read_fat', 'read_minifat'):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        for p in cx.paths(f):
            pos = None
            for e in p.ev:
                if e.kind == 'call' and e.name == 'seek' and e.recv == F:
                    pos = norm(e.args[0])
                    so = sector_of(pos, ss)
                    cx.check(so is not None and so[1] == c(0), 'C04.table-address', name + ' address', e.where,
                             'table sector is read at %s, not at (sector + 1) * sector size' % show(pos), p)
                elif e.kind == 'call' and e.name == 'extend_sid_table':
                    tbl = 'minifat' if name == 'read_minifat' else 'fat'
                    cx.check(len(e.args) > 1 and (ends(e.args[1], tbl) or not e.args[1][0] == 'a'), 'C04.table-content', name + ' target', e.where,
                             'the sectors are loaded into %s' % show(e.args[1]), p)
                    cx.check(len(e.args) > 2 and norm(e.args[2]) == ss, 'C04.table-content', name + ' size', e.where,
                             'a whole sector is read, not %s bytes' % show(e.args[2]), p)
    # FAT sectors listed by the same walk of the DIFAT, with the same exclusion
    srcs = {}
    for name in ('read_fat', 'write_fat'):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        srcs[name] = any(e.kind == 'iter' and contains(e.a, lambda s: s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'iter_difat')
                         or e.kind == 'call' and e.name == 'iter_difat' for p in cx.paths(f) for e in p.ev)
    cx.check(srcs['read_fat'] == srcs['write_fat'], 'C04.fat-walk', 'FAT sector list', cx.prog.func('cfb.CompoundFileBinary.write_fat').where,
             'the FAT is written through another sector list than it is read through')
    # minifat: same chain start
    st = {}
    for name in ('read_minifat', 'write_minifat'):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        st[name] = set()
        for p in cx.paths(f):
            for e in calls(p, 'get_fat_chain'):
                a = e.args[0] if e.args else None
                st[name].add((show(a), 'mini' if len(e.args) > 1 and e.args[1] == TRUE else 'fat'))
    for name in st:
        for a, k in st[name]:
            cx.check(a == 'self.minifat_sector_start' and k == 'fat', 'C04.table-address', name + ' chain', cx.prog.func('cfb.CompoundFileBinary.' + name).where,
                     'the mini FAT sectors are found from %s in the %s' % (a, k))


def difat(cx):
    me = ('p', 'self')
    ss = ('a', me, 'sector_size')
    F = ('a', me, 'f')
    # walk of the entries
    f = cx.prog.func('cfb.CompoundFileBinary.iter_difat')
    ny = 0
    for p in cx.paths(f, unroll=2):
        ext = []
        for e in p.ev:
            if e.kind != 'yield':
                continue
            v = e.a if e.a is not None else e.v
            if v is None or v[0] != 'tuple' or len(v[1]) != 3:
                continue
            ny += 1
            t, i, sid = v[1]
            src = None
            s = sid
            while s[0] == 'nth':
                s = s[1]
            if s[0] != 'elem':
                continue
            src = s[1]
            ti = int_of(t)
            if src[0] == 'i' and src[2] == c(0) and ends(src[1], 'difat'):
                cx.check(ti == 0, 'C04.difat-walk', 'header entries', e.where, 'entries of the header table are reported under table %s' % show(t), p)
            elif ti is not None and ti > 0 or contains(src, lambda x: x[0] == 'elem'):
                base = src
                cut = False
                if src[0] == 'i' and src[2][0] == 'slice':
                    cut = int_of(src[2][2]) == -1 and (src[2][1] == NONE or int_of(src[2][1]) == 0)
                    base = src[1]
                cx.check(cut, 'C04.difat-walk', 'extension entries', e.where,
                         'the last entry of an extension sector is the link to the next one and not a FAT sector', p)
                if base not in [b for b, _ in ext]:
                    ext.append((base, t))
        for b, t in ext:
            k = b[2] if b[0] == 'nth' else 0 if b[0] == 'elem' else None
            if int_of(t) is not None and k is not None:
                cx.check(int_of(t) == k + 1, 'C04.difat-walk', 'extension table number', f.where,
                         'extension table %d is reported as table %s' % (k + 1, show(t)), p)
    if not ny:
        cx.unk('C04.difat-walk', 'iter_difat', 'no yield recognised')
    # chain of extension sectors: reader and writer
    for name in ('write_difat', 'read_header'):
        f = cx.prog.func('cfb.CompoundFileBinary.' + name)
        for p in cx.paths(f, inline=UTW, unroll=2 if name == 'write_difat' else 1):
            seeks = [e for e in p.ev if e.kind == 'call' and e.name == 'seek' and e.recv == F and int_of(e.args[0]) is None]
            for k, e in enumerate(seeks):
                so = sector_of(norm(e.args[0]), ss)
                con = '%s sector address' % name
                if so is None or so[1] != c(0):
                    # reader: sector size may still be the freshly read term
                    if name == 'read_header':
                        continue
                    cx.bad('C04.table-address', con, e.where, 'DIFAT sector at %s, not at (sector + 1) * sector size' % show(norm(e.args[0])), p)
                    continue
                S = so[0]
                if k == 0:
                    cx.check(ends(S, 'difat_sector_start'), 'C04.difat-chain', con, e.where, 'the first DIFAT sector is %s' % show(S), p)
                else:
                    cx.check(S[0] == 'i' and int_of(S[2]) == -1, 'C04.difat-chain', con, e.where,
                             'the next DIFAT sector is taken from %s, not from the last entry of the table' % show(S), p)


def bookkeeping(cx):
    """header counts follow the tables they count"""
    m = 0
    klass = cx.prog.cls('CompoundFileBinary', 'cfb')
    for f in sorted(klass.all_funcs(), key=lambda x: x.name):
        if f.name in ('__init__', 'setup_empty') or f.name.startswith('read_'):
            continue
        import ast
        if not any(isinstance(n, ast.Attribute) and n.attr in ('dir_fat_chain', 'fat', 'minifat', 'difat', 'minifat_chain') for n in ast.walk(f.node)):
            continue
        me = ('p', f.params[0]) if f.params else None
        try:
            ps = cx.paths(f)
        except AnalysisBroken:
            continue
        for p in ps:
            if p.raised:
                continue
            grow = {}
            for e in p.ev:
                if e.kind == 'call' and e.name in ('append', 'extend', '__iadd__', 'fromlist') and e.recv is not None and e.recv[0] == 'a' and e.recv[1] == me:
                    grow.setdefault(e.recv[2], []).append(e)
            for tbl, cnt, verb in (('dir_fat_chain', 'dir_sector_count', 'directory sector'),
                                   ('fat', 'fat_sector_count', 'FAT sector'),
                                   ('minifat_chain', 'minifat_sector_count', 'mini FAT sector'),
                                   ('difat', 'difat_sector_count', 'DIFAT sector')):
                if tbl not in grow:
                    continue
                m += 1
                sets = [e for e in p.ev if e.kind == 'set' and e.a == me and e.b == cnt]
                con = '%s: %s' % (f.name, cnt)
                if not cx.check(bool(sets), 'C04.counts', con, grow[tbl][0].where, 'a %s is added without counting it' % verb, p):
                    continue
                v = norm(sets[-1].v)
                inc = norm(('bin', '+', ('a', me, cnt), c(1)))
                if v != inc:
                    # = 1 is right when the count was known to be zero
                    zero = any(b and t == ('cmp', '==', ('a', me, cnt), c(0)) or (not b and t == ('a', me, cnt)) or
                               (b is False and t == ('cmp', '<', c(0), ('a', me, cnt)))
                               for t, b in p.state.facts.items()) or \
                        v == norm(('call', ('b', 'len'), (('a', me, tbl),), (), 0))
                    okv = (int_of(v) == 1) or v == c(1) or zero or v[0] == 'call'
                    cx.check(okv, 'C04.counts', con, sets[-1].where, 'the number of %ss becomes %s' % (verb, show(v)), p)
                else:
                    cx.ok('C04.counts', con)
    cx.need('table growth sites', m, 3)


def growth(cx):
    """links of a freshly added DIFAT / mini FAT sector"""
    f = cx.prog.func('cfb.CompoundFileBinary.next_free_sect')
    me = ('p', f.params[0])
    n = 0
    for p in cx.paths(f, unroll=1, assume=True):
        if p.raised:
            continue
        app = [e for e in p.ev if e.kind == 'call' and e.name == 'append' and e.recv == ('a', me, 'difat')]
        for e in app:
            n += 1
            t = e.args[0]
            # terminator
            term = [x for x in p.ev if x.kind == 'setitem' and int_of(x.b) == -1 and (x.a == t or x.a[0] in ('list', 'obj', 'bin'))]
            lit = t[0] == 'bin' or (t[0] == 'list' and not t[1])
            if t[0] == 'list' and t[1]:
                cx.check(norm(t[1][-1]) == c(0xFFFFFFFE), 'C04.difat-chain', 'new DIFAT sector terminator', e.where,
                         'the last entry of a new DIFAT sector is %s, the chain does not end' % show(t[1][-1]), p)
                lit = True
                term = []
            link = [x for x in p.ev if x.kind == 'setitem' and int_of(x.b) == -1 and x.a != t and has_attr(x.a, 'difat') or
                    (x.kind == 'set' and x.a == me and x.b == 'difat_sector_start')]
            if not lit or term:
                cx.check(any(norm(x.v) == c(0xFFFFFFFE) for x in term) or contains(t, lambda s: s == c(0xFFFFFFFE)),
                         'C04.difat-chain', 'new DIFAT sector terminator', e.where, 'the last entry of a new DIFAT sector does not end the chain', p)
            cx.check(bool(link), 'C04.difat-chain', 'new DIFAT sector is linked', e.where, 'nothing points to the new DIFAT sector', p)
            mark = [x for x in p.ev if x.kind == 'setitem' and x.a == ('a', me, 'fat') and norm(x.v) == c(0xFFFFFFFC)]
            cx.check(bool(mark), 'C04.fat-marks', 'new DIFAT sector mark', e.where, 'the new DIFAT sector is not marked in the FAT', p)
            cd = conds(p)
            first = None
            for t_, b_ in cd.items():
                if t_ == ('cmp', '==', ('a', me, 'difat_sector_count'), c(0)):
                    first = b_
                elif t_ == ('a', me, 'difat_sector_count'):
                    first = not b_
            for x in link:
                if x.kind == 'setitem' and x.a[0] == 'i' and ends(x.a[1], 'difat'):
                    want = -1 if p.ev.index(x) < p.ev.index(e) else -2
                    k = int_of(x.a[2])
                    if k is not None:
                        cx.check(k == want, 'C04.difat-chain', 'new DIFAT sector is linked from the last one', x.where,
                                 'the link is stored in table %d, the chain grows at table %d' % (k, want), p)
                if first is not None:
                    cx.check((x.kind == 'set') == first, 'C04.difat-chain', 'new DIFAT sector is linked', x.where,
                             'the %s DIFAT sector is linked from %s' % (('first', 'the previous sector') if first else ('next', 'the header start field')), p)
                for y in mark:
                    cx.check(norm(x.v) == norm(y.b), 'C04.difat-chain', 'new DIFAT sector number', x.where,
                             'the DIFAT link points to %s, the sector marked is %s' % (show(x.v), show(y.b)), p)
        ext = [e for e in p.ev if e.kind == 'call' and e.name in ('extend',) and e.recv == ('a', me, 'fat')]
        for e in ext:
            mark = [x for x in p.ev if x.kind == 'setitem' and x.a == ('a', me, 'fat') and norm(x.v) == c(0xFFFFFFFD)]
            slot = [x for x in p.ev if x.kind == 'setitem' and x.a[0] == 'i' and ends(x.a[1], 'difat') and int_of(x.b) != -1]
            cx.check(bool(mark), 'C04.fat-marks', 'new FAT sector mark', e.where, 'the new FAT sector is not marked in the FAT', p)
            cx.check(bool(slot), 'C04.fat-marks', 'new FAT sector is listed', e.where, 'the new FAT sector is not entered in the DIFAT', p)
            for x in slot:
                for y in mark:
                    cx.check(norm(x.v) == norm(y.b), 'C04.fat-marks', 'new FAT sector number', x.where,
                             'the DIFAT lists %s, the sector marked is %s' % (show(x.v), show(y.b)), p)
    if not n:
        cx.unk('C04.difat-chain', 'next_free_sect', 'no DIFAT growth recognised')
    cx.check(True, 'C04.difat-chain', 'growth paths', f.where, '')


def run(cx):
    header(cx)
    tables(cx)
    difat(cx)
    bookkeeping(cx)
    growth(cx)
    widths(cx)


WIDTH = {'u8': (1, ''), 'u16le': (2, '<'), 'u16be': (2, '>'), 'u32le': (4, '<'), 'u32be': (4, '>'), 's32be': (4, '>'),
         'u64le': (8, '<'), 'u64be': (8, '>'), 's64be': (8, '>'), 's64le': (8, '<')}


def widths(cx):
    """the fixed width readers and writers mean what their names say"""
    m = cx.prog.module('utils')
    n = 0
    for name, f in sorted(m.funcs.items()):
        for pre in ('read_', 'write_', 'encode_', 'unpack_'):
            if not name.startswith(pre):
                continue
            k = name[len(pre):].replace('_from', '')
            if k not in WIDTH:
                continue
            width, order = WIDTH[k]
            signed = k.startswith('s')
            for p in cx.paths(f):
                if p.raised:
                    continue
                n += 1
                terms = [p.ret] + [a for e in p.ev for a in e.args]
                fm = [(fmt_of(s[2][0]), s) for t in terms for s in subterms(t)
                      if s[0] == 'call' and s[1][0] == 'ext' and s[1][1] in ('struct.pack', 'struct.unpack', 'struct.unpack_from') and s[2]]
                for fmt, s in fm:
                    if not fmt:
                        continue
                    o, b = norm_fmt(fmt)
                    good = fsize(fmt) == width and (order == '' or o == order) and (b.islower() == signed)
                    cx.check(good, 'C04.width', name, f.where, 'uses format %r' % fmt, p)
                for e in p.ev:
                    if e.kind == 'call' and e.name == 'read' and e.args:
                        cx.check(int_of(e.args[0]) == width, 'C04.width', name + ' size', e.where, 'reads %s bytes' % show(e.args[0]), p)
                if pre == 'unpack_' and not fm:
                    buf = ('p', f.params[0])
                    off = ('p', f.params[1])
                    from ..terms import poly
                    d = {}
                    okk = True
                    for mo, co in poly(norm(p.ret)).items():
                        if len(mo) == 1 and mo[0][0] == 'i' and mo[0][1] == buf:
                            o = int_of(norm(('bin', '-', mo[0][2], off)))
                            d[o] = co
                        else:
                            okk = False
                    if okk and None not in d:
                        cx.check(d == {i: 256 ** i for i in range(width)}, 'C04.width', name, f.where,
                                 'assembles bytes %s' % sorted(d.items()), p)
    cx.need('fixed width codecs', n, 10)
