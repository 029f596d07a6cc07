"""Reading byte layouts out of terms and events."""
import struct as _struct
from ..terms import *

FMT = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}


def fmt_of(t):
    """Struct format string held by a term (str/bytes constant, str(...) of one)."""
    if t is None:
        return None
    if is_c(t):
        v = cval(t)
        if isinstance(v, bytes):
            v = v.decode('ascii', 'replace')
        return v if isinstance(v, str) else None
    if t[0] == 'call' and t[1] == ('b', 'str') and t[2]:
        return fmt_of(t[2][0])
    return None


def fsize(fmt):
    try:
        return _struct.calcsize(fmt)
    except _struct.error:
        return None


def norm_fmt(fmt):
    """'<H' -> ('<','H'); single byte formats have no order."""
    order = fmt[0] if fmt[:1] in '<>=!@' else '@'
    body = fmt[1:] if fmt[:1] in '<>=!@' else fmt
    order = {'!': '>', '=': '<', '@': '<'}.get(order, order)
    if body in ('B', 'b', 'c'):
        order = ''
    return order, body


def is_const_int(t, v=None):
    return is_c(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool) and (v is None or cval(t) == v)


def int_of(t):
    t = norm(t)
    if is_c(t) and isinstance(cval(t), int):
        return int(cval(t))
    return None


def slice_bounds(i, size=None):
    """('slice',lo,hi,step) -> (lo, hi) terms"""
    if i[0] != 'slice':
        return None
    lo = c(0) if i[1] == NONE else norm(i[1])
    hi = None if i[2] == NONE else norm(i[2])
    return lo, hi


def le_parts(t, buf):
    """{offset: factor} when t is a sum (or, with distinct factors, a union) of scaled bytes of buf"""
    t = norm(t)
    if is_const_int(t, 0):
        return {}
    if t[0] == 'i' and t[1] == buf:
        o = int_of(t[2])
        return None if o is None else {o: 1}
    if t[0] == 'bin' and t[1] == '|':
        x, y = le_parts(t[2], buf), le_parts(t[3], buf)
        if x is None or y is None or set(x) & set(y) or set(x.values()) & set(y.values()):
            return None
        return dict(list(x.items()) + list(y.items()))
    if t[0] == 'bin' and t[1] in ('&',) and is_const_int(norm(t[3]), 255):
        x = le_parts(t[2], buf)
        return x if x is not None and list(x.values()) == [1] else None
    if t[0] == 'poly':
        out = {}
        for m, co in t[1]:
            if len(m) != 1:
                return None
            x = le_parts(m[0], buf) if m[0][0] in ('i', 'bin') else None
            if x is None or set(x) & set(out):
                return None
            for o, f in x.items():
                out[o] = f * co
        return out
    return None


def le_interval(t, buf):
    """Term that assembles bytes of `buf` little endian -> (offset, width)."""
    t = norm(t)
    if t[0] == 'i' and t[1] == buf:
        o = int_of(t[2])
        if o is not None:
            return o, 1
    if t[0] in ('poly', 'bin'):
        offs = le_parts(t, buf)
        if offs:
            lo = min(offs)
            n = len(offs)
            if all(offs.get(lo + k) == 256 ** k for k in range(n)):
                return lo, n
        if t[0] == 'poly':
            return None
    # struct.unpack_from(fmt, buf, off)[0]
    if t[0] == 'i' and is_const_int(t[2], 0) and t[1][0] == 'call':
        cl = t[1]
        n = cl[1][1].split('.')[-1] if cl[1][0] == 'ext' else None
        if n == 'unpack_from' and len(cl[2]) >= 2 and strip_bytes(cl[2][1]) == buf:
            f = fmt_of(cl[2][0])
            o = int_of(cl[2][2]) if len(cl[2]) > 2 else 0
            if f and o is not None:
                o_, b = norm_fmt(f)
                if o_ in ('<', ''):
                    return o, fsize(f)
        if n == 'unpack' and len(cl[2]) == 2:
            f = fmt_of(cl[2][0])
            s = strip_bytes(cl[2][1])
            if f and s[0] == 'i' and s[1] == buf and s[2][0] == 'slice':
                lo, hi = slice_bounds(s[2])
                lo, hi = int_of(lo), int_of(hi) if hi is not None else None
                if lo is not None and hi is not None and hi - lo == fsize(f) and norm_fmt(f)[0] in ('<', ''):
                    return lo, hi - lo
    # int.from_bytes(buf[a:b], 'little')
    if t[0] == 'call' and t[1] == ('a', ('b', 'int'), 'from_bytes') and t[2]:
        s = strip_bytes(t[2][0])
        order = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('byteorder')
        if s[0] == 'i' and s[1] == buf and s[2][0] == 'slice' and order == c('little'):
            lo, hi = slice_bounds(s[2])
            if hi is not None and int_of(lo) is not None and int_of(hi) is not None:
                return int_of(lo), int_of(hi) - int_of(lo)
    return None


def strip_bytes(t):
    while t[0] == 'call' and t[1] in (('b', 'bytes'), ('b', 'bytearray'), ('b', 'memoryview')) and len(t[2]) == 1:
        t = t[2][0]
    return t


def slices_of(t, buf):
    """constant slices of buf appearing in t"""
    out = set()
    for s in subterms(t):
        if s[0] == 'i' and s[1] == buf:
            if s[2][0] == 'slice':
                b = slice_bounds(s[2])
                out.add((show(b[0]), show(b[1]) if b[1] is not None else None))
            else:
                out.add((show(norm(s[2])), show(norm(('bin', '+', s[2], c(1))))))
    return out


def all_reads(t, buf, out=None):
    """Maximal little endian integer reads and slices of buf in t: [(lo, hi)]"""
    out = [] if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    if isinstance(t[0], str):
        if t[0] == 'c':
            return out
        iv = le_interval(t, buf) if t[0] in ('bin', 'poly', 'i', 'call') else None
        if iv:
            out.append((iv[0], iv[0] + iv[1]))
            return out
        if t[0] == 'i' and t[1] == buf and t[2][0] == 'slice':
            lo, hi = slice_bounds(t[2])
            out.append((int_of(lo), int_of(hi) if hi is not None else None))
            return out
        if t[0] == 'poly':
            for m, co in t[1]:
                for a in m:
                    all_reads(a, buf, out)
            return out
    for x in t[1:] if isinstance(t[0], str) else t:
        if isinstance(x, tuple):
            all_reads(x, buf, out)
    return out
