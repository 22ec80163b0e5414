"""Memory and runtime of the LLVM-IR symbolic executor."""
import bisect
import math
import struct

import numpy as np

from . import val as V
from .val import H, UNDEF, Cat, Half, Undef, Unsupported, UninitUse, F32, Sym

M64 = (1 << 64) - 1
# cell codes: 1 i8  2 i16  3 i32  4 i64/ptr  5 f32  6 f64
SZ = (0, 1, 2, 4, 8, 4, 8)


class MemError(Exception):
    """out-of-bounds access, use after free, bad free"""


class CxxThrow(Exception):
    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class Trap(Exception):
    pass


class Limit(Exception):
    """path exceeds the step bound"""


M = {}            # addr -> (code, value)
O_base = []       # sorted object bases
O = {}            # base -> [size, alive, fills|None, odd, kind]
state = {'top': 0x40000000, 'gtop': 0x10000}
BASE = {}          # snapshot taken after start-up
exc_msg = {}      # exception object -> message
WATCH = {'race': None}


def alloc(n, kind='h'):
    a = state['top']
    if n > 1 << 31:
        raise CxxThrow(0, 'St9bad_alloc')
    state['top'] = a + ((n + 15) & ~15) + 32
    O_base.append(a)
    O[a] = [n, True, None, False, kind]
    return a


def galloc(n):
    """globals live below the heap, so that they can appear after start-up without moving it"""
    a = state['gtop']
    state['gtop'] = a + ((n + 15) & ~15) + 32
    bisect.insort(O_base, a)
    O[a] = [n, True, None, False, 'g']
    return a


def greg(a):
    """a global created after the snapshot belongs to the initial state of every path"""
    if BASE:
        o = O[a]
        BASE['O'][a] = [list(x) if isinstance(x, list) else x for x in o]
        bisect.insort(BASE['Ob'], a)
        for x in range(a, a + o[0]):
            c = M.get(x)
            if c is not None:
                BASE['M'][x] = c


def ALLOCA(n):
    a = state['top']
    state['top'] = a + ((n + 15) & ~15) + 16
    O_base.append(a)
    O[a] = [n, True, None, False, 's']
    return a


def find(a):
    i = bisect.bisect_right(O_base, a) - 1
    if i < 0:
        raise MemError(f'access to unmapped address {a:#x}')
    b = O_base[i]
    o = O[b]
    return b, o


def own(a, n):
    b, o = find(a)
    if a + n > b + o[0]:
        raise MemError(f'out-of-bounds access: {n} bytes at offset {a-b} of a {o[0]}-byte object')
    if not o[1]:
        raise MemError(f'use after free: {n} bytes at offset {a-b} of a freed {o[0]}-byte object')
    return b, o


def _wipe(a, n):
    """forget cells overlapping [a, a+n); split those that straddle"""
    for x in range(a - 7, a + n):
        c = M.get(x)
        if c is None:
            continue
        s = SZ[c[0]]
        if x + s <= a:
            continue
        if x >= a and x + s <= a + n:
            del M[x]
            continue
        # straddles: split
        _split(x, c)
        for y in list(range(max(x, a), min(x + s, a + n))):
            M.pop(y, None)


def _split(x, c):
    """replace an 8/4/2-byte cell by smaller ones"""
    code, v = c
    s = SZ[code]
    del M[x]
    if s == 8:
        if type(v) is Cat:
            M[x] = v.parts[0]
            M[x + 4] = v.parts[1]
            return
        if isinstance(v, Undef):
            M[x] = (3, UNDEF)
            M[x + 4] = (3, UNDEF)
            return
        if code == 6:
            if type(v) is float:
                v = struct.unpack('<Q', struct.pack('<d', v))[0]
            else:
                raise Unsupported('splitting a symbolic double')
        if type(v) is bool:
            v = int(v)
        if type(v) is int:
            M[x] = (3, v & 0xffffffff)
            M[x + 4] = (3, (v >> 32) & 0xffffffff)
        else:
            u = V.asU(v, 64)
            M[x] = (3, V.i_and(u, 0xffffffff, 64))
            M[x + 4] = (3, V.i_lshr(u, 32, 64))
        b, o = find(x)
        return
    if code == 5:
        if type(v) is Half:
            raise Unsupported('splitting half')
        if type(v) is float:
            v = _f2i(v)
        elif isinstance(v, Undef):
            pass
        else:
            raise Unsupported('splitting a symbolic float into bytes')
    if type(v) is Half:
        p = v.part
        if p[0] == 3:
            v = p[1]
        elif type(p[1]) is float:
            v = _f2i(p[1])
        else:
            raise Unsupported('splitting a symbolic float into bytes')
    find(x)[1][3] = True
    for k in range(s):
        if isinstance(v, Undef):
            M[x + k] = (1, UNDEF)
        elif type(v) is int:
            M[x + k] = (1, (v >> (8 * k)) & 0xff)
        else:
            M[x + k] = (1, V.i_and(V.i_lshr(v, 8 * k, s * 8), 0xff, s * 8))


def _f2i(v):
    return struct.unpack('<I', struct.pack('<f', v))[0]


def _i2f(v):
    return struct.unpack('<f', struct.pack('<I', v))[0]


def _i2d(v):
    return struct.unpack('<d', struct.pack('<Q', v))[0]


def addr(a):
    if type(a) is int:
        return a
    if isinstance(a, Undef):
        raise UninitUse('uninitialised pointer')
    return H.cur.conc(a) & M64


def LD(a, code):
    """slow-path load"""
    a = addr(a)
    c = M.get(a)
    if c is not None and c[0] == code:
        return c[1]
    n = SZ[code]
    b, o = own(a, n)
    if c is not None and SZ[c[0]] == n:
        v = _conv(c, code)
        return v
    if c is None:
        # plain missing cell (not inside or overlapping another one)?
        over = False
        for x in range(a - 7, a + n):
            d = M.get(x)
            if d is not None and x + SZ[d[0]] > a:
                over = True
                break
        if not over:
            f = _fill(o, a, n)
            if f is None:
                return UNDEF
            v = f * (0x0101010101010101 & ((1 << (8 * n)) - 1))
            v = _conv(({1: 1, 2: 2, 4: 3, 8: 4}[n], v), code)
            M[a] = (code, v)
            if n < 4:
                o[3] = True
            return v
    # mixed: assemble
    if n == 8:
        lo = _ld4(a)
        hi = _ld4(a + 4)
        return _conv((4, _cat(lo, hi)), code)
    if n == 4:
        return _conv(_ld4(a), code)
    return _bytes_ld(a, n)


def _ld4(a):
    """the 4-byte cell at a"""
    c = M.get(a)
    if c is not None and SZ[c[0]] == 4:
        return c
    if c is not None and SZ[c[0]] == 8:
        _split(a, c)
        return M[a]
    c2 = M.get(a - 4)
    if c2 is not None and SZ[c2[0]] == 8:
        _split(a - 4, c2)
        return M[a]
    over = False
    for x in range(a - 7, a + 4):
        d = M.get(x)
        if d is not None and x + SZ[d[0]] > a:
            over = True
    if not over:
        return (3, LD(a, 3))
    return (3, _bytes_ld(a, 4))


def _bytes_ld(a, n):
    for x in range(a - 7, a + n):
        d = M.get(x)
        if d is not None and SZ[d[0]] > 1 and x + SZ[d[0]] > a:
            _split(x, d)
            d = M.get(x)
            while d is not None and SZ[d[0]] > 1:
                _split(x, d)
                d = M.get(x)
            for y in (x + 4,):
                d = M.get(y)
                if d is not None and SZ[d[0]] > 1 and y < a + n:
                    _split(y, d)
    r = 0
    for k in range(n):
        v = LD(a + k, 1)
        if isinstance(v, Undef):
            return UNDEF
        if type(v) is not int and type(v) is not bool:
            if n == 1:
                return v
            r = V.i_add(r, V.i_shl(v, 8 * k, 64), 64) if k else v
        else:
            r = r + (int(v) << (8 * k)) if type(r) is int else V.i_add(r, int(v) << (8 * k), 64)
    return r


def _cat(lo, hi):
    l, h = lo[1], hi[1]
    if lo[0] == 3 and hi[0] == 3 and type(l) is int and type(h) is int:
        return l | (h << 32)
    if isinstance(l, Undef) and isinstance(h, Undef):
        return UNDEF
    if lo[0] == 5 and hi[0] == 5 and type(l) is float and type(h) is float:
        return Cat((lo, hi))
    if lo[0] == 3 and hi[0] == 3 and not isinstance(l, (Undef, Half)) and not isinstance(h, (Undef, Half)):
        return Cat((lo, hi))
    return Cat((lo, hi))


def _conv(c, code):
    """reinterpret a same-size cell"""
    k, v = c
    if k == code:
        return v
    if isinstance(v, Undef):
        return v
    if code == 3 and k == 5:
        return _f2i(v) if type(v) is float else Half((5, v))
    if code == 5 and k == 3:
        if type(v) is Half:
            return v.part[1] if v.part[0] == 5 else _conv(v.part, 5)
        if type(v) is int:
            return _i2f(v)
        if type(v) is bool:
            return _i2f(int(v))
        raise Unsupported('integer bits reinterpreted as float')
    if code == 6 and k == 4:
        if type(v) is int:
            return _i2d(v)
        if type(v) is Cat:
            l = _conv(v.parts[0], 3)
            h = _conv(v.parts[1], 3)
            if type(l) is int and type(h) is int:
                return _i2d(l | h << 32)
        raise Unsupported('integer bits reinterpreted as double')
    if code == 4 and k == 6:
        if type(v) is float:
            return struct.unpack('<Q', struct.pack('<d', v))[0]
        raise Unsupported('double bits reinterpreted as integer')
    if code == 3 and k == 3:
        return v
    raise Unsupported(f'cell conversion {k}->{code}')


def _fill(o, a, n):
    if o[2]:
        for s, e, f in reversed(o[2]):
            if s <= a and a + n <= e:
                return f
            if s < a + n and a < e:
                # partial
                return None
    return None


def ST(a, code, v):
    """slow-path store"""
    a = addr(a)
    n = SZ[code]
    c = M.get(a)
    if c is not None and SZ[c[0]] == n:
        M[a] = (code, v)
        return
    b, o = own(a, n)
    if o[4] == 'c':
        raise MemError('write to constant data')
    if n < 4:
        o[3] = True
    _wipe(a, n)
    M[a] = (code, v)


def STR(a, code, v):
    """recorded store (race mode)"""
    a = addr(a)
    w = WATCH['race']
    if w is not None:
        w.write(a, SZ[code], (code, v))
    ST(a, code, v)


def LDR(a, code):
    a = addr(a)
    w = WATCH['race']
    if w is not None:
        w.read(a, SZ[code])
    return LD(a, code)


MANY = 'several'


class Race:
    """conflicting accesses of two workers within one parallel region; cell -> [writer, the one value written, reader, several readers, changed]"""

    def __init__(self):
        self.levels = []
        self.sync = 0
        self.found = None

    def begin(self):
        self.levels.append([{}, None, None])     # cells, worker, end of the memory that existed when its chunk began

    def chunk(self, tid):
        l = self.levels[-1]
        l[1], l[2] = tid, state['top']

    def end(self):
        self.levels.pop()

    def cells(self, a, n):
        if n < 4 or a & 3 or n & 3:
            return [(x,) for x in range(a, a + n)]
        return range(a, a + n, 4)

    def read(self, a, n):
        if not self.levels or self.sync:
            return
        for m, t, top in self.levels:
            if t is None or a >= top:
                continue
            for x in self.cells(a, n):
                c = m.get(x)
                if c is None:
                    m[x] = [None, None, t, False, False]
                    continue
                if c[4] and c[0] != t:
                    self.hit(a, 'read', t, c[0])
                if c[2] is None:
                    c[2] = t
                elif c[2] != t:
                    c[3] = True

    def write(self, a, n, v=None):
        """several workers may store one and the same value"""
        if not self.levels or self.sync:
            return
        o = M.get(a)
        same = o is not None and v is not None and self.eq(o, v)
        for m, t, top in self.levels:
            if t is None or a >= top:
                continue
            for x in self.cells(a, n):
                c = m.get(x)
                if c is None:
                    m[x] = [t, v, None, False, not same]
                    continue
                if not same:
                    if c[2] is not None and (c[3] or c[2] != t):
                        self.hit(a, 'write', t, c[2])
                    c[4] = True
                if c[0] is None:
                    c[0], c[1] = t, v
                    continue
                if c[1] is not None and (v is None or not self.eq(c[1], v)):
                    c[1] = None
                if c[0] != t:
                    if c[1] is None:
                        self.hit(a, 'write', t, c[0])
                    c[0] = MANY

    @staticmethod
    def eq(o, v):
        return o[0] == v[0] and (o[1] is v[1] or type(o[1]) is type(v[1]) and type(v[1]) in (int, float) and o[1] == v[1])

    def hit(self, a, what, t, u):
        if self.found is None:
            self.found = (what, t, u)
            H.cur.race(a, what, t, u)


def memset(a, v, n):
    a = addr(a)
    n = H.cur.conc(n) if type(n) is not int else n
    if n == 0:
        return
    b, o = own(a, n)
    w = WATCH['race']
    if type(v) is not int:
        v = H.cur.conc(v)
    if w is not None:
        w.write(a, n, ('memset', v & 255))
    if n <= 64:
        _wipe(a, n)
    else:
        if o[3] or a & 3 or n & 3:
            _wipe(a, n)
        else:
            _wipe(a, 4)
            _wipe(a + n - 4, 4)
            pop = M.pop
            for x in range(a, a + n, 4):
                pop(x, None)
    o[2] = (o[2] or []) + [(a, a + n, v & 0xff)] if not (a == b and n == o[0]) else [(a, a + n, v & 0xff)]


def memcpy(d, s, n):
    d = addr(d)
    s = addr(s)
    n = H.cur.conc(n) if type(n) is not int else n
    if n == 0 or d == s:
        return
    w = WATCH['race']
    if w is not None:
        w.read(s, n)
        w.write(d, n)
    sb, so = own(s, n)
    db, do = own(d, n)
    out = []
    a = s
    e = s + n
    # straddling first cell
    c = M.get(a)
    if c is None:
        for x in range(a - 7, a):
            y = M.get(x)
            if y is not None and x + SZ[y[0]] > a:
                _split(x, y)
    odd = so[3] or (s | n | d) & 3
    while a < e:
        c = M.get(a)
        if c is not None:
            z = SZ[c[0]]
            if a + z <= e:
                out.append((a - s, c))
                a += z
                continue
            _split(a, c)
            continue
        f = _fill(so, a, 1) if so[2] else None
        if f is None:
            a += 1 if odd or (a & 3) else 4
            continue
        # filled run: emit 4-byte / 1-byte cells
        if not odd and a & 3 == 0 and a + 4 <= e and M.get(a + 1) is None and M.get(a + 2) is None and M.get(a + 3) is None:
            out.append((a - s, (3, f * 0x01010101)))
            a += 4
        else:
            out.append((a - s, (1, f)))
            a += 1
    if n <= 64 or do[3] or odd:
        _wipe(d, n)
    else:
        _wipe(d, 4)
        _wipe(d + n - 4, 4)
        for x in range(d, d + n, 4):
            M.pop(x, None)
    if do[2]:
        # bytes not produced by the source become undefined: shadow fills
        nf = []
        for (fs, fe, fv) in do[2]:
            if fe <= d or fs >= d + n:
                nf.append((fs, fe, fv))
            else:
                if fs < d:
                    nf.append((fs, d, fv))
                if fe > d + n:
                    nf.append((d + n, fe, fv))
        do[2] = nf
    for k, c in out:
        M[d + k] = c
        if SZ[c[0]] < 4:
            do[3] = True


def free(a):
    a = addr(a)
    if a == 0:
        return
    o = O.get(a)
    if o is None or o[4] != 'h':
        raise MemError('free of a pointer that is not a live heap block')
    if not o[1]:
        raise MemError('double free')
    o[1] = False
    n = o[0]
    pop = M.pop
    if o[3]:
        for x in range(a, a + n):
            pop(x, None)
    else:
        for x in range(a, a + n, 4):
            pop(x, None)
    o[2] = None


# helpers for externals ---------------------------------------------------------------------------
def rd_bytes(a, n):
    out = bytearray()
    for k in range(n):
        v = _byte(a + k)
        out.append(int(v) & 0xff)
    return bytes(out)


def _byte(a):
    c = M.get(a)
    if c is not None and c[0] == 1:
        return c[1]
    v = _bytes_ld(a, 1)
    if type(v) is int:
        return v
    return H.cur.conc(v)


def rd_cstr(a):
    out = bytearray()
    while True:
        v = _byte(a)
        if v == 0:
            return out.decode('latin1')
        out.append(v & 0xff)
        a += 1


def wr_bytes(a, bs):
    own(a, len(bs)) if bs else None
    for k, x in enumerate(bs):
        ST(a + k, 1, x)


def ld(a, code):
    c = M.get(a)
    if c is not None and c[0] == code:
        return c[1]
    return LD(a, code)


# std::string
def str_get(s):
    p = ld(s, 4)
    n = ld(s + 8, 4)
    return rd_bytes(p, n)


def str_set(s, bs, fresh=False):
    n = len(bs)
    p = s + 16 if fresh else ld(s, 4)
    if p == s + 16:
        if n > 15:
            p = alloc(n + 1)
            ST(s, 4, p)
            ST(s + 16, 4, n)
        else:
            ST(s, 4, p)
    else:
        cap = ld(s + 16, 4)
        if n > cap:
            free(p)
            p = alloc(n + 1)
            ST(s, 4, p)
            ST(s + 16, 4, n)
    wr_bytes(p, bs + b'\0')
    ST(s + 8, 4, n)


# ------------------------------------------------------------------------------------------------
TI_BASES = {
    'St16invalid_argument': 'St11logic_error', 'St12out_of_range': 'St11logic_error', 'St12domain_error': 'St11logic_error',
    'St12length_error': 'St11logic_error', 'St11logic_error': 'St9exception', 'St13runtime_error': 'St9exception',
    'St11range_error': 'St13runtime_error', 'St14overflow_error': 'St13runtime_error', 'St9bad_alloc': 'St9exception',
    'St20bad_array_new_length': 'St9bad_alloc', 'St17bad_function_call': 'St9exception', 'St8bad_cast': 'St9exception',
    'St9exception': None, 'St15underflow_error': 'St13runtime_error',
}
PYEXC = {'St16invalid_argument': ValueError, 'St12domain_error': ValueError, 'St12length_error': ValueError,
         'St12out_of_range': IndexError, 'St9bad_alloc': MemoryError, 'St20bad_array_new_length': MemoryError,
         'St14overflow_error': OverflowError, 'St11range_error': ValueError, 'St8bad_cast': RuntimeError}


def ti_chain(name):
    out = []
    while name:
        out.append(name)
        name = TI_BASES.get(name)
    return out
