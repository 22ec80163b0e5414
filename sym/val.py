"""Symbolic values.

Everything symbolic is a function of finitely many *index* variables (z3 bit-vectors):
  T   exact finite function table over ONE index (int / float / bool valued)
  SI  bounded mathematical integer (z3 signed bit-vector, tracked bounds)
  LF  lattice float  n * 2**e  (n a SI): exact binary floating point value
  SB  z3 Bool
and, in the real-number mode,
  RT  z3 Real term (floating point rounding idealised away)
A T over the index of a SI is how non-linear / inexact functions of multi-variable values are
represented (the table holds the exactly rounded results of the C operation).
"""
import ctypes
import math
from fractions import Fraction

import numpy as np
import z3

np.seterr(all='ignore')
_cf = ctypes.c_float
TABMAX = 1 << 16
PRODMAX = 1 << 16
PSMALL = 1 << 10


class Unsupported(Exception):
    """the encoding cannot represent this step"""


class UninitUse(Exception):
    """a value that was never written is used"""


class CtxHolder:
    cur = None


H = CtxHolder()


class Sym:
    __slots__ = ()
    __array_priority__ = 1000
    __array_ufunc__ = None


# ------------------------------------------------------------------ index
class Idx:
    _n = 0

    def __init__(self, D, term, w, name=None):
        self.D = D
        self.term = term
        self.w = w
        self.name = name
        self.prod = None
        Idx._n += 1
        self.id = Idx._n
        self.c = {}          # per-index caches


def mkvar(name, D):
    w = max(1, (D - 1).bit_length())
    return Idx(D, z3.BitVec(name, w), w, name)


_keep = []
_didx = {}


def idx_of_si(x):
    """derived index for a SI: term - lo in 0..hi-lo"""
    key = (x.t.get_id(), x.w, x.lo, x.hi)
    r = _didx.get(key)
    if r is None:
        D = x.hi - x.lo + 1
        w = max(1, (D - 1).bit_length())
        ww = max(w, x.w) + 1
        t = _ext(x, ww) - z3.BitVecVal(x.lo, ww)
        t = z3.simplify(z3.Extract(w - 1, 0, t))
        r = Idx(D, t, w)
        r.base = x
        _keep.append(x.t)
        _didx[key] = r
    return r


def idx_prod(a, b):
    key = ('p', a.id, b.id)
    r = _didx.get(key)
    if r is None:
        D = a.D * b.D
        w = max(1, (D - 1).bit_length())
        t = z3.ZeroExt(w - a.w, a.term) * z3.BitVecVal(b.D, w) + z3.ZeroExt(w - b.w, b.term) if w > max(a.w, b.w) else None
        if t is None:
            ta = z3.ZeroExt(w - a.w, a.term) if w > a.w else a.term
            tb = z3.ZeroExt(w - b.w, b.term) if w > b.w else b.term
            t = ta * z3.BitVecVal(b.D, w) + tb
        r = Idx(D, t, w)
        r.prod = (a, b)
        _didx[key] = r
    return r


def _need(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


# ------------------------------------------------------------------ bool
class SB(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return H.cur.decide(self)

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        return mkb(z3.And(self.t, sbt(o)))
    __rand__ = __and__

    def __or__(self, o):
        if o is True:
            return True
        if o is False:
            return self
        return mkb(z3.Or(self.t, sbt(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if o is True:
            return NOT(self)
        if o is False:
            return self
        return mkb(z3.Xor(self.t, sbt(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return NOT(self)

    def __eq__(self, o):
        return NOT(self ^ o) if isinstance(o, (bool, np.bool_, SB, T)) else i_cmp('eq', b2i(self), o, 64)

    def __ne__(self, o):
        return self ^ o if isinstance(o, (bool, np.bool_, SB, T)) else NOT(self == o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return f'SB({self.t})'


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SB(t)


def sbt(x):
    """z3 Bool of a boolean value"""
    if isinstance(x, SB):
        return x.t
    if isinstance(x, T):
        return t_to_bool(x)
    return z3.BoolVal(bool(x))


def NOT(x):
    if isinstance(x, SB):
        t = x.t
        if z3.is_not(t):
            return SB(t.arg(0))
        return SB(z3.Not(t))
    if isinstance(x, T):
        return T(x.idx, ~x.a.astype(bool), 'b')
    return not x


def AND(*xs):
    r = True
    for x in xs:
        r = b_and(r, x)
        if r is False:
            return False
    return r


def OR(*xs):
    r = False
    for x in xs:
        r = b_or(r, x)
        if r is True:
            return True
    return r


def _pb(x):
    return x if isinstance(x, Sym) else bool(x)


def b_and(a, b):
    a = _pb(a)
    b = _pb(b)
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx:
        return mkT(a.idx, a.a & b.a, 'b')
    return mkb(z3.And(sbt(a), sbt(b)))


def b_or(a, b):
    a = _pb(a)
    b = _pb(b)
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx:
        return mkT(a.idx, a.a | b.a, 'b')
    return mkb(z3.Or(sbt(a), sbt(b)))


def b_xor(a, b):
    a = _pb(a)
    b = _pb(b)
    if isinstance(a, bool):
        return NOT(b) if a else b
    if isinstance(b, bool):
        return NOT(a) if b else a
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx:
        return mkT(a.idx, a.a ^ b.a, 'b')
    return mkb(z3.Xor(sbt(a), sbt(b)))


def b2i(x):
    if isinstance(x, T):
        return T(x.idx, x.a.astype(np.int64), 'i')
    if isinstance(x, SB):
        return SI(z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 2, 0, 1)
    return int(x)


# ------------------------------------------------------------------ tables
class T(Sym):
    __slots__ = ('idx', 'a', 'k', 'alt')

    def __init__(self, idx, a, k):
        self.idx = idx
        self.a = a
        self.k = k
        self.alt = None      # (op, a, b): how a table over a product index was made

    def __bool__(self):
        if self.k == 'b':
            return H.cur.decide(self)
        if self.k == 'i':
            return H.cur.decide(mkT(self.idx, self.a != 0, 'b'))
        return H.cur.decide(mkT(self.idx, self.a != 0.0, 'b'))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'T<{self.k}:{self.idx.name or self.idx.id}:{self.idx.D}>'

    def r32(self):
        if self.k != 'f':
            raise Unsupported('r32 of int table')
        r = self.a.astype(np.float32).astype(np.float64)
        if self.alt is not None and (r == self.a).all():
            return self
        return mkT(self.idx, r, 'f')


def mkT(idx, a, k):
    if a.size and (a[0] == a[-1]) and (a == a[0]).all():
        v = a[0]
        return bool(v) if k == 'b' else int(v) if k == 'i' else float(v)
    return T(idx, a, k)


def mkTa(idx, a, op, x, y):
    r = mkT(idx, a, 'f')
    if type(r) is T and idx.prod is not None:
        r.alt = (op, x, y)
    return r


def _runs(mask):
    d = np.flatnonzero(np.diff(np.concatenate(([0], mask.view(np.int8), [0]))))
    return [(int(d[i]), int(d[i + 1]) - 1) for i in range(0, len(d), 2)]


def t_to_bool(x):
    """z3 Bool for a boolean table"""
    if x.k == 'i':
        x = T(x.idx, x.a != 0, 'b')
    idx = x.idx
    key = ('b', x.a.tobytes())
    r = idx.c.get(key)
    if r is None:
        mask = np.asarray(x.a, dtype=bool)
        m = H.cur.mask_of(idx) if H.cur is not None else None
        tr = _runs(mask)
        fr = _runs(~mask)
        neg = len(fr) < len(tr)
        rs = fr if neg else tr
        t = idx.term
        w = idx.w
        top = (1 << w) - 1
        parts = []
        for l, h in rs:
            c = []
            if l == h:
                parts.append(t == z3.BitVecVal(l, w))
                continue
            if l > 0:
                c.append(z3.UGE(t, z3.BitVecVal(l, w)))
            if h < idx.D - 1 and h < top:
                c.append(z3.ULE(t, z3.BitVecVal(h, w)))
            parts.append(z3.And(c) if len(c) > 1 else c[0] if c else z3.BoolVal(True))
        r = z3.Or(parts) if len(parts) > 1 else parts[0] if parts else z3.BoolVal(False)
        if neg:
            r = z3.Not(r)
        idx.c[key] = r
    return r


def t_to_si(x):
    """SI for an int (or bool) table"""
    if x.k == 'b':
        return b2i(SB(t_to_bool(x)))
    idx = x.idx
    key = ('i', x.a.tobytes())
    r = idx.c.get(key)
    if r is not None:
        return r
    a = x.a
    lo = int(a.min())
    hi = int(a.max())
    w = _need(lo, hi)
    n = len(a)
    pieces = []
    i = 0
    al = a.tolist()
    while i < n:
        j = i + 1
        if j < n:
            d = al[j] - al[i]
            while j + 1 < n and al[j + 1] - al[j] == d:
                j += 1
            if j - i == 1 and d != 0 and n > 2:
                # two-point piece: fine, but prefer single when next continues elsewhere
                if j + 1 < n and j + 2 < n and al[j + 2] - al[j + 1] == al[j + 1] - al[j]:
                    pieces.append((i, i, 0, al[i]))
                    i += 1
                    continue
            pieces.append((i, j, d, al[i] - d * i))
            i = j + 1
        else:
            pieces.append((i, i, 0, al[i]))
            i += 1

    def leaf(p):
        l, h, d, c = p
        if d == 0:
            return z3.BitVecVal(c & ((1 << w) - 1), w)
        # d*idx + c  mod 2^w is right because the result fits
        t = idx.term
        ww = w
        if idx.w < w:
            t = z3.ZeroExt(w - idx.w, t)
        elif idx.w > w:
            t = z3.Extract(w - 1, 0, t)
        if d == 1:
            r = t
        elif d > 0 and (d & (d - 1)) == 0:
            r = t << (d.bit_length() - 1)
        else:
            r = t * z3.BitVecVal(d & ((1 << w) - 1), w)
        cc = c & ((1 << w) - 1)
        return r + z3.BitVecVal(cc, w) if cc else r

    def build(ps):
        if len(ps) == 1:
            return leaf(ps[0])
        m = len(ps) // 2
        return z3.If(z3.ULT(idx.term, z3.BitVecVal(ps[m][0], idx.w)), build(ps[:m]), build(ps[m:]))
    r = SI(build(pieces), w, lo, hi)
    idx.c[key] = r
    return r


class NoEntry:
    pass




def lattice_of(a):
    """(ints, e) with a == ints*2**e exactly, or None"""
    if not np.isfinite(a).all():
        return None
    nz = a[a != 0]
    if nz.size == 0:
        return np.zeros(a.shape, np.int64), 0
    m, e = np.frexp(nz)
    mi = np.abs(m * (1 << 53)).astype(np.int64)
    low = mi & -mi
    tz = np.log2(low.astype(np.float64)).astype(np.int64)
    emin = int((e - 53 + tz).min())
    sc = a * 2.0 ** (-emin) if -1000 < emin < 1000 else None
    if sc is None or np.abs(sc).max() > 2 ** 40:
        return None
    return sc.astype(np.int64), emin


def t_to_lf(x):
    if x.k == 'i':
        return LF(t_to_si(x), 0)
    if x.alt is not None:
        r = lf_bin(*x.alt)
        if r is not None:
            return r
    key = ('l', x.a.tobytes())
    r = x.idx.c.get(key, NoEntry)
    if r is NoEntry:
        l = lattice_of(x.a)
        if l is None or np.abs(l[0]).max() >= 1 << 31:
            r = None
        else:
            n, e = l
            if (n == n[0]).all():
                r = float(n[0]) * 2.0 ** e
            else:
                r = LF(t_to_si(T(x.idx, n, 'i')), e)
        x.idx.c[key] = r
    return r


# ------------------------------------------------------------------ bounded ints
class SI(Sym):
    __slots__ = ('t', 'w', 'lo', 'hi')

    def __init__(self, t, w, lo, hi):
        self.t = t
        self.w = w
        self.lo = lo
        self.hi = hi

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return H.cur.decide(i_cmp('ne', self, 0, 64))

    def __repr__(self):
        return f'SI[{self.lo},{self.hi}]'


def _ext(x, w):
    d = w - x.w
    if d == 0:
        return x.t
    if d > 0:
        return z3.SignExt(d, x.t)
    return z3.Extract(w - 1, 0, x.t)


def toSI(x):
    if isinstance(x, SI):
        return x
    if isinstance(x, T):
        return t_to_si(x)
    if isinstance(x, SB):
        return b2i(x)
    x = int(x)
    w = _need(x, x)
    return SI(z3.BitVecVal(x & ((1 << w) - 1), w), w, x, x)


def mkSI(t, w, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SI(t, w, lo, hi)


def _bits(lo, hi):
    if max(abs(lo), abs(hi)) >= 1 << 62:
        raise Unsupported('integer bounds exceed 62 bits')


def m_add(a, b):
    """mathematical integer ops on int | T'i' | SI"""
    if type(a) is int and type(b) is int:
        return a + b
    if isinstance(a, T) and a.k == 'i':
        if type(b) is int:
            return mkT(a.idx, a.a + b, 'i')
        if isinstance(b, T) and b.k == 'i' and a.idx is b.idx:
            return mkT(a.idx, a.a + b.a, 'i')
    elif isinstance(b, T) and type(a) is int and b.k == 'i':
        return mkT(b.idx, b.a + a, 'i')
    if type(b) is int and b == 0:
        return a
    if type(a) is int and a == 0:
        return b
    a = toSI(a)
    b = toSI(b)
    lo = a.lo + b.lo
    hi = a.hi + b.hi
    _bits(lo, hi)
    w = _need(lo, hi)
    return mkSI(_ext(a, w) + _ext(b, w), w, lo, hi)


def m_neg(a):
    if type(a) is int:
        return -a
    if isinstance(a, T) and a.k == 'i':
        return T(a.idx, -a.a, 'i')
    a = toSI(a)
    w = _need(-a.hi, -a.lo)
    w = max(w, a.w)
    return SI(-_ext(a, w), w, -a.hi, -a.lo)


def m_sub(a, b):
    if type(b) is int:
        return m_add(a, -b)
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx and a.k == 'i' and b.k == 'i':
        return mkT(a.idx, a.a - b.a, 'i')
    if isinstance(b, T) and type(a) is int and b.k == 'i':
        return mkT(b.idx, a - b.a, 'i')
    a = toSI(a)
    b = toSI(b)
    lo = a.lo - b.hi
    hi = a.hi - b.lo
    _bits(lo, hi)
    w = _need(lo, hi)
    return mkSI(_ext(a, w) - _ext(b, w), w, lo, hi)


def m_mul(a, b):
    if type(a) is int and type(b) is int:
        return a * b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if isinstance(a, T) and a.k == 'i':
            return mkT(a.idx, a.a * b, 'i')
        a = toSI(a)
        c = sorted((a.lo * b, a.hi * b))
        _bits(*c)
        w = _need(*c)
        if b > 0 and b & (b - 1) == 0:
            w = max(w, a.w)
            return SI(_ext(a, w) << (b.bit_length() - 1), w, c[0], c[1])
        return SI(_ext(a, w) * z3.BitVecVal(b & ((1 << w) - 1), w), w, c[0], c[1])
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx and a.k == b.k == 'i':
        return mkT(a.idx, a.a * b.a, 'i')
    same = a is b
    a = toSI(a)
    b = toSI(b)
    same = same or a is b or a.t.get_id() == b.t.get_id()
    if same:
        if a.hi - a.lo < 4096 and a.w > 6:
            pass
        m = max(a.lo * a.lo, a.hi * a.hi)
        lo = 0 if a.lo <= 0 <= a.hi else min(a.lo * a.lo, a.hi * a.hi)
        hi = m
    else:
        c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo = min(c)
        hi = max(c)
    _bits(lo, hi)
    w = _need(lo, hi)
    return mkSI(_ext(a, w) * _ext(b, w), w, lo, hi)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def m_sdiv(a, b):
    """truncating division"""
    if type(a) is int and type(b) is int:
        return _tdiv(a, b)
    if type(b) is int and isinstance(a, T) and a.k == 'i':
        q = np.abs(a.a) // abs(b)
        return mkT(a.idx, np.where((a.a < 0) == (b < 0), q, -q), 'i')
    if type(b) is not int:
        b = H.cur.conc(b)
        return m_sdiv(a, b)
    a = toSI(a)
    c = sorted((_tdiv(a.lo, b), _tdiv(a.hi, b)))
    lo, hi = min(c[0], 0 if a.lo <= 0 <= a.hi else c[0]), max(c[1], 0 if a.lo <= 0 <= a.hi else c[1])
    w = max(a.w, _need(b, b)) + 1
    if a.lo >= 0 and b > 0 and b & (b - 1) == 0:
        t = z3.LShR(_ext(a, w), b.bit_length() - 1)
    else:
        t = _ext(a, w) / z3.BitVecVal(b & ((1 << w) - 1), w)
    r = SI(t, w, lo, hi)
    return _shrink(r)


def _shrink(r):
    w = _need(r.lo, r.hi)
    if r.lo == r.hi:
        return r.lo
    if w < r.w:
        return SI(z3.Extract(w - 1, 0, r.t), w, r.lo, r.hi)
    return r


def m_srem(a, b):
    if type(a) is int and type(b) is int:
        return a - b * _tdiv(a, b)
    if type(b) is int and isinstance(a, T) and a.k == 'i':
        return mkT(a.idx, np.fmod(a.a, b), 'i')
    if type(b) is not int:
        b = H.cur.conc(b)
        return m_srem(a, b)
    a = toSI(a)
    m = abs(b) - 1
    if -m <= a.lo and a.hi <= m:
        return a
    lo = 0 if a.lo >= 0 else max(-m, a.lo)
    hi = 0 if a.hi <= 0 else min(m, a.hi)
    w = max(a.w, _need(b, b)) + 1
    if a.lo >= 0 and b > 0 and b & (b - 1) == 0:
        t = _ext(a, w) & z3.BitVecVal(b - 1, w)
    else:
        t = z3.SRem(_ext(a, w), z3.BitVecVal(b & ((1 << w) - 1), w))
    return _shrink(SI(t, w, lo, hi))


def m_fdiv2(a, k):
    """floor division by 2**k"""
    if type(a) is int:
        return a >> k
    if isinstance(a, T) and a.k == 'i':
        return mkT(a.idx, a.a >> k, 'i')
    a = toSI(a)
    if k >= a.w:
        k = a.w - 1
    return _shrink(SI(a.t >> k, a.w, a.lo >> k, a.hi >> k))


def m_ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    if isinstance(c, T):
        aa = a.a if isinstance(a, T) and a.idx is c.idx and a.k == 'i' else a if type(a) is int else None
        bb = b.a if isinstance(b, T) and b.idx is c.idx and b.k == 'i' else b if type(b) is int else None
        if aa is not None and bb is not None:
            return mkT(c.idx, np.where(c.a, aa, bb).astype(np.int64), 'i')
    a = toSI(a)
    b = toSI(b)
    lo = min(a.lo, b.lo)
    hi = max(a.hi, b.hi)
    w = _need(lo, hi)
    return mkSI(z3.If(sbt(c), _ext(a, w), _ext(b, w)), w, lo, hi)


_NPC = {'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal, 'eq': np.equal, 'ne': np.not_equal}
_SW = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def m_cmp(op, a, b):
    """mathematical comparison of ints"""
    if type(a) is int and type(b) is int:
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    if type(a) is int:
        return m_cmp(_SW[op], b, a)
    if isinstance(a, T) and a.k == 'i':
        if type(b) is int:
            return mkT(a.idx, _NPC[op](a.a, b), 'b')
        if isinstance(b, T) and b.idx is a.idx and b.k == 'i':
            return mkT(a.idx, _NPC[op](a.a, b.a), 'b')
    a = toSI(a)
    if type(b) is int:
        blo = bhi = b
    else:
        b = toSI(b)
        blo, bhi = b.lo, b.hi
        if a is b:
            return op in ('le', 'ge', 'eq')
    if op == 'lt':
        if a.hi < blo:
            return True
        if a.lo >= bhi:
            return False
    elif op == 'le':
        if a.hi <= blo:
            return True
        if a.lo > bhi:
            return False
    elif op == 'gt':
        if a.lo > bhi:
            return True
        if a.hi <= blo:
            return False
    elif op == 'ge':
        if a.lo >= bhi:
            return True
        if a.hi < blo:
            return False
    else:
        if a.hi < blo or a.lo > bhi:
            return op == 'ne'
    if type(b) is int:
        w = max(a.w, _need(b, b))
        x = _ext(a, w)
        y = z3.BitVecVal(b & ((1 << w) - 1), w)
    else:
        w = max(a.w, b.w)
        x = _ext(a, w)
        y = _ext(b, w)
    t = x < y if op == 'lt' else x <= y if op == 'le' else x > y if op == 'gt' else x >= y if op == 'ge' else x == y if op == 'eq' else x != y
    return mkb(t)


def bounds(x):
    if type(x) is int:
        return x, x
    if isinstance(x, T):
        return int(x.a.min()), int(x.a.max())
    x = toSI(x)
    return x.lo, x.hi


# machine-integer semantics: a register of n bits holds a math integer modulo 2**n --------------
def asU(x, n):
    if type(x) is int:
        return x & ((1 << n) - 1)
    if isinstance(x, (SB,)) or (isinstance(x, T) and x.k == 'b'):
        return b2i(x)
    if isinstance(x, RI):
        return x
    if isinstance(x, Cat):
        raise Unsupported('integer use of a pair of floats')
    lo, hi = bounds(x)
    M = 1 << n
    if lo >= 0 and hi < M:
        return x
    if isinstance(x, T) and n < 63:
        return mkT(x.idx, x.a & (M - 1), 'i')
    if n > 62 and lo < 0:
        return H.cur.conc(x) & (M - 1)
    if lo >= -M and hi < 0:
        return m_add(x, M)
    if lo >= -M and hi < M:
        return m_ite(m_cmp('lt', x, 0), m_add(x, M), x)
    if lo >= 0:
        return m_srem(x, M)
    r = m_srem(x, M)
    return m_ite(m_cmp('lt', r, 0), m_add(r, M), r)


def _u64(a):
    if (a < 0).any():
        raise Unsupported('u64 of negative table')
    return a


def asS(x, n):
    if type(x) is int:
        x &= (1 << n) - 1
        return x - (1 << n) if x >> (n - 1) else x
    if isinstance(x, (SB,)) or (isinstance(x, T) and x.k == 'b'):
        x = b2i(x)
    if isinstance(x, RI):
        return x
    if isinstance(x, Cat):
        raise Unsupported('integer use of a pair of floats')
    lo, hi = bounds(x)
    h = 1 << (n - 1)
    if lo >= -h and hi < h:
        return x
    u = asU(x, n)
    if isinstance(u, T):
        return mkT(u.idx, np.where(u.a >= h, u.a - 2 * h, u.a), 'i')
    return m_ite(m_cmp('ge', u, h), m_sub(u, 2 * h), u)


def _canon(x, n):
    """result of a symbolic op -> register (ints unsigned canonical, symbolic kept lazily)"""
    if type(x) is int:
        return x & ((1 << n) - 1)
    lo, hi = bounds(x)
    if lo >= -(1 << (n - 1)) and hi < (1 << n):
        return x
    return asU(x, n)


def _sgn(x, n):
    """pick the cheap interpretation of a concrete register value for mixing with symbolic ones"""
    if type(x) is int and x >> (n - 1):
        return x - (1 << n)
    return x


def _ck(x):
    if isinstance(x, Undef):
        raise UninitUse('integer operation on an uninitialised value')


def i_add(a, b, n):
    if isinstance(a, Cat) or isinstance(b, Cat) or isinstance(a, Undef) or isinstance(b, Undef):
        _ck(a), _ck(b)
        raise Unsupported('add on float pair')
    if isinstance(a, RI) or isinstance(b, RI):
        return ri_op('+', a, b, n)
    return _canon(m_add(_sgn(a, n), _sgn(b, n)), n)


def i_sub(a, b, n):
    _ck(a), _ck(b)
    if isinstance(a, RI) or isinstance(b, RI):
        return ri_op('-', a, b, n)
    return _canon(m_sub(_sgn(a, n), _sgn(b, n)), n)


def i_mul(a, b, n):
    _ck(a), _ck(b)
    if isinstance(a, RI) or isinstance(b, RI):
        return ri_op('*', a, b, n)
    return _canon(m_mul(_sgn(a, n), _sgn(b, n)), n)


def i_sdiv(a, b, n):
    _ck(a), _ck(b)
    return _canon(m_sdiv(asS(a, n), asS(b, n)), n)


def i_srem(a, b, n):
    _ck(a), _ck(b)
    return _canon(m_srem(asS(a, n), asS(b, n)), n)


def i_udiv(a, b, n):
    _ck(a), _ck(b)
    return m_sdiv(asU(a, n), asU(b, n))


def i_urem(a, b, n):
    _ck(a), _ck(b)
    if isinstance(a, RI) or isinstance(b, RI):
        raise Unsupported('urem of real-int')
    return m_srem(asU(a, n), asU(b, n))


def i_shl(a, b, n):
    _ck(a), _ck(b)
    b = H.cur.conc(b)
    if isinstance(a, Cat):
        if b == 32:
            return Cat(((3, 0), a.parts[0]))
        raise Unsupported('shl pair')
    if isinstance(a, Half) and b == 32:
        return Cat(((3, 0), a.part))
    return _canon(m_mul(_sgn(a, n), 1 << b), n)


def i_lshr(a, b, n):
    _ck(a), _ck(b)
    b = H.cur.conc(b)
    if isinstance(a, Cat):
        if b == 32:
            return Half(a.parts[1])
        raise Unsupported('lshr pair')
    return m_fdiv2(asU(a, n), b)


def i_ashr(a, b, n):
    _ck(a), _ck(b)
    b = H.cur.conc(b)
    return _canon(m_fdiv2(asS(a, n), b), n)


def i_and(a, b, n):
    _ck(a), _ck(b)
    if type(a) is int:
        a, b = b, a
    if isinstance(a, Cat) and type(b) is int:
        if b == 0xffffffff:
            return Half(a.parts[0])
        if b == 0xffffffff00000000:
            return Cat(((3, 0), a.parts[1]))
    if type(b) is int:
        if b & (b + 1) == 0:
            return m_srem(asU(a, n), b + 1)
        if isinstance(a, T) and a.k == 'i' and n < 63:
            return mkT(a.idx, asU(a, n).a & b if isinstance(asU(a, n), T) else a.a & b, 'i')
        inv = (~b) & ((1 << n) - 1)
        if inv & (inv + 1) == 0:     # clears low bits
            k = inv.bit_length()
            return _canon(m_mul(m_fdiv2(asS(a, n), k), 1 << k), n)
    if isinstance(a, T) and isinstance(b, T) and a.idx is b.idx:
        return mkT(a.idx, a.a & b.a, 'i')
    ua, ub = toSI(asU(a, n)), toSI(asU(b, n))
    w = max(ua.w, ub.w)
    return _shrink(SI(_ext(ua, w) & _ext(ub, w), w, 0, min(ua.hi, ub.hi)))


def i_or(a, b, n):
    _ck(a), _ck(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Cat) and isinstance(y, Half) and x.parts[0] == (3, 0):
            return Cat((y.part, x.parts[1]))
        if isinstance(x, Cat) and type(y) is int and y < 1 << 32 and x.parts[0] == (3, 0):
            return Cat(((3, y), x.parts[1]))
        if isinstance(x, Half) and type(y) is int and y & 0xffffffff == 0:
            return Cat((x.part, (3, y >> 32)))
        if type(y) is int and y == 0:
            return x
    if isinstance(a, (Cat, Half)) or isinstance(b, (Cat, Half)):
        raise Unsupported('or of float pairs')
    if bounds(a)[0] < 0 or bounds(b)[0] < 0:
        sa, sb = asS(a, n), asS(b, n)
        if isinstance(sa, T) and isinstance(sb, T) and sa.idx is sb.idx:
            return mkT(sa.idx, sa.a | sb.a, 'i')
        if isinstance(sa, T) and type(sb) is int:
            return mkT(sa.idx, sa.a | sb, 'i')
        if isinstance(sb, T) and type(sa) is int:
            return mkT(sb.idx, sb.a | sa, 'i')
        sa, sb = toSI(sa), toSI(sb)
        w = max(sa.w, sb.w)
        return _shrink(SI(_ext(sa, w) | _ext(sb, w), w, min(sa.lo, sb.lo, 0), (1 << max(sa.hi.bit_length(), sb.hi.bit_length())) - 1))
    ua, ub = asU(a, n), asU(b, n)
    if isinstance(ua, T) and isinstance(ub, T) and ua.idx is ub.idx:
        return mkT(ua.idx, ua.a | ub.a, 'i')
    if isinstance(ua, T) and type(ub) is int and ub < 1 << 62:
        return mkT(ua.idx, ua.a | ub, 'i')
    if isinstance(ub, T) and type(ua) is int and ua < 1 << 62:
        return mkT(ub.idx, ub.a | ua, 'i')
    ua, ub = toSI(ua), toSI(ub)
    w = max(ua.w, ub.w)
    hi = (1 << max(ua.hi.bit_length(), ub.hi.bit_length())) - 1
    return SI(_ext(ua, w) | _ext(ub, w), w, max(ua.lo, ub.lo), hi)


def i_xor(a, b, n):
    _ck(a), _ck(b)
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == (1 << n) - 1:
        return _canon(m_sub(-1, a), n)
    ua, ub = asU(a, n), asU(b, n)
    if isinstance(ua, T) and (type(ub) is int or (isinstance(ub, T) and ua.idx is ub.idx)):
        return mkT(ua.idx, ua.a ^ (ub if type(ub) is int else ub.a), 'i')
    ua, ub = toSI(ua), toSI(ub)
    w = max(ua.w, ub.w)
    hi = (1 << max(ua.hi.bit_length(), ub.hi.bit_length())) - 1
    return SI(_ext(ua, w) ^ _ext(ub, w), w, 0, hi)


def i_cmp(pred, a, b, n):
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise UninitUse('comparison of an uninitialised value')
    if isinstance(a, (SB, bool)) or (isinstance(a, T) and a.k == 'b') or isinstance(b, (SB, bool)):
        if pred == 'eq':
            return NOT(b_xor(a, b))
        if pred == 'ne':
            return b_xor(a, b)
        a, b = b2i(a), b2i(b)
    if isinstance(a, RI) or isinstance(b, RI):
        return ri_cmp(pred, a, b, n)
    if pred in ('eq', 'ne'):
        if type(a) is int or type(b) is int:
            c, x = (a, b) if type(a) is int else (b, a)
            lo, hi = bounds(x)
            if lo >= 0:
                return m_cmp(pred, x, c)
            if hi < 1 << (n - 1) and lo >= -(1 << (n - 1)):
                return m_cmp(pred, x, _sgn(c, n))
        return m_cmp(pred, asS(a, n), asS(b, n))
    op = pred[1:]
    if pred[0] == 's':
        return m_cmp(op, asS(a, n), asS(b, n))
    return m_cmp(op, asU(a, n), asU(b, n))


def i_trunc(a, nf, nt):
    if isinstance(a, Undef):
        return a
    if isinstance(a, Half):
        return a if nt == 32 else _uns('trunc half')
    if isinstance(a, Cat):
        if nt == 32:
            return Half(a.parts[0]) if a.parts[0][0] != 3 else a.parts[0][1]
        raise Unsupported('trunc pair')
    if nt == 1:
        if isinstance(a, (SB,)):
            return a
        u = i_and(a, 1, nf) if type(a) is not int else a & 1
        return i_cmp('ne', u, 0, nf)
    if isinstance(a, RI):
        return a
    return _canon(a, nt)


def _uns(m):
    raise Unsupported(m)


def i_zext(a, nf, nt):
    if isinstance(a, Undef):
        return a
    if nf == 1:
        return b2i(a)
    if isinstance(a, Half) and nf == 32:
        return Cat((a.part, (3, 0)))
    if isinstance(a, RI):
        return a
    return asU(a, nf)


def i_sext(a, nf, nt):
    if isinstance(a, Undef):
        return a
    if nf == 1:
        return m_neg(b2i(a))
    if isinstance(a, RI):
        return a
    return asS(a, nf)


# ------------------------------------------------------------------ memory-only values
class Undef(Sym):
    """content of memory that was never written"""
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def r32(self):
        raise UninitUse('float use of an uninitialised value')

    def _e(self, *a):
        raise UninitUse('use of an uninitialised value')
    __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __float__ = __int__ = __index__ = __abs__ = __pow__ = __and__ = __or__ = _e

    def __eq__(self, o):
        if self is o:
            return True
        raise UninitUse('comparison of an uninitialised value')

    def __ne__(self, o):
        raise UninitUse('comparison of an uninitialised value')


UNDEF = Undef()


class Cat(Sym):
    """8 bytes made of two 4-byte cells (code, value)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __hash__(self):
        return id(self)


class Half(Sym):
    """an i32 register holding the raw bits of a 4-byte float cell"""
    __slots__ = ('part',)

    def __init__(self, part):
        self.part = part

    def __hash__(self):
        return id(self)


# ------------------------------------------------------------------ floats
class LF(Sym):
    __slots__ = ('n', 'e')

    def __init__(self, n, e):
        self.n = n
        self.e = e

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return H.cur.decide(f_cmp('ne', self, 0.0))

    def r32(self):
        n = self.n
        m = max(abs(n.lo), abs(n.hi))
        if m <= 1 << 24:
            return self
        t = lf_to_t(self)
        if t is None:
            raise Unsupported('inexact f32 result outside table range')
        return t.r32() if isinstance(t, T) else F32(t)

    def __repr__(self):
        return f'LF[{self.n.lo},{self.n.hi}]*2^{self.e}'


def mkLF(n, e):
    if type(n) is int:
        return float(n) * 2.0 ** e
    if isinstance(n, T):
        return mkT(n.idx, n.a * 2.0 ** e, 'f')
    return LF(n, e)


class RT(Sym):
    """real term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return H.cur.decide(f_cmp('ne', self, 0.0))

    def r32(self):
        return self

    def __repr__(self):
        return f'RT({self.t})'


class RI(Sym):
    """integer term (z3 Int) used with the real mode"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return H.cur.decide(ri_cmp('ne', self, 0, 64))


def rit(x, n=64):
    if isinstance(x, RI):
        return x.t
    if type(x) is int:
        return z3.IntVal(_sgn(x, n))
    raise Unsupported('mix of bit-vector and real-mode integers')


def ri_op(op, a, b, n):
    x, y = rit(a, n), rit(b, n)
    return RI(z3.simplify(x + y if op == '+' else x - y if op == '-' else x * y))


def ri_cmp(pred, a, b, n):
    x, y = rit(a, n), rit(b, n)
    p = pred if pred in ('eq', 'ne') else pred[1:]
    # unsigned comparisons are only meaningful here for non-negative values
    return mkb(z3.simplify(x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y if p == 'ge' else x == y if p == 'eq' else x != y))


def F32(x):
    if type(x) is float:
        return _cf(x).value
    if type(x) is int:
        return _cf(float(x)).value
    if isinstance(x, Sym):
        return x.r32()
    if x is None:
        return None
    return _cf(float(x)).value


def lf_to_t(x):
    """float table over the index of an LF"""
    n = x.n
    if n.hi - n.lo + 1 > TABMAX:
        return None
    idx = idx_of_si(n)
    return T(idx, np.arange(n.lo, n.hi + 1).astype(np.float64) * 2.0 ** x.e, 'f')


def to_t(x):
    if isinstance(x, T):
        return x if x.k == 'f' else T(x.idx, x.a.astype(np.float64), 'f')
    if isinstance(x, LF):
        r = lf_to_t(x)
        if r is None:
            raise Unsupported('table too large')
        return r
    if isinstance(x, SI):
        return to_t(LF(x, 0))
    raise Unsupported('to_t ' + type(x).__name__)


def to_lf(x):
    """LF | float | None"""
    if isinstance(x, LF) or type(x) is float:
        return x
    if isinstance(x, T):
        return t_to_lf(x)
    if isinstance(x, SI):
        return LF(x, 0)
    if isinstance(x, (int, np.integer)):
        return float(x)
    return float(x)


def dyadic(c):
    """c == m*2**k exactly (m odd or 0)"""
    if c == 0:
        return 0, 0
    m, e = math.frexp(c)
    m = int(m * (1 << 53))
    tz = (m & -m).bit_length() - 1
    return m >> tz, e - 53 + tz


def rterm(x):
    if isinstance(x, RT):
        return x.t
    if isinstance(x, RI):
        return z3.ToReal(x.t)
    if isinstance(x, (T, LF, SI)):
        return bv_to_real(x)
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Undef):
        raise UninitUse('float operation on an uninitialised value')
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('non-finite constant in real mode')
    f = Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def bv_to_real(x):
    raise Unsupported('mixing lattice and real values')


_NPF = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide}


def _undef(a, b):
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise UninitUse('float operation on an uninitialised value')


def _num(x):
    if isinstance(x, (float, Sym)) and type(x) is not np.float64:
        return x
    return float(x)


def fbin(op, a, b):
    a = _num(a)
    b = _num(b)
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        return fdiv(a, b)
    if ta is Undef or tb is Undef:
        _undef(a, b)
    if ta is FO or tb is FO:
        return FO((op, a, b))
    if ta is RT or tb is RT or ta is RI or tb is RI:
        return r_bin(op, a, b)
    if ta is SB:
        a = b2i(a); ta = type(a)
    if tb is SB:
        b = b2i(b); tb = type(b)
    if ta is SI:
        a = LF(a, 0)
        ta = LF
    if tb is SI:
        b = LF(b, 0)
        tb = LF
    if ta is T and a.k != 'f':
        a = T(a.idx, a.a.astype(np.float64), 'f')
    if tb is T and b.k != 'f':
        b = T(b.idx, b.a.astype(np.float64), 'f')
    # single-index
    if ta is T and tb is float:
        return mkTa(a.idx, _NPF[op](a.a, b), op, a, b)
    if tb is T and ta is float:
        return mkTa(b.idx, _NPF[op](a, b.a), op, a, b)
    if ta is T and tb is T:
        if a.idx is b.idx:
            return mkTa(a.idx, _NPF[op](a.a, b.a), op, a, b)
        if a.idx.D * b.idx.D <= PSMALL or a.idx.prod is not None or b.idx.prod is not None:
            x, y = join(a, b, PSMALL)
            if x is not None:
                return mkTa(x.idx, _NPF[op](x.a, y.a), op, a, b)
    # identities
    if tb is float:
        if op == '*':
            if b == 1.0:
                return a
            if b == 0.0:
                return 0.0
        elif op in '+-' and b == 0.0:
            return a
        elif op == '/' and b == 1.0:
            return a
    if ta is float:
        if op == '*':
            if a == 1.0:
                return b
            if a == 0.0:
                return 0.0
        elif op == '+' and a == 0.0:
            return b
    r = lf_bin(op, a, b)
    if r is not None:
        return r
    # tables
    if ta is float:
        t = to_t(b)
        return mkT(t.idx, _NPF[op](a, t.a), 'f')
    if tb is float:
        t = to_t(a)
        return mkT(t.idx, _NPF[op](t.a, b), 'f')
    return t_prod(op, a, b)


def t_prod(op, a, b):
    try:
        x, y = to_t(a), to_t(b)
    except Unsupported:
        return FO((op, a, b))
    if x.idx is y.idx:
        return mkT(x.idx, _NPF[op](x.a, y.a), 'f')
    x2, y2 = join(x, y)
    if x2 is None:
        return FO((op, a, b))
    return mkT(x2.idx, _NPF[op](x2.a, y2.a), 'f')


def _factors(idx):
    p = idx.prod
    if p is None:
        return (idx,)
    return _factors(p[0]) + _factors(p[1])


def join(x, y, top=PRODMAX):
    """re-express two tables over a common (product) index; (None, None) if too large"""
    fx, fy = _factors(x.idx), _factors(y.idx)
    fs = list(fx) + [f for f in fy if f not in fx]
    fs.sort(key=lambda i: i.id)
    D = 1
    for f in fs:
        D *= f.D
    if D > top:
        return None, None
    idx = fs[0]
    for f in fs[1:]:
        idx = idx_prod(idx, f)

    def lift(t, ft):
        arr = t.a.reshape([f.D for f in ft])
        order = sorted(range(len(ft)), key=lambda k: ft[k].id)
        arr = arr.transpose(order)
        shp = [f.D if f in ft else 1 for f in fs]
        arr = arr.reshape(shp)
        return T(idx, np.ascontiguousarray(np.broadcast_to(arr, [f.D for f in fs])).reshape(-1), t.k)
    return lift(x, fx), lift(y, fy)


def lf_bin(op, a, b):
    if op == '/':
        if type(b) is float and b != 0.0:
            m, k = dyadic(b)
            if abs(m) == 1:
                a = to_lf(a)
                if type(a) is LF:
                    return mkLF(a.n if m == 1 else m_neg(a.n), a.e - k)
        return None
    a = to_lf(a)
    b = to_lf(b)
    if a is None or b is None:
        return None
    if type(a) is float or type(b) is float:
        c = a if type(a) is float else b
        if math.isinf(c) or math.isnan(c):
            return None
        m, k = dyadic(c)
        if op == '*':
            x = b if type(a) is float else a
            if type(x) is float:
                return a * b
            if abs(m).bit_length() + max(abs(x.n.lo), abs(x.n.hi)).bit_length() > 53:
                return None
            return mkLF(m_mul(x.n, m), x.e + k)
        ca = (m, k)
        if type(a) is float:
            if type(b) is float:
                return a + b if op == '+' else a - b
            e = min(k, b.e)
            x = m << (k - e)
            y = m_mul(b.n, 1 << (b.e - e)) if b.e - e < 60 else None
        else:
            e = min(k, a.e)
            x = m_mul(a.n, 1 << (a.e - e)) if a.e - e < 60 else None
            y = m << (k - e)
        if x is None or y is None:
            return None
    else:
        if op == '*':
            if max(abs(a.n.lo), abs(a.n.hi)).bit_length() + max(abs(b.n.lo), abs(b.n.hi)).bit_length() > 53:
                return None
            return mkLF(m_mul(a.n, b.n), a.e + b.e)
        e = min(a.e, b.e)
        if a.e - e > 50 or b.e - e > 50:
            return None
        x = m_mul(a.n, 1 << (a.e - e))
        y = m_mul(b.n, 1 << (b.e - e))
    if max(max(map(abs, bounds(x))), max(map(abs, bounds(y)))).bit_length() > 53:
        return None
    return mkLF(m_add(x, y) if op == '+' else m_sub(x, y), e)


def fdiv(a, b):
    if type(a) is float and type(b) is float:
        if b == 0.0:
            if a == 0.0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    return fbin('/', a, b)


def f_neg(a):
    if type(a) is float:
        return -a
    if isinstance(a, T):
        r = T(a.idx, -a.a, 'f' if a.k == 'f' else 'i')
        if a.alt is not None:
            r.alt = ('-', 0.0, a)
        return r
    if isinstance(a, LF):
        return LF(m_neg(a.n), a.e)
    if isinstance(a, SI):
        return m_neg(a)
    if isinstance(a, RT):
        return RT(-a.t)
    if isinstance(a, RI):
        return RI(-a.t)
    if isinstance(a, FO):
        return FO(('neg', a, None))
    return -a


def f_cmp(op, a, b):
    """ordered comparison (ne: unordered-or-ne)"""
    a = _num(a)
    b = _num(b)
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    if ta is Undef or tb is Undef:
        _undef(a, b)
    if ta is FO or tb is FO:
        return fo_cmp(op, a, b)
    if ta is RT or tb is RT or ta is RI or tb is RI:
        if (ta is float and not math.isfinite(a)) or (tb is float and not math.isfinite(b)):
            # reals are finite
            x = 0.0 if ta is not float else a
            y = 0.0 if tb is not float else b
            return f_cmp(op, x, y)
        x, y = rterm(a), rterm(b)
        t = x < y if op == 'lt' else x <= y if op == 'le' else x > y if op == 'gt' else x >= y if op == 'ge' else x == y if op == 'eq' else x != y
        return mkb(z3.simplify(t))
    if ta is SB:
        a = b2i(a); ta = type(a)
    if tb is SB:
        b = b2i(b); tb = type(b)
    if ta is T and tb is float:
        return mkT(a.idx, _NPC[op](a.a, b), 'b')
    if tb is T and ta is float:
        return mkT(b.idx, _NPC[op](a, b.a), 'b')
    if ta is T and tb is T and a.idx is b.idx:
        return mkT(a.idx, _NPC[op](a.a, b.a), 'b')
    if ta is SI:
        a = LF(a, 0); ta = LF
    if tb is SI:
        b = LF(b, 0); tb = LF
    if ta is float:
        return f_cmp(_SW[op], b, a)
    if tb is float:
        if math.isnan(b):
            return op == 'ne'
        if math.isinf(b):
            return {'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0, 'eq': False, 'ne': True}[op]
        # a is LF
        q = Fraction(b) / (Fraction(2) ** a.e)
        if q.denominator == 1:
            return m_cmp(op, a.n, int(q))
        fl = q.numerator // q.denominator
        if op in ('lt', 'le'):
            return m_cmp('le', a.n, fl)
        if op in ('gt', 'ge'):
            return m_cmp('gt', a.n, fl)
        return op == 'ne'
    la, lb = to_lf(a), to_lf(b)
    if la is not None and lb is not None and type(la) is LF and type(lb) is LF:
        e = min(la.e, lb.e)
        if la.e - e <= 40 and lb.e - e <= 40:
            return m_cmp(op, m_mul(la.n, 1 << (la.e - e)), m_mul(lb.n, 1 << (lb.e - e)))
    if type(la) is float or type(lb) is float:
        return f_cmp(op, la if la is not None else a, lb if lb is not None else b)
    # table(s) with different indices: monotone thresholding per value of the smaller one
    x, y = to_t(a), to_t(b)
    if x.idx is y.idx:
        return mkT(x.idx, _NPC[op](x.a, y.a), 'b')
    x2, y2 = join(x, y)
    if x2 is not None:
        return mkT(x2.idx, _NPC[op](x2.a, y2.a), 'b')
    if x.idx.D > y.idx.D:
        return f_cmp(_SW[op], b, a)
    parts = []
    for v in np.unique(x.a):
        parts.append(z3.And(t_to_bool(T(x.idx, x.a == v, 'b')), sbt(mkT(y.idx, _NPC[op](v, y.a), 'b'))))
    return mkb(z3.Or(parts))


def f_ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    if type(a) is float and type(b) is float and a == b:
        return a
    ta, tb = type(a), type(b)
    if ta is RT or tb is RT or ta is RI or tb is RI:
        try:
            return RT(z3.If(sbt(c), rterm(a), rterm(b)))
        except Unsupported:
            return a if H.cur.decide(c) else b
    if isinstance(c, T):
        aa = a.a if ta is T and a.idx is c.idx else a if ta is float else None
        bb = b.a if tb is T and b.idx is c.idx else b if tb is float else None
        if aa is not None and bb is not None:
            return mkT(c.idx, np.where(c.a, aa, bb).astype(np.float64), 'f')
    if (ta is float and not math.isfinite(a)) or (tb is float and not math.isfinite(b)):
        return a if H.cur.decide(c) else b
    if ta in (FO, Undef) or tb in (FO, Undef):
        return a if H.cur.decide(c) else b
    la, lb = to_lf(a), to_lf(b)
    if la is not None and lb is not None:
        ma, ka = (la.n, la.e) if type(la) is LF else dyadic(la)
        mb, kb = (lb.n, lb.e) if type(lb) is LF else dyadic(lb)
        if ma == 0 and type(ma) is int:
            ka = kb
        if mb == 0 and type(mb) is int:
            kb = ka
        e = min(ka, kb)
        if abs(ka - kb) < 40:
            return mkLF(m_ite(c, m_mul(ma, 1 << (ka - e)), m_mul(mb, 1 << (kb - e))), e)
    return a if H.cur.decide(c) else b


def is_b(x):
    return isinstance(x, (bool, SB, np.bool_)) or (isinstance(x, T) and x.k == 'b')


def SEL(c, a, b):
    """LLVM select with symbolic condition"""
    if isinstance(a, tuple):
        return tuple(SEL(c, x, y) for x, y in zip(a, b))
    if is_b(a) and is_b(b):
        return b_or(b_and(c, a), b_and(NOT(c), b))
    if type(a) is float or type(b) is float or isinstance(a, (LF, RT, FO)) or isinstance(b, (LF, RT, FO)) or (isinstance(a, T) and a.k == 'f') or (isinstance(b, T) and b.k == 'f'):
        return f_ite(c, a, b)
    if isinstance(a, (RI,)) or isinstance(b, RI):
        return RI(z3.If(sbt(c), rit(a), rit(b)))
    if isinstance(a, (Cat, Half, Undef)) or isinstance(b, (Cat, Half, Undef)):
        return a if H.cur.decide(c) else b
    if type(a) is int and type(b) is int and (a > 1 << 40 or b > 1 << 40) and abs(a - b) > 1 << 40:
        # wrapped negatives
        a = a - (1 << 64) if a >> 63 else a
        b = b - (1 << 64) if b >> 63 else b
        if abs(a - b) > 1 << 40:
            return a if H.cur.decide(c) else b
    return m_ite(c, a, b)


# unary float functions -----------------------------------------------------------------------
def f_unary(npf, x, rfun=None, exact=None):
    if type(x) is float:
        return npf(x)
    if isinstance(x, (RT, RI)):
        if rfun is None:
            raise Unsupported('real-mode function')
        return rfun(x)
    if isinstance(x, Undef):
        raise UninitUse('float function of an uninitialised value')
    if isinstance(x, FO):
        return FO((npf, x, None))
    if exact is not None and isinstance(x, LF):
        return exact(x)
    try:
        t = to_t(x)
    except Unsupported:
        return FO((npf, x, None))
    return mkT(t.idx, _vec(npf, t.a), 'f')


_vcache = {}


def _vec(f, a):
    nf = _NPU.get(f)
    if nf is not None:
        return nf(a)
    return np.array([f(float(v)) for v in a])


def m_sqrt(x):
    return math.sqrt(x) if x >= 0 else math.nan


def m_floor(x):
    return float(math.floor(x)) if math.isfinite(x) else x


def m_ceil(x):
    return float(math.ceil(x)) if math.isfinite(x) else x


def m_trunc(x):
    return float(math.trunc(x)) if math.isfinite(x) else x


def _cz(f):
    def g(x):
        try:
            return f(x)
        except (ValueError, OverflowError):
            return float(f.np(x))
    return g


def mf(pf, nf):
    def g(x):
        try:
            return pf(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    _NPU[g] = nf
    return g


_NPU = {m_sqrt: np.sqrt, m_floor: np.floor, m_ceil: np.ceil, m_trunc: np.trunc, math.fabs: np.abs}
m_sin = mf(math.sin, np.sin)
m_cos = mf(math.cos, np.cos)
m_tan = mf(math.tan, np.tan)
m_acos = mf(math.acos, np.arccos)
m_asin = mf(math.asin, np.arcsin)
m_atan = mf(math.atan, np.arctan)
m_exp = mf(math.exp, np.exp)
m_log = mf(lambda v: math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan), np.log)
m_cbrt = mf(math.cbrt, np.cbrt)
_BT = (np.arange(512) + 0.5) * (math.pi / 512)
_BS = np.sin(_BT)


def m_bessel(n):
    """J_n for integer n and |x| < 400, by the integral over cos(n t - x sin t)"""
    g = _bessels.get(n)
    if g is None:
        def one(x):
            return float(np.mean(np.cos(n * _BT - x * _BS)))
        g = _bessels[n] = mf(one, lambda a: np.array([one(float(v)) for v in a]))
    return g


_bessels = {}
m_j0 = m_bessel(0)
m_erf = mf(math.erf, lambda a: np.array([math.erf(v) for v in a]))


def lf_floor(x):
    if x.e >= 0:
        return x
    return mkLF(m_fdiv2(x.n, -x.e), 0)


def lf_ceil(x):
    if x.e >= 0:
        return x
    return mkLF(m_neg(m_fdiv2(m_neg(x.n), -x.e)), 0)


def lf_trunc(x):
    if x.e >= 0:
        return x
    return mkLF(m_sdiv(x.n, 1 << -x.e), 0)


def lf_abs(x):
    n = x.n
    if n.lo >= 0:
        return x
    if n.hi <= 0:
        return LF(m_neg(n), x.e)
    return mkLF(m_ite(m_cmp('lt', n, 0), m_neg(n), n), x.e)


def f_sqrt(x):
    return f_unary(m_sqrt, x, lambda r: H.cur.r_sqrt(r))


def f_floor(x):
    return f_unary(m_floor, x, lambda r: H.cur.r_floor(r), lf_floor)


def f_ceil(x):
    return f_unary(m_ceil, x, lambda r: f_neg(H.cur.r_floor(f_neg(r))), lf_ceil)


def f_trunc(x):
    return f_unary(m_trunc, x, lambda r: f_ite(f_cmp('lt', r, 0.0), f_neg(H.cur.r_floor(f_neg(r))), H.cur.r_floor(r)), lf_trunc)


def f_abs(x):
    return f_unary(math.fabs, x, lambda r: RT(z3.If(r.t < 0, -r.t, r.t)), lf_abs)


def f_round_half_away(x):
    def g(v):
        return math.copysign(math.floor(abs(v) + 0.5), v) if math.isfinite(v) else v
    return f_unary(g, x)


def f_fmod(a, b):
    a = _num(a)
    b = _num(b)
    if type(a) is float and type(b) is float:
        try:
            return math.fmod(a, b)
        except ValueError:
            return math.nan
    if isinstance(a, RT) or isinstance(b, RT):
        q = f_trunc(fbin('/', a, b))
        return fbin('-', a, fbin('*', q, b))
    if type(b) is float and isinstance(a, T):
        return mkT(a.idx, np.fmod(a.a.astype(np.float64), b), 'f')
    if type(b) is float and isinstance(a, LF) and b != 0:
        m, k = dyadic(abs(b))
        e = min(k, a.e)
        if a.e - e < 40 and k - e < 40:
            n = m_mul(a.n, 1 << (a.e - e))
            return mkLF(m_srem(n, m << (k - e)), e)
    x, y = (to_t(a) if isinstance(a, Sym) else a), (to_t(b) if isinstance(b, Sym) else b)
    if isinstance(x, T) and isinstance(y, T):
        if x.idx is not y.idx:
            x, y = join(x, y)
            if x is None:
                raise Unsupported('fmod of two large tables')
        return mkT(x.idx, np.fmod(x.a, y.a), 'f')
    if isinstance(x, T):
        return mkT(x.idx, np.fmod(x.a, y), 'f')
    return mkT(y.idx, np.fmod(x, y.a), 'f')


def f_bin_tab(npf, a, b, rfun=None):
    """binary libm function through tables"""
    a = _num(a)
    b = _num(b)
    if type(a) is float and type(b) is float:
        return float(npf(a, b))
    if isinstance(a, (RT, RI)) or isinstance(b, (RT, RI)):
        if rfun is None:
            raise Unsupported('real-mode function')
        return rfun(a, b)
    _undef(a, b)
    x = to_t(a) if isinstance(a, Sym) else a
    y = to_t(b) if isinstance(b, Sym) else b
    if isinstance(x, T) and isinstance(y, T):
        if x.idx is not y.idx:
            x, y = join(x, y)
            if x is None:
                # fork on the smaller
                if isinstance(b, T) and b.idx.D <= 4096:
                    return f_bin_tab(npf, a, H.cur.conc(b))
                return f_bin_tab(npf, H.cur.conc(a), b)
        return mkT(x.idx, npf(x.a, y.a), 'f')
    if isinstance(x, T):
        return mkT(x.idx, npf(x.a, y), 'f')
    return mkT(y.idx, npf(x, y.a), 'f')


def f_atan2(a, b):
    return f_bin_tab(np.arctan2, a, b, lambda x, y: H.cur.uf('atan2', x, y))


def f_pow(a, b):
    if type(b) is float and b == 2.0 and isinstance(a, Sym):
        return fbin('*', a, a)
    if type(b) is float and b == 3.0 and isinstance(a, (RT, RI)):
        return fbin('*', fbin('*', a, a), a)
    return f_bin_tab(np.power, a, b, lambda x, y: H.cur.uf('pow', x, y))


# conversions ----------------------------------------------------------------------------------
def f_to_int(x, n, signed):
    """C float->int conversion as x86-64 does it"""
    r = f_to_int_(x, n, signed)
    if H.cur.conc_ftoi and not isinstance(r, (int, RI)):
        r = H.cur.conc(r)
        return r & ((1 << n) - 1)
    return r


def f_to_int_(x, n, signed):
    if type(x) is float:
        if not math.isfinite(x):
            return 1 << (n - 1) if signed else 0
        v = int(x)
        if signed and not (-(1 << (n - 1)) <= v < (1 << (n - 1))):
            return 1 << (n - 1)
        if not signed and not (0 <= v < 1 << n):
            H.cur.note('float-to-unsigned conversion out of range')
        return v & ((1 << n) - 1)
    if isinstance(x, (RT, RI)):
        if isinstance(x, RI):
            return x
        return RI(H.cur.r_trunc_int(x))
    if isinstance(x, Undef):
        raise UninitUse('conversion of an uninitialised value')
    if isinstance(x, LF):
        if x.e >= 0:
            r = m_mul(x.n, 1 << x.e)
        else:
            r = m_sdiv(x.n, 1 << -x.e)
        return _canon(r, n)
    if isinstance(x, T):
        a = x.a
        fin = np.isfinite(a)
        t = np.trunc(np.where(fin, a, 0.0))
        if signed:
            lim = 2.0 ** (n - 1)
            bad = ~fin | (t < -lim) | (t >= lim)
            t = np.where(bad, -lim, t)
        else:
            bad = ~fin
            t = np.where(bad, 0, t)
        if np.abs(t).max() >= 2.0 ** 62:
            raise Unsupported('float->int table overflow')
        return _canon(mkT(x.idx, t.astype(np.int64), 'i'), n)
    if isinstance(x, FO):
        raise Unsupported('opaque float to int')
    raise Unsupported('f_to_int ' + type(x).__name__)


def int_to_f(x, n, signed, fw):
    if type(x) is int:
        v = float(asS(x, n) if signed else x)
        return F32(v) if fw == 32 else v
    if x is True or x is False:
        return float(x)
    _ck(x)
    if isinstance(x, RI):
        return RT(z3.ToReal(x.t))
    x = asS(x, n) if signed else asU(x, n)
    if type(x) is int:
        return F32(float(x))
    if isinstance(x, T):
        r = T(x.idx, x.a.astype(np.float64), 'f')
    else:
        r = LF(toSI(x), 0)
    return F32(r) if fw == 32 else r


# real mode ------------------------------------------------------------------------------------
def r_bin(op, a, b):
    if isinstance(a, RI) and isinstance(b, RI) and op != '/':
        return RI(a.t + b.t if op == '+' else a.t - b.t if op == '-' else a.t * b.t)
    if type(a) is float and not math.isfinite(a) or type(b) is float and not math.isfinite(b):
        if op in '+-' and type(a) is float and math.isinf(a):
            return a
        if op == '/' and type(b) is float and math.isinf(b):
            return 0.0
        raise Unsupported('non-finite operand in real mode')
    if op == '*':
        if type(a) is float:
            a, b = b, a
        if type(b) is float:
            if b == 0.0:
                return 0.0
            if b == 1.0:
                return a
    elif op in '+-':
        if type(b) is float and b == 0.0:
            return a
        if op == '+' and type(a) is float and a == 0.0:
            return b
    elif op == '/' and type(b) is float:
        if b == 1.0:
            return a
        if b == 0.0:
            raise Unsupported('division by literal zero in real mode')
    x, y = rterm(a), rterm(b)
    if op == '/':
        if type(b) is float:
            f = 1 / Fraction(b)
            return RT(x * z3.RealVal(f'{f.numerator}/{f.denominator}'))
        if isinstance(a, float) and a == 0.0:
            return 0.0
        H.cur.r_nonzero(y)
        return RT(x / y)
    return RT(x + y if op == '+' else x - y if op == '-' else x * y)


# opaque floats: expression trees that are only evaluated under a model -----------------------
class FO(Sym):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __hash__(self):
        return id(self)

    def r32(self):
        return FO(('r32', self, None))

    def __bool__(self):
        raise Unsupported('branch on opaque float')

    def __repr__(self):
        return 'FO'


def fo_leaves(x, out):
    if isinstance(x, FO):
        for y in x.x[1:]:
            fo_leaves(y, out)
    elif isinstance(x, Sym):
        out.append(x)


def fo_cmp(op, a, b):
    """comparison of opaque expressions: fork on the leaves, then evaluate exactly"""
    return f_cmp(op, fo_conc(a), fo_conc(b))


def fo_conc(x):
    if isinstance(x, FO):
        op, a, b = x.x
        a = fo_conc(a)
        b = fo_conc(b) if b is not None else None
        if op == 'r32':
            return F32(a)
        if op == 'neg':
            return f_neg(a)
        if isinstance(op, str):
            return fbin(op, a, b)
        return f_unary(op, a)
    if isinstance(x, Sym):
        return H.cur.conc(x)
    return x


# ------------------------------------------------------------------ Python-level operators
def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def _intlike(x):
    return isinstance(x, (SI, SB)) or (isinstance(x, T) and x.k in 'ib') or isinstance(x, (int, np.integer, bool, np.bool_)) or isinstance(x, RI)


def _pi(x):
    if isinstance(x, (SI, RI)):
        return x
    if isinstance(x, SB) or (isinstance(x, T) and x.k == 'b'):
        return b2i(x)
    if isinstance(x, T):
        return x
    return int(x)


def _arr(o):
    return isinstance(o, np.ndarray)


def _mk(opn, fop, mop):
    def f(a, b):
        if _arr(b):
            return NotImplemented if b.dtype == object else _obj(a, b, opn)
        if b is None or isinstance(b, (str, list, tuple, dict, complex)):
            return NotImplemented if not isinstance(b, complex) else cbin(opn, a, b)
        if isinstance(b, CX):
            return cbin(opn, a, b)
        if mop is not None and _intlike(a) and _intlike(b):
            if isinstance(a, RI) or isinstance(b, RI):
                return ri_op(opn, _pi(a), _pi(b), 64)
            return mop(_pi(a), _pi(b))
        return fbin(fop, a, b)

    def r(a, b):
        if _arr(b):
            return _obj2(b, a, opn)
        if isinstance(b, complex):
            return cbin(opn, b, a)
        if mop is not None and _intlike(a) and _intlike(b):
            if isinstance(a, RI) or isinstance(b, RI):
                return ri_op(opn, _pi(b), _pi(a), 64)
            return mop(_pi(b), _pi(a))
        return fbin(fop, b, a)
    return f, r


def _obj(a, b, opn):
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
         'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
         'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}[opn]
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        out[i] = f(a, b[i].item() if hasattr(b[i], 'item') else b[i])
    return out


def _obj2(b, a, opn):
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
         'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
         'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}[opn]
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        out[i] = f(b[i].item() if hasattr(b[i], 'item') else b[i], a)
    return out


class CX:
    """complex with symbolic parts (Python level only)"""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CX(self.re, f_neg(self.im))

    def __add__(self, o):
        return cbin('+', self, o)
    def __radd__(self, o):
        return cbin('+', o, self)
    def __sub__(self, o):
        return cbin('-', self, o)
    def __rsub__(self, o):
        return cbin('-', o, self)
    def __mul__(self, o):
        return cbin('*', self, o)
    def __rmul__(self, o):
        return cbin('*', o, self)
    def __truediv__(self, o):
        return cbin('/', self, o)
    def __neg__(self):
        return CX(f_neg(self.re), f_neg(self.im))
    def __abs__(self):
        return f_sqrt(fbin('+', fbin('*', self.re, self.re), fbin('*', self.im, self.im)))


def cparts(x):
    if isinstance(x, CX):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0.0


def cbin(op, a, b):
    if _arr(b):
        return NotImplemented
    (ar, ai), (br, bi) = cparts(a), cparts(b)
    if op in '+-':
        return CX(fbin(op, ar, br), fbin(op, ai, bi))
    if op == '*':
        return CX(fbin('-', fbin('*', ar, br), fbin('*', ai, bi)), fbin('+', fbin('*', ar, bi), fbin('*', ai, br)))
    d = fbin('+', fbin('*', br, br), fbin('*', bi, bi))
    n = cbin('*', a, CX(br, f_neg(bi)))
    return CX(fbin('/', n.re, d), fbin('/', n.im, d))


def _cmpop(op):
    def f(a, b):
        if _arr(b):
            return _obj(a, b, op)
        if b is None or isinstance(b, (str, list, tuple, dict, type)):
            return {'eq': False, 'ne': True}.get(op, NotImplemented)
        if is_b(a) and is_b(b):
            return NOT(b_xor(a, b)) if op == 'eq' else b_xor(a, b)
        if _intlike(a) and _intlike(b):
            if isinstance(a, RI) or isinstance(b, RI):
                return ri_cmp('s' + op if op not in ('eq', 'ne') else op, _pi(a), _pi(b), 64)
            return m_cmp(op, _pi(a), _pi(b))
        return f_cmp(op, a, b)
    return f


def _floordiv(a, b):
    if _intlike(a) and _isint(b) and b > 0:
        x = _pi(a)
        if b & (b - 1) == 0:
            return m_fdiv2(x, b.bit_length() - 1)
        lo, hi = bounds(x)
        if lo >= 0:
            return m_sdiv(x, int(b))
        k = -(lo // b)
        return m_sub(m_sdiv(m_add(x, k * b), int(b)), k)
    return f_floor(fbin('/', a, b))


def _mod(a, b):
    q = _floordiv(a, b)
    return a - q * b


def _pow(a, b):
    if _isint(b) or (isinstance(b, float) and b == int(b)):
        b = int(b)
        if b >= 0 and b <= 8:
            r = None
            for _ in range(b):
                r = a if r is None else r * a
            return 1 if r is None else r
    if b == 0.5:
        return f_sqrt(a)
    return f_pow(a if isinstance(a, Sym) else float(a), b if isinstance(b, Sym) else float(b))


def _float(x):
    # float(sym): allowed only where Python forces it; keep symbolic via Unsupported
    raise Unsupported('float() of a symbolic value')


def _index(x):
    return H.cur.conc(x)


for _c in (T, SI, LF, RT, RI, FO, SB):
    _a, _ra = _mk('+', '+', m_add)
    _s, _rs = _mk('-', '-', m_sub)
    _m, _rm = _mk('*', '*', m_mul)
    _d, _rd = _mk('/', '/', None)
    _c.__add__, _c.__radd__ = _a, _ra
    _c.__sub__, _c.__rsub__ = _s, _rs
    _c.__mul__, _c.__rmul__ = _m, _rm
    _c.__truediv__, _c.__rtruediv__ = _d, _rd
    if _c is not SB:
        _c.__lt__, _c.__le__, _c.__gt__, _c.__ge__ = map(_cmpop, ('lt', 'le', 'gt', 'ge'))
        _c.__eq__, _c.__ne__ = _cmpop('eq'), _cmpop('ne')
        _c.__and__ = _c.__rand__ = lambda a, b: b_and(a, b)
        _c.__or__ = _c.__ror__ = lambda a, b: b_or(a, b)
        _c.__xor__ = _c.__rxor__ = lambda a, b: b_xor(a, b)
        _c.__invert__ = NOT
    _c.__neg__ = lambda a: m_neg(_pi(a)) if _intlike(a) and not isinstance(a, RI) else f_neg(a)
    _c.__pos__ = lambda a: a
    _c.__abs__ = lambda a: SEL(a < 0, -a, a) if _intlike(a) else f_abs(a)
    _c.__floordiv__ = _floordiv
    _c.__mod__ = _mod
    _c.__pow__ = _pow
    _c.__rpow__ = lambda a, b: _pow(b, a)
    _c.__float__ = _float
    _c.__index__ = _index
    _c.__int__ = lambda a: (_pi(a) if _intlike(a) else f_to_int(a, 64, True)) if False else H.cur.conc(f_to_int(a, 64, True) if not _intlike(a) else _pi(a))
    # numpy object-array ufuncs call these methods
    _c.sqrt = f_sqrt
    _c.floor = f_floor
    _c.ceil = f_ceil
    _c.sin = lambda a: f_unary(m_sin, a, lambda r: H.cur.uf('sin', r))
    _c.cos = lambda a: f_unary(m_cos, a, lambda r: H.cur.uf('cos', r))
    _c.exp = lambda a: f_unary(m_exp, a, lambda r: H.cur.uf('exp', r))
    _c.log = lambda a: f_unary(m_log, a, lambda r: H.cur.uf('log', r))
    _c.arccos = lambda a: f_unary(m_acos, a, lambda r: H.cur.uf('acos', r))
    _c.conjugate = lambda a: a
    _c.real = property(lambda a: a)
    _c.imag = property(lambda a: 0.0)
