"""Run-time support of generated code and models of the external (libstdc++ / libm) functions."""
import math
import struct

import numpy as np

from . import mach, val as V
from .ir import G, EXT, FNBASE
from .mach import (M, M64, LD, ST, LDR, STR, ALLOCA, CxxThrow, MemError, Trap, Unsupported, H, ld, addr)
from .val import (UNDEF, Undef, F32, SEL, NOT, AND, OR, b_and, b_or, b_xor, i_cmp, i_add, f_to_int, int_to_f, fdiv, f_fmod, SB, T, Sym)
from . import ir as IR


def CONC(x, n):
    if isinstance(x, Undef):
        raise V.UninitUse('switch on an uninitialised value')
    if isinstance(x, bool):
        return int(x)
    v = H.cur.conc(x)
    return v & ((1 << n) - 1)


def UNREACH():
    raise Trap('unreachable executed')


def TRAP():
    raise Trap('trap executed')


def JOIN(*by):
    """integer of an odd width"""
    if all(type(b) is int for b in by):
        return sum(b << 8 * i for i, b in enumerate(by))
    return by


def SPLIT(v, n):
    return v if type(v) is tuple else [v >> 8 * i & 255 for i in range(n)]


def OFF(a, o):
    return a + o if type(a) is int else i_add(a, o, 64)


def GEP(base, off, *xs):
    a = base
    for k in range(0, len(xs), 3):
        x, sz, w = xs[k:k + 3]
        if type(x) is int:
            if x >> (w - 1):
                x -= 1 << w
            off += x * sz
        else:
            a = i_add(a, V.i_mul(V.i_sext(x, w, 64) if w < 64 else x, sz, 64), 64)
    if type(a) is int:
        return (a + off) & M64
    return i_add(a, off & M64, 64) if off else a


def TOB(v):
    if type(v) is int:
        return bool(v & 1)
    if isinstance(v, (bool, SB)) or isinstance(v, Undef):
        return v
    if isinstance(v, T) and v.k == 'b':
        return v
    return i_cmp('ne', v, 0, 8)


def B2I(v):
    if v is True:
        return 1
    if v is False:
        return 0
    if isinstance(v, Undef):
        return v
    return V.b2i(v)


def INSV(t, v, ix):
    t = list(t)
    if len(ix) == 1:
        t[ix[0]] = v
    else:
        t[ix[0]] = INSV(t[ix[0]], v, ix[1:])
    return tuple(t)


def PAD(ex, clean, clauses):
    names = mach.ti_chain(ex.ti)
    for c in clauses:
        if c == 0:
            return (('exc', ex), 0)
        if PROG().ti.get(c) in names:
            return (('exc', ex), c)
    if clean:
        return (('exc', ex), 0)
    raise ex


def RES(v):
    e = v[0][1]
    return e.ptr, e.ti


def PROG():
    return IR.PROG


def BYVAL(p, n):
    a = ALLOCA(n)
    mach.memcpy(a, p, n)
    return a


def FPTR(a):
    if type(a) is not int:
        a = addr(a)
    n = IR.PROG.ataddr.get(a)
    if n is None:
        raise MemError(f'call through a bad function pointer {a:#x}')
    return G[n]


def SELL(c, x, y):
    return x if c is True else y if c is False else SEL(c, x, y)


def ICMP(pred, x, y, n):
    if type(x) is int and type(y) is int:
        if pred[0] == 's':
            x, y = V.asS(x, n), V.asS(y, n)
            p = pred[1:]
        else:
            p = pred.lstrip('u') if pred not in ('eq', 'ne') else pred
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    return i_cmp(pred, x, y, n)


def _mk(cf, sf):
    def f(x, y, n):
        if type(x) is int and type(y) is int:
            return cf(x, y, n)
        return sf(x, y, n)
    return f


def _s(x, n):
    return x - (1 << n) if x >> (n - 1) else x


def _ashr(x, y, n):
    return (_s(x, n) >> y) & ((1 << n) - 1)


def _dz(*a):
    raise Trap('integer division by zero')


def _sdiv(x, y, n):
    if y == 0:
        _dz()
    return V._tdiv(_s(x, n), _s(y, n)) & ((1 << n) - 1)


def _srem(x, y, n):
    if y == 0:
        _dz()
    a, b = _s(x, n), _s(y, n)
    return (a - b * V._tdiv(a, b)) & ((1 << n) - 1)


def _ck0(f):
    def g(x, y, n):
        if not isinstance(y, int) and H.cur.decide(i_cmp('eq', y, 0, n)):
            _dz()
        if type(y) is int and y == 0:
            _dz()
        return f(x, y, n)
    return g


G.update(
    M=M, LD=LD, ST=ST, LDR=LDR, STR=STR, ALLOCA=ALLOCA, CxxThrow=CxxThrow, CONC=CONC, UNREACH=UNREACH, TRAP=TRAP, OFF=OFF, JOIN=JOIN, SPLIT=SPLIT, GEP=GEP,
    TOB=TOB, B2I=B2I, INSV=INSV, PAD=PAD, RES=RES, BYVAL=BYVAL, FPTR=FPTR, SELL=SELL, ICMP=ICMP, SEL=SEL, NOT=NOT, AND=AND, OR=OR,
    b_and=b_and, b_or=b_or, b_xor=b_xor, i_cmp=i_cmp, F32=F32, fdiv=fdiv, f_fmod=f_fmod, f_to_int=f_to_int, int_to_f=int_to_f,
    i_add=V.i_add, i_sub=V.i_sub, i_mul=V.i_mul, i_and=V.i_and, i_or=V.i_or, i_xor=V.i_xor, i_shl=V.i_shl, i_lshr=V.i_lshr,
    i_zext=V.i_zext, i_sext=V.i_sext, i_trunc=V.i_trunc,
    MEMSET=mach.memset, MEMCPY=mach.memcpy, NAN=math.nan, INF=math.inf, NINF=-math.inf,
    I_ashr=_mk(_ashr, V.i_ashr), I_sdiv=_mk(_sdiv, _ck0(V.i_sdiv)), I_srem=_mk(_srem, _ck0(V.i_srem)),
    I_udiv=_mk(lambda x, y, n: x // y if y else _dz(), _ck0(V.i_udiv)), I_urem=_mk(lambda x, y, n: x % y if y else _dz(), _ck0(V.i_urem)),
    I_shl=_mk(lambda x, y, n: (x << y) & ((1 << n) - 1) if y < n else 0, V.i_shl), I_lshr=_mk(lambda x, y, n: x >> y if y < n else 0, V.i_lshr),
)


def _minmax(o):
    def f(x, y, n):
        c = ICMP(o, x, y, n)
        return SELL(c, x, y)
    return f


G['I_umax'] = _minmax('ugt')
G['I_umin'] = _minmax('ult')
G['I_smax'] = _minmax('sgt')
G['I_smin'] = _minmax('slt')


def _abs(x, y, n):
    return SELL(ICMP('slt', x, 0, n), G['I_sub'](0, x, n), x)


G['I_sub'] = _mk(lambda x, y, n: (x - y) & ((1 << n) - 1), V.i_sub)
G['I_abs'] = _abs
G['I_usub_sat'] = lambda x, y, n: SELL(ICMP('ult', x, y, n), 0, G['I_sub'](x, y, n))
G['I_uadd_sat'] = lambda x, y, n: min(x + y, (1 << n) - 1)


def _c(f):
    def g(x, y, n):
        if type(x) is not int:
            x = CONC(x, n)
        return f(x, n)
    return g


G['I_ctlz'] = _c(lambda x, n: n - x.bit_length())
G['I_cttz'] = _c(lambda x, n: (x & -x).bit_length() - 1 if x else n)
G['I_ctpop'] = _c(lambda x, n: bin(x).count('1'))


def OVF(k, x, y, n):
    x, y = CONC(x, n) if type(x) is not int else x, CONC(y, n) if type(y) is not int else y
    if k[0] == 's':
        x, y = _s(x, n), _s(y, n)
    r = x * y if k[1:] == 'mul' else x + y if k[1:] == 'add' else x - y
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if k[0] == 's' else (0, (1 << n) - 1)
    return (r & ((1 << n) - 1), not (lo <= r <= hi))


G['OVF'] = OVF


def r32(f):
    def g(x, w=64):
        r = f(x)
        return F32(r) if w == 32 else r
    return g


def _sym(py, sy):
    def f(x):
        return py(x) if type(x) is float else sy(x)
    return f


def _uf(name, m):
    return lambda x: V.f_unary(m, x, lambda r: H.cur.uf(name, r))


G['L_sqrt'] = r32(_sym(V.m_sqrt, V.f_sqrt))
G['L_floor'] = r32(_sym(V.m_floor, V.f_floor))
G['L_ceil'] = r32(_sym(V.m_ceil, V.f_ceil))
G['L_fabs'] = r32(_sym(abs, V.f_abs))
G['L_trunc'] = r32(_sym(V.m_trunc, V.f_trunc))
G['L_fmuladd'] = lambda x, y, z, w: F32(F32(x * y) + z) if w == 32 else x * y + z


def _rint(x):
    if not math.isfinite(x):
        return x
    return math.copysign(float(round(x)), x)


G['L_rint'] = G['L_nearbyint'] = r32(lambda x: V.f_unary(_rint, x))
G['L_round'] = r32(lambda x: V.f_round(x) if hasattr(V, 'f_round') else V.f_unary(lambda v: math.copysign(math.floor(abs(v) + 0.5), v), x))
G['L_minnum'] = lambda x, y, w: SELL(x < y, x, SELL(AND(x == x, y != y), x, y))
G['L_maxnum'] = lambda x, y, w: SELL(x > y, x, SELL(AND(x == x, y != y), x, y))


def _copysign(x, y, w):
    if type(x) is float and type(y) is float:
        return math.copysign(x, y)
    return SELL(y < 0.0, -V.f_abs(x), V.f_abs(x))


G['L_copysign'] = _copysign


def VRFADD(s, v, w):
    for x in v:
        s = F32(s + x) if w == 32 else s + x
    return s


def VRED(k, v, n):
    r = v[0]
    for x in v[1:]:
        r = V.i_add(r, x, n) if k == 'add' else V.i_or(r, x, n) if k == 'or' else V.i_and(r, x, n) if k == 'and' else V.i_mul(r, x, n)
    return r


def FPCLASS(x, mask):
    if type(x) is not float:
        x = H.cur.conc(x)
    cls = 0x3 if x != x else (0x4 if x < 0 else 0x200) if math.isinf(x) else (0x20 if math.copysign(1, x) < 0 else 0x40) if x == 0 else (0x8 if x < 0 else 0x100)
    return bool(cls & mask)


def BITCAST(x, ft, tt):
    if ft == ('f', 32) and tt == ('i', 32):
        return mach._conv((5, x), 3)
    if ft == ('i', 32) and tt == ('f', 32):
        return mach._conv((3, x), 5)
    if ft == ('f', 64) and tt == ('i', 64):
        return mach._conv((6, x), 4)
    if ft == ('i', 64) and tt == ('f', 64):
        return mach._conv((4, x), 6)
    if ft == tt or ft[0] == tt[0] == 'p':
        return x
    if ft == ('x', 2, ('f', 32)) and tt == ('f', 64):
        return mach._conv((4, mach._cat((5, x[0]), (5, x[1]))), 6)
    raise Unsupported(f'bitcast {ft} {tt}')


G['VRFADD'] = VRFADD
G['VRED'] = VRED
G['FPCLASS'] = FPCLASS
G['BITCAST'] = BITCAST


# libm --------------------------------------------------------------------------------------------
def lib(name, f, f32=True):
    EXT[name] = f
    if f32:
        EXT[name + 'f'] = lambda *a: F32(f(*a))


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'tanh', 'cosh', 'sinh', 'cbrt', 'erf', 'erfc', 'log2', 'log10', 'exp2', 'expm1', 'log1p'):
    _m = getattr(V, 'm_' + _n, None)
    if _m is None and hasattr(math, _n):
        _npn = {'asin': 'arcsin', 'atan': 'arctan'}.get(_n, _n)
        _m = V.mf(getattr(math, _n), getattr(np, _npn, np.vectorize(getattr(math, _n))))
    lib(_n, _uf(_n, _m))
EXT['logl'] = EXT['log']


def _cyl_bessel_j(nu, x):
    nu = V.H.cur.conc(nu) if isinstance(nu, Sym) else nu
    if nu != int(nu):
        raise Unsupported('Bessel function of fractional order')
    if H.cur.decide(x < 0) if isinstance(x, Sym) else x < 0:
        _thrower('St12domain_error')()
    return V.f_unary(V.m_bessel(int(nu)), x, lambda r: V.H.cur.uf(f'j{int(nu)}', r))


EXT['_ZNSt8__detail14__cyl_bessel_jIdEET_S1_S1_'] = _cyl_bessel_j
lib('sqrt', G['L_sqrt'])
lib('floor', G['L_floor'])
lib('ceil', G['L_ceil'])
lib('fabs', G['L_fabs'])
lib('trunc', G['L_trunc'])
lib('fmod', f_fmod)
lib('atan2', V.f_atan2)
lib('pow', V.f_pow)
lib('rint', G['L_rint'])
lib('round', G['L_round'])
lib('nearbyint', G['L_rint'])


def _remainder(a, b):
    if type(a) is float and type(b) is float:
        try:
            return math.remainder(a, b)
        except ValueError:
            return math.nan
    return V.f_bin_tab(np.vectorize(math.remainder), a, b)


lib('remainder', _remainder)
EXT['fmaxf'] = EXT['fmax'] = lambda x, y: G['L_maxnum'](x, y, 0)
EXT['fminf'] = EXT['fmin'] = lambda x, y: G['L_minnum'](x, y, 0)
EXT['hypot'] = lambda x, y: V.f_sqrt(x * x + y * y)
EXT['hypotf'] = lambda x, y: F32(V.f_sqrt(x * x + y * y))


def _nextafterf(x, y):
    return F32(V.f_bin_tab(lambda a, b: np.nextafter(np.float32(a), np.float32(b)).astype(np.float64), x, y))


EXT['nextafterf'] = _nextafterf
EXT['nextafter'] = lambda x, y: V.f_bin_tab(np.nextafter, x, y)


def _frexp(*a):
    raise Unsupported('frexp')


def _lround(x):
    return f_to_int(G['L_round'](x), 64, True)


EXT['lround'] = EXT['lroundf'] = EXT['llround'] = _lround
EXT['lrint'] = EXT['lrintf'] = lambda x: f_to_int(G['L_rint'](x), 64, True)


# complex: (re, im) as returned in registers ------------------------------------------------------
def cmul(a, b, c, d, f):
    return f(f(a * c) - f(b * d)), f(f(a * d) + f(b * c))


def _muldc3(a, b, c, d):
    return cmul(a, b, c, d, lambda x: x)


def _mulsc3(a, b, c, d):
    return cmul(a, b, c, d, F32)


def _cdiv(a, b, c, d, f):
    s = c * c + d * d
    return f(fdiv(a * c + b * d, s)), f(fdiv(b * c - a * d, s))


EXT['__muldc3'] = _muldc3
EXT['__mulsc3'] = _mulsc3
EXT['__divdc3'] = lambda a, b, c, d: _cdiv(a, b, c, d, lambda x: x)
EXT['__divsc3'] = lambda a, b, c, d: _cdiv(a, b, c, d, F32)
EXT['cabs'] = lambda a, b: V.f_sqrt(a * a + b * b)


def _two(v):
    """a float complex passed as <2 x float>"""
    return v if isinstance(v, tuple) else v


EXT['cabsf'] = lambda v: F32(V.f_sqrt(v[0] * v[0] + v[1] * v[1]))
EXT['cargf'] = lambda v: F32(V.f_atan2(v[1], v[0]))
EXT['carg'] = lambda a, b: V.f_atan2(b, a)


def _cexpf(v):
    e = V.f_unary(V.m_exp, v[0])
    return (F32(e * EXT['cos'](v[1])), F32(e * EXT['sin'](v[1])))


EXT['cexpf'] = _cexpf


def _cexp(a, b):
    e = V.f_unary(V.m_exp, a)
    return (e * EXT['cos'](b), e * EXT['sin'](b))


EXT['cexp'] = _cexp


def _csin(a, b):
    s, c = EXT['sin'](a), EXT['cos'](a)
    ch = V.f_unary(V.mf(math.cosh, np.cosh), b)
    sh = V.f_unary(V.mf(math.sinh, np.sinh), b)
    return (s * ch, c * sh)


def _ccos(a, b):
    s, c = EXT['sin'](a), EXT['cos'](a)
    ch = V.f_unary(V.mf(math.cosh, np.cosh), b)
    sh = V.f_unary(V.mf(math.sinh, np.sinh), b)
    return (c * ch, -(s * sh))


EXT['csin'] = _csin
EXT['ccos'] = _ccos


# heap ---------------------------------------------------------------------------------------------
def _new(n, *a):
    if type(n) is not int:
        n = H.cur.conc(n) & M64
    if n > 1 << 40:
        raise CxxThrow(0, 'St9bad_alloc')
    return mach.alloc(n)


for _n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_tRKSt9nothrow_t'):
    EXT[_n] = _new
for _n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t'):
    EXT[_n] = lambda p, *a: mach.free(p)


def _calloc(n, s):
    a = _new(n * s)
    mach.memset(a, 0, n * s)
    return a


EXT['calloc'] = _calloc


def _posix_memalign(pp, al, n):
    ST(pp, 4, _new(n))
    return 0


EXT['posix_memalign'] = _posix_memalign
EXT['memcpy'] = EXT['memmove'] = lambda d, s, n: (mach.memcpy(d, s, n), d)[1]
EXT['memset'] = lambda d, v, n: (mach.memset(d, v & 0xff, n), d)[1]
EXT['strlen'] = lambda s: len(mach.rd_cstr(s))
EXT['strcmp'] = lambda a, b: (lambda x, y: 0 if x == y else 1 if x > y else 0xffffffff)(mach.rd_cstr(a), mach.rd_cstr(b))


def _memcmp(a, b, n):
    for k in range(n):
        x, y = mach._byte(a + k), mach._byte(b + k)
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


EXT['memcmp'] = EXT['bcmp'] = _memcmp


# exceptions ---------------------------------------------------------------------------------------
caught = []


def ti_name(t):
    if isinstance(t, str):
        return t
    return IR.PROG.ti.get(t, f'?{t}')


def _throw(p, ti, d):
    raise CxxThrow(p, ti_name(ti))


def _begin_catch(e):
    if isinstance(e, tuple):
        caught.append(e[1])
        return e[1].ptr
    return e


def _rethrow():
    e = caught.pop()
    raise CxxThrow(e.ptr, e.ti)


def _end_catch():
    if caught:
        caught.pop()


EXT['__cxa_allocate_exception'] = lambda n: mach.alloc(n, 'e')
EXT['__cxa_free_exception'] = lambda p: None
EXT['__cxa_throw'] = _throw
EXT['__cxa_begin_catch'] = _begin_catch
EXT['__cxa_end_catch'] = _end_catch
EXT['__cxa_rethrow'] = _rethrow
EXT['__cxa_atexit'] = lambda *a: 0
EXT['__cxa_thread_atexit'] = lambda *a: 0
EXT['__cxa_get_exception_ptr'] = lambda e: e[1].ptr if isinstance(e, tuple) else e


def _pure():
    raise Trap('pure virtual call')


EXT['__cxa_pure_virtual'] = _pure


def _terminate(*a):
    raise Trap('std::terminate')


EXT['_ZSt9terminatev'] = _terminate
EXT['abort'] = _terminate
EXT['__clang_call_terminate'] = _terminate
EXT['__cxa_guard_acquire'] = lambda g: 0 if ld(g, 1) else 1
EXT['__cxa_guard_release'] = lambda g: ST(g, 1, 1)
EXT['__cxa_guard_abort'] = lambda g: None
EXT['__gxx_personality_v0'] = lambda *a: 0

_EXC = {'invalid_argument': 'St16invalid_argument', 'runtime_error': 'St13runtime_error', 'out_of_range': 'St12out_of_range', 'domain_error': 'St12domain_error', 'length_error': 'St12length_error',
        'logic_error': 'St11logic_error', 'range_error': 'St11range_error', 'overflow_error': 'St14overflow_error', 'underflow_error': 'St15underflow_error'}
for _n, _ti in _EXC.items():
    _L = f'{len(_n)}{_n}'
    for _c1 in ('C1', 'C2'):
        EXT[f'_ZNSt{_L}{_c1}EPKc'] = lambda p, s: mach.exc_msg.__setitem__(p, mach.rd_cstr(s))
        EXT[f'_ZNSt{_L}{_c1}ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'] = lambda p, s: mach.exc_msg.__setitem__(p, mach.str_get(s).decode('latin1'))
        EXT[f'_ZNSt{_L}{_c1}ERKS_'] = lambda p, s: mach.exc_msg.__setitem__(p, mach.exc_msg.get(s, ''))
    for _c1 in ('D0', 'D1', 'D2'):
        EXT[f'_ZNSt{_L}{_c1}Ev'] = lambda p: None


def _thrower(ti):
    def f(*a):
        p = mach.alloc(16, 'e')
        if a and type(a[0]) is int:
            try:
                mach.exc_msg[p] = mach.rd_cstr(a[0])
            except Exception:
                pass
        raise CxxThrow(p, ti)
    return f


EXT['_ZSt20__throw_length_errorPKc'] = _thrower('St12length_error')
EXT['_ZSt20__throw_out_of_rangePKc'] = _thrower('St12out_of_range')
EXT['_ZSt24__throw_out_of_range_fmtPKcz'] = _thrower('St12out_of_range')
EXT['_ZSt19__throw_logic_errorPKc'] = _thrower('St11logic_error')
EXT['_ZSt24__throw_invalid_argumentPKc'] = _thrower('St16invalid_argument')
EXT['_ZSt17__throw_bad_allocv'] = _thrower('St9bad_alloc')
EXT['_ZSt28__throw_bad_array_new_lengthv'] = _thrower('St20bad_array_new_length')
EXT['_ZSt25__throw_bad_function_callv'] = _thrower('St17bad_function_call')
EXT['_ZSt16__throw_bad_castv'] = _thrower('St8bad_cast')


# std::string ---------------------------------------------------------------------------------------
_S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'


def _s_replace(s, pos, n1, p, n2):
    b = mach.str_get(s)
    mach.str_set(s, b[:pos] + mach.rd_bytes(p, n2) + b[pos + n1:])
    return s


def _s_append(s, p, n):
    mach.str_set(s, mach.str_get(s) + mach.rd_bytes(p, n))
    return s


def _s_create(s, capp, old):
    c = ld(capp, 4)
    if c > old and c < 2 * old:
        c = 2 * old
        ST(capp, 4, c)
    return mach.alloc(c + 1)


def _s_construct(s, b, e, *a):
    mach.str_set(s, mach.rd_bytes(b, e - b), True)


def _s_rep_aux(s, pos, n1, n2, c):
    b = mach.str_get(s)
    mach.str_set(s, b[:pos] + bytes([c & 255]) * n2 + b[pos + n1:])
    return s


def _s_mutate(s, pos, n1, p, n2):
    b = mach.str_get(s)
    mach.str_set(s, b[:pos] + (mach.rd_bytes(p, n2) if p else b'\0' * n2) + b[pos + n1:])


EXT[_S + '10_M_replaceEmmPKcm'] = _s_replace
EXT[_S + '14_M_replace_auxEmmmc'] = _s_rep_aux
EXT[_S + '9_M_appendEPKcm'] = _s_append
EXT[_S + '6appendEPKc'] = lambda s, p: _s_append(s, p, len(mach.rd_cstr(p)))
EXT[_S + '9_M_createERmm'] = _s_create
EXT[_S + '9_M_assignERKS4_'] = lambda s, o: mach.str_set(s, mach.str_get(o))
EXT[_S + '9_M_mutateEmmPKcm'] = _s_mutate
for _k in ('PKc', 'Pc'):
    EXT[_S + f'12_M_constructI{_k}EEvT_S8_St20forward_iterator_tag'] = _s_construct
EXT[_S + '12_M_constructIPKcEEvT_S8_St20forward_iterator_tag'] = _s_construct
EXT[_S + '12_M_constructIPcEEvT_S7_St20forward_iterator_tag'] = _s_construct
def _s_substr_ctor(s, o, pos, n=(1 << 64) - 1, *a):
    b = mach.str_get(o)
    mach.str_set(s, b[pos:pos + n] if n < len(b) else b[pos:], True)


def _s_push(s, c):
    mach.str_set(s, mach.str_get(s) + bytes([c & 255]))


def _s_resize(s, n, c=0):
    b = mach.str_get(s)
    mach.str_set(s, b[:n] + bytes([c & 255]) * (n - len(b)))


EXT[_S + '12_M_constructEmc'] = lambda s, n, c: mach.str_set(s, bytes([c & 255]) * n, True)
EXT[_S + 'C1ERKS4_mm'] = EXT[_S + 'C2ERKS4_mm'] = _s_substr_ctor
EXT[_S + 'C1ERKS4_m'] = EXT[_S + 'C2ERKS4_m'] = _s_substr_ctor
EXT[_S + 'C1EPKcRKS3_'] = EXT[_S + 'C2EPKcRKS3_'] = lambda s, p, *a: mach.str_set(s, mach.rd_bytes(p, len(mach.rd_cstr(p))), True)
EXT[_S + '9push_backEc'] = _s_push
EXT[_S + '6resizeEmc'] = _s_resize
EXT[_S + '6resizeEm'] = _s_resize
EXT[_S + '7reserveEm'] = lambda s, n=0: None
EXT[_S + '6appendEmc'] = lambda s, n, c: (mach.str_set(s, mach.str_get(s) + bytes([c & 255]) * n), s)[1]
EXT[_S + '6appendERKS4_'] = lambda s, o: (mach.str_set(s, mach.str_get(s) + mach.str_get(o)), s)[1]
EXT[_S + 'pLEPKc'] = EXT[_S + '6appendEPKc']
EXT[_S + 'pLERKS4_'] = EXT[_S + '6appendERKS4_']
EXT[_S + '6assignEPKc'] = lambda s, p: (mach.str_set(s, mach.rd_bytes(p, len(mach.rd_cstr(p)))), s)[1]
EXT[_S + '8_M_eraseEmm'] = lambda s, pos, n: (lambda b: mach.str_set(s, b[:pos] + b[pos + n:]))(mach.str_get(s))
EXT['_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEPKc'] = lambda s, p: (lambda a, b: (a > b) - (a < b))(mach.str_get(s), mach.rd_bytes(p, len(mach.rd_cstr(p)))) & 0xffffffff
EXT['_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6substrEmm'] = lambda out, s, pos, n: _s_substr_ctor(out, s, pos, n)
EXT[_S + 'C1ERKS4_'] = lambda s, o: mach.str_set(s, mach.str_get(o), True)
EXT[_S + 'C2ERKS4_'] = EXT[_S + 'C1ERKS4_']


def _s_dtor(s):
    p = ld(s, 4)
    if p != s + 16:
        mach.free(p)


EXT[_S + 'D1Ev'] = EXT[_S + 'D2Ev'] = _s_dtor
EXT[_S + '10_M_disposeEv'] = _s_dtor

# iostreams: only used to build messages ----------------------------------------------------------
streams = {}
_OS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'
COUT = {'on': False}


def _os_ctor(p, *a):
    streams[p] = ''
    try:
        mach.memset(p, 0, 112)
    except MemError:
        pass


def _osw(p, s):
    streams[p] = streams.get(p, '') + s
    return p


EXT[_OS + 'C1Ev'] = EXT[_OS + 'C2Ev'] = _os_ctor
EXT[_OS + 'D1Ev'] = EXT[_OS + 'D2Ev'] = lambda p: None
EXT['_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv'] = lambda out, p: mach.str_set(out, streams.get(p, '').encode('latin1'), True)
EXT['_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = lambda p, s, n: _osw(p, mach.rd_bytes(s, n).decode('latin1'))
EXT['_ZNSo9_M_insertImEERSoT_'] = lambda p, v: _osw(p, str(v))
EXT['_ZNSo9_M_insertIlEERSoT_'] = lambda p, v: _osw(p, str(v))
EXT['_ZNSo9_M_insertIdEERSoT_'] = lambda p, v: _osw(p, str(v))
EXT['_ZNSolsEi'] = lambda p, v: _osw(p, str(v))
EXT['_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'] = lambda p: p
EXT['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = lambda p, c: _osw(p, chr(c & 255))
EXT['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = lambda p, s: _osw(p, mach.rd_cstr(s))
EXT['_ZNSo3putEc'] = lambda p, c: _osw(p, chr(c & 255))
EXT['_ZNSo5flushEv'] = lambda p: p
for _n in ('_ZNSt6localeD1Ev', '_ZNSt8ios_baseD2Ev', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZNSt6localeC1Ev', '_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate'):
    EXT[_n] = lambda *a: None


# red-black trees (kept unbalanced: same ordered contents) ------------------------------------------
def rb(n, k):
    return ld(n + k, 4)


def rb_next(x):
    if rb(x, 24):
        x = rb(x, 24)
        while rb(x, 16):
            x = rb(x, 16)
        return x
    y = rb(x, 8)
    while x == rb(y, 24):
        x = y
        y = rb(y, 8)
    if rb(x, 24) != y:
        x = y
    return x


def rb_prev(x):
    if ld(x, 3) == 0 and rb(rb(x, 8), 8) == x:
        return rb(x, 24)
    if rb(x, 16):
        y = rb(x, 16)
        while rb(y, 24):
            y = rb(y, 24)
        return y
    y = rb(x, 8)
    while x == rb(y, 16):
        x = y
        y = rb(y, 8)
    return y


def rb_insert(left, x, p, h):
    left = bool(left)
    ST(x, 3, 1)        # black: only the header stays red
    ST(x + 8, 4, p)
    ST(x + 16, 4, 0)
    ST(x + 24, 4, 0)
    if left:
        ST(p + 16, 4, x)
        if p == h:
            ST(h + 8, 4, x)
            ST(h + 24, 4, x)
        elif p == rb(h, 16):
            ST(h + 16, 4, x)
    else:
        ST(p + 24, 4, x)
        if p == rb(h, 24):
            ST(h + 24, 4, x)


for _c0 in ('', 'K'):
    EXT['_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = rb_next
    EXT['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'] = rb_next
    EXT['_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = rb_prev
    EXT['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base'] = rb_prev
EXT['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = rb_insert


# std::list
def _hook(n, pos):
    prev = ld(pos + 8, 4)
    ST(n, 4, pos)
    ST(n + 8, 4, prev)
    ST(prev, 4, n)
    ST(pos + 8, 4, n)


def _unhook(n):
    nx, pv = ld(n, 4), ld(n + 8, 4)
    ST(pv, 4, nx)
    ST(nx + 8, 4, pv)


EXT['_ZNSt8__detail15_List_node_base7_M_hookEPS0_'] = _hook
EXT['_ZNSt8__detail15_List_node_base9_M_unhookEv'] = _unhook


# hash tables
def _next_prime(n):
    n = max(n, 2)
    while any(n % d == 0 for d in range(2, int(n ** 0.5) + 1)):
        n += 1
    return n


def _next_bkt(pol, n):
    if n < 14:
        p = [1, 1, 3, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13][n] if n else 1
        if n == 0:
            return 1
    else:
        p = _next_prime(n)
    mlf = ld(pol, 5)
    ST(pol + 8, 4, int(math.floor(p * mlf)))
    return p


def _need_rehash(pol, nb, ne, ni):
    nxt = ld(pol + 8, 4)
    if ne + ni > nxt:
        mlf = ld(pol, 5)
        mn = max(ne + ni, 0 if nxt else 11) / mlf
        if mn >= nb:
            return (True, _next_bkt(pol, max(int(math.floor(mn)) + 1, nb * 2)))
        ST(pol + 8, 4, int(math.floor(nb * mlf)))
    return (False, 0)


EXT['_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm'] = _need_rehash
EXT['_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm'] = _next_bkt


def _hash_bytes(p, n, seed):
    h = seed
    for b in mach.rd_bytes(p, n):
        h = (h * 1099511628211 ^ b) & M64
    return h


EXT['_ZSt11_Hash_bytesPKvmm'] = _hash_bytes
EXT['_ZNSt6thread20hardware_concurrencyEv'] = lambda: 8
EXT['pthread_self'] = lambda *a: 0


def _lock(on):
    def f(*a):
        w = mach.WATCH['race']
        if w is not None:
            w.sync += on
        return 0
    return f


EXT['pthread_mutex_lock'] = _lock(1)
EXT['pthread_mutex_unlock'] = _lock(-1)
EXT['__cxa_throw_bad_array_new_length'] = _thrower('St20bad_array_new_length')


def _dynamic_cast(p, src, dst, hint):
    """walk the (single-inheritance) type info of the dynamic type"""
    if p == 0:
        return 0
    vt = ld(p, 4)
    ti = ld(vt - 8, 4)
    off = ld(vt - 16, 4)
    want = IR.PROG.ti.get(dst)
    if want in mach.ti_chain(IR.PROG.ti.get(ti)):
        return (p + _s(off, 64)) & M64
    return 0


EXT['__dynamic_cast'] = _dynamic_cast
