"""numpy arrays with symbolic elements and virtual dtypes."""
import math

import numpy as np

from . import val as V
from .val import F32, Sym, SB, T, CX, SEL, NOT, AND, OR, Unsupported

_odt = np.ndarray.dtype.__get__


def issym(x):
    return isinstance(x, (Sym, CX))


def has_sym(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (Sym, CX)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, np.ndarray) and _odt(x) == object:
        return True
    return False


def vdt_of(x):
    if isinstance(x, SArr):
        return x.vdt
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (SB, bool)) or (isinstance(x, T) and x.k == 'b'):
        return bool
    if isinstance(x, int) or V._intlike(x):
        return int
    if isinstance(x, (complex, CX)):
        return complex
    return float


def rtype(xs):
    arr = [v for v in map(vdt_of, xs)]
    dts = [np.dtype(d) if not isinstance(d, type) else {bool: False, int: 0, float: 0.0, complex: 0j}[d] for d in arr]
    if not any(isinstance(d, np.dtype) for d in dts):
        return np.result_type(*[np.asarray(d).dtype for d in dts])
    return np.result_type(*dts)


def conv1(v, dt):
    """convert an element to a dtype"""
    k = dt.kind
    if isinstance(v, V.Undef):
        return v
    if k == 'f':
        if isinstance(v, CX) or isinstance(v, complex):
            v = v.real
        if isinstance(v, (int, bool)):
            v = float(v)
        elif isinstance(v, Sym) and V._intlike(v):
            v = V.to_lf(V._pi(v)) if not isinstance(v, T) else T(v.idx, v.a.astype(np.float64), 'f')
        return F32(v) if dt.itemsize == 4 else v
    if k in 'iu':
        if isinstance(v, (float, int, bool)):
            return int(v)
        if isinstance(v, Sym):
            if V._intlike(v):
                return V._pi(v)
            return V.asS(V.f_to_int(v, 64, True), 64)
    if k == 'b':
        if isinstance(v, Sym):
            return v if V.is_b(v) else v != 0
        return bool(v)
    if k == 'c':
        if isinstance(v, CX):
            return CX(F32(v.re), F32(v.im)) if dt.itemsize == 8 else v
        if isinstance(v, Sym):
            return CX(v, 0.0)
        return complex(v)
    return v


class SArr(np.ndarray):
    vdt = np.dtype('f8')

    def __array_finalize__(self, obj):
        self.vdt = getattr(obj, 'vdt', np.dtype('f8'))

    @property
    def dtype(self):
        return self.vdt

    def o(self):
        return self.view(np.ndarray)

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        ins = [obj(x) for x in inputs]
        if method == '__call__':
            if uf is np.matmul:
                r = np.matmul(*ins)
                dt = rtype(inputs)
            else:
                f = UF.get(uf)
                if f is None:
                    raise Unsupported('ufunc ' + uf.__name__)
                where = kw.get('where', True)
                r = np.frompyfunc(f, len(ins), 1)(*ins)
                if where is not True:
                    raise Unsupported('ufunc where')
                dt = np.dtype(bool) if uf in CMP else rtype(inputs)
                if uf in FLT and dt.kind in 'iub':
                    dt = np.dtype('f8')
                if uf is np.absolute and dt.kind == 'c':
                    dt = np.dtype('f8')
                if kw.get('dtype') is not None:
                    dt = np.dtype(kw['dtype'])
        elif method == 'reduce':
            f = UF[uf]
            a = ins[0]
            ax = kw.get('axis', 0)
            kd = kw.get('keepdims', False)
            ini = kw.get('initial', None)
            ini = None if ini is np._NoValue else ini
            dt = np.dtype(bool) if uf in (np.logical_and, np.logical_or) else np.dtype(kw['dtype']) if kw.get('dtype') is not None else vdt_of(inputs[0])
            if dt.kind == 'b' and uf is np.add:
                dt = np.dtype('i8')
            r = reduce(f, a, ax, kd, ini if ini is not None else IDENT.get(uf), dt, kw.get('where', True))
        elif method == 'accumulate':
            f = UF[uf]
            a = np.moveaxis(ins[0], kw.get('axis', inputs[1] if len(inputs) > 1 else 0), 0).copy()
            for i in range(1, len(a)):
                a[i] = np.frompyfunc(f, 2, 1)(a[i - 1], a[i])
            r = np.moveaxis(a, 0, kw.get('axis', 0))
            dt = vdt_of(inputs[0])
        elif method == 'outer':
            a, b = ins
            a = np.asarray(a)
            b = np.asarray(b)
            r = np.frompyfunc(UF[uf], 2, 1)(a.reshape(a.shape + (1,) * b.ndim), b)
            dt = rtype(inputs)
        elif method == 'at':
            tgt, idx, v = inputs
            if not isinstance(tgt, SArr):
                raise Unsupported('ufunc.at on a concrete array')
            it = np.broadcast(np.asarray(idx), obj(v)) if not np.isscalar(v) else None
            for i, k in enumerate(np.asarray(idx).tolist()):
                tgt[k] = conv1(UF[uf](tgt[k], v if it is None else obj(v)[i]), tgt.vdt)
            return None
        else:
            raise Unsupported('ufunc method ' + method)
        if not isinstance(r, np.ndarray):
            r = conv1(r, dt)
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        if out is not None and out[0] is not None:
            tgt = out[0]
            if isinstance(tgt, SArr):
                tgt.o()[...] = _cv(r, tgt.vdt)
            else:
                tgt[...] = concr(r, tgt.dtype)
            return tgt
        return wrap(_cv(r, dt), dt)

    def __array_function__(self, func, types, args, kw):
        f = AF.get(func)
        if f is not None:
            return f(*args, **kw)
        dts = []

        def un(x):
            if isinstance(x, SArr):
                dts.append(x.vdt)
                return x.o()
            if isinstance(x, (list, tuple)):
                return type(x)(un(y) for y in x)
            if isinstance(x, np.ndarray):
                dts.append(x.dtype)
            return x
        a = [un(x) for x in args]
        k = {n: un(x) for n, x in kw.items()}
        r = func(*a, **k)
        dt = np.result_type(*dts)

        def wr(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                return wrap(_cv(x, dt), dt)
            if isinstance(x, (list, tuple)):
                return type(x)(wr(y) for y in x)
            return x
        return wr(r)

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        return wrap(_cv(self.o(), dt), dt)

    @property
    def real(self):
        return mapel(self, lambda v: v.real if isinstance(v, (CX, complex)) else v, _rdt(self.vdt))

    @property
    def imag(self):
        return mapel(self, lambda v: v.imag if isinstance(v, (CX, complex)) else 0.0, _rdt(self.vdt))

    def mean(self, axis=None, **k):
        return _mean(self, axis, **k)

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            v = _cv(obj(v), self.vdt)
        elif isinstance(v, (list, tuple)):
            v = _cv(obj(mkarr(v)), self.vdt)
        else:
            v = conv1(v, self.vdt)
        np.ndarray.__setitem__(self.o(), key(k), v)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, key(k))
        return r

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1).o()[0])
        raise TypeError('only length-1 arrays')

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).o()[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')


def key(k):
    if isinstance(k, tuple):
        return tuple(key(x) for x in k)
    if isinstance(k, Sym):
        v = V.H.cur.conc(k)
        return int(v) if not isinstance(v, bool) else v
    if isinstance(k, SArr):
        return concr(k.o(), k.vdt)
    return k


def concr(r, dt):
    """plain numpy array; symbolic elements are enumerated"""
    out = np.empty(r.shape, dtype=dt)
    for i in np.ndindex(*r.shape):
        v = r[i]
        if isinstance(v, CX):
            v = complex(V.H.cur.conc(v.re), V.H.cur.conc(v.im))
        elif isinstance(v, Sym):
            v = V.H.cur.conc(v)
        out[i] = v
    return out


def _rdt(dt):
    return {8: np.dtype('f4'), 16: np.dtype('f8')}[dt.itemsize] if dt.kind == 'c' else dt


def obj(x):
    if isinstance(x, SArr):
        return x.o()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        r = np.empty(x.shape, dtype=object)
        r[...] = x
        if x.ndim == 0:
            r[()] = x.item()
        else:
            fl = r.reshape(-1)
            for i, v in enumerate(x.reshape(-1).tolist()):
                fl[i] = v
        return r
    if isinstance(x, (list, tuple)):
        return obj(mkarr(x))
    if isinstance(x, np.generic):
        return x.item()
    if issym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    return x


def wrap(r, dt):
    r = r.view(SArr)
    r.vdt = dt
    return r


def _cv(r, dt):
    out = np.empty(r.shape, dtype=object)
    a = r.reshape(-1)
    b = out.reshape(-1)
    for i in range(a.shape[0]):
        b[i] = conv1(a[i], dt)
    return out


def mapel(a, f, dt):
    r = np.empty(a.shape, dtype=object)
    x = obj(a).reshape(-1)
    y = r.reshape(-1)
    for i in range(x.shape[0]):
        y[i] = f(x[i])
    return wrap(r, dt)


def reduce(f, a, ax, kd, ini, dt, where=True):
    if where is not True:
        raise Unsupported('reduce where')
    if ax is None:
        ax = tuple(range(a.ndim))
    if isinstance(ax, (int, np.integer)):
        ax = (int(ax),)
    ax = tuple(x % a.ndim for x in ax)
    rest = [i for i in range(a.ndim) if i not in ax]
    b = a.transpose(list(ax) + rest).reshape((-1,) + tuple(a.shape[i] for i in rest))
    oshape = b.shape[1:]
    out = np.empty(oshape, dtype=object)
    for i in np.ndindex(*oshape):
        col = b[(slice(None),) + i]
        r = ini
        for v in col:
            r = v if r is None else f(r, v)
        if r is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        out[i] = r
    if kd:
        return out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    if out.ndim == 0:
        return out[()]
    return out


def mkarr(x, dt=None):
    """array with (possibly) symbolic elements"""
    if isinstance(x, np.ndarray):
        if isinstance(x, SArr):
            if dt is None or np.dtype(dt) == x.vdt:
                return x
            return x.astype(dt)
        if x.dtype == object:
            dt = np.dtype(dt or guess(x.reshape(-1).tolist()))
            return wrap(_cv(x, dt), dt)
        return x if dt is None else x.astype(dt)
    if isinstance(x, Sym) or isinstance(x, CX):
        a = np.empty((), dtype=object)
        a[()] = x
        dt = np.dtype(dt or guess([x]))
        return wrap(_cv(a, dt), dt)
    if isinstance(x, (int, float, complex, bool, np.generic)):
        return np.asarray(x, dtype=dt)
    shape = shp(x)
    a = np.empty(shape, dtype=object)
    fl = []
    flat(x, fl, len(shape))
    b = a.reshape(-1)
    if len(fl) != b.shape[0]:
        raise ValueError('inhomogeneous shape')
    for i, v in enumerate(fl):
        b[i] = v
    d = None
    for y in (x if isinstance(x, (list, tuple)) else []):
        if isinstance(y, np.ndarray):
            d = vdt_of(y) if d is None else np.result_type(d, vdt_of(y))
    dt = np.dtype(dt or d or guess(fl))
    return wrap(_cv(a, dt), dt)


def guess(vs):
    k = 'b'
    for v in vs:
        if isinstance(v, (bool, np.bool_, SB)) or (isinstance(v, T) and v.k == 'b'):
            c = 'b'
        elif isinstance(v, (complex, CX)):
            c = 'c'
        elif isinstance(v, (int, np.integer)) or V._intlike(v):
            c = 'i'
        else:
            c = 'f'
        if 'bifc'.index(c) > 'bifc'.index(k):
            k = c
    return {'b': bool, 'i': 'i8', 'f': 'f8', 'c': 'c16'}[k] if vs else 'f8'


def shp(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shp(x[0]) if len(x) else ())
    return ()


def flat(x, out, nd):
    if isinstance(x, np.ndarray):
        out.extend(obj(x).reshape(-1).tolist())
    elif isinstance(x, (list, tuple)):
        if nd == 0:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        for y in x:
            flat(y, out, nd - 1)
    else:
        if nd != 0:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out.append(x)


def _f1(m, sy):
    def f(x):
        if isinstance(x, (int, float, bool)) and not isinstance(x, Sym):
            return m(float(x))
        if isinstance(x, Sym):
            return sy(V.to_lf(x) if V._intlike(x) and not isinstance(x, (T, V.RI)) else x)
        raise Unsupported(f'function of {type(x).__name__}')
    return f


def _u(m, name):
    return _f1(m, lambda x: V.f_unary(m, x, lambda r: V.H.cur.uf(name, r)))


def _abs(x):
    if isinstance(x, complex):
        return abs(x)
    return abs(x)


def _mn(a, b):
    c = a < b
    return SEL(c, a, b) if isinstance(c, Sym) else (a if c or a != a else b)


def _mx(a, b):
    c = a > b
    return SEL(c, a, b) if isinstance(c, Sym) else (a if c or a != a else b)


def _cabs(x):
    if isinstance(x, (CX, complex)):
        return _u(V.m_sqrt, 'sqrt')(x.real * x.real + x.imag * x.imag) if isinstance(x, CX) else abs(x)
    return abs(x)


def _pw(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    try:
        return a ** b
    except ZeroDivisionError:
        return math.inf


def _td(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return V.fdiv(float(a), float(b))
    return a / b


def _isfin(x):
    if isinstance(x, T):
        return V.mkT(x.idx, np.isfinite(x.a), 'b')
    if isinstance(x, Sym):
        return True
    if isinstance(x, CX):
        return AND(_isfin(x.re), _isfin(x.im))
    return math.isfinite(x) if not isinstance(x, complex) else math.isfinite(x.real) and math.isfinite(x.imag)


def _isnan(x):
    if isinstance(x, T) and x.k == 'f':
        return V.mkT(x.idx, np.isnan(x.a), 'b')
    if isinstance(x, (Sym, CX)):
        return False
    return x != x


def _b(x):
    if isinstance(x, Sym):
        return x if V.is_b(x) else x != 0
    return bool(x)


def _clip(x, lo, hi):
    if lo is not None:
        x = _mx(x, lo)
    if hi is not None:
        x = _mn(x, hi)
    return x


def _bit(op):
    def f(a, b):
        if V.is_b(a) and V.is_b(b):
            return {'and': V.b_and, 'or': V.b_or, 'xor': V.b_xor}[op](a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported('bitwise on symbolic integers')
        return a & b if op == 'and' else a | b if op == 'or' else a ^ b
    return f


UF = {
    np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b, np.multiply: lambda a, b: a * b, np.true_divide: _td,
    np.floor_divide: lambda a, b: a // b, np.remainder: lambda a, b: a % b, np.power: _pw, np.negative: lambda a: -a, np.positive: lambda a: a,
    np.absolute: _cabs, np.fabs: _cabs, np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b, np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
    np.logical_and: lambda a, b: AND(_b(a), _b(b)), np.logical_or: lambda a, b: OR(_b(a), _b(b)), np.logical_not: lambda a: NOT(_b(a)),
    np.bitwise_and: _bit('and'), np.bitwise_or: _bit('or'), np.bitwise_xor: _bit('xor'), np.invert: lambda a: NOT(a) if V.is_b(a) else ~a,
    np.minimum: _mn, np.maximum: _mx, np.sqrt: _f1(V.m_sqrt, V.f_sqrt), np.floor: _f1(V.m_floor, V.f_floor), np.ceil: _f1(V.m_ceil, V.f_ceil),
    np.sin: _u(V.m_sin, 'sin'), np.cos: _u(V.m_cos, 'cos'), np.tan: _u(V.m_tan, 'tan'), np.exp: _u(V.m_exp, 'exp'), np.log: _u(V.m_log, 'log'),
    np.arccos: _u(V.m_acos, 'acos'), np.arcsin: _u(V.m_asin, 'asin'), np.arctan: _u(V.m_atan, 'atan'), np.square: lambda a: a * a,
    np.arctan2: lambda a, b: V.f_atan2(a if isinstance(a, Sym) else float(a), b if isinstance(b, Sym) else float(b)),
    np.hypot: lambda a, b: _f1(V.m_sqrt, V.f_sqrt)(a * a + b * b),
    np.isfinite: _isfin, np.isnan: _isnan, np.isinf: lambda a: AND(NOT(_isfin(a)), NOT(_isnan(a))), np.conjugate: lambda a: a.conjugate(),
    np.rint: lambda a: V.f_unary(lambda v: float(round(v)), a), np.sign: lambda a: SEL(a > 0, 1.0, SEL(a < 0, -1.0, 0.0)),
    np._core.umath.clip: _clip, np.deg2rad: lambda a: a * (math.pi / 180), np.rad2deg: lambda a: a * (180 / math.pi),
    np.fmod: lambda a, b: V.f_fmod(a, b), np.reciprocal: lambda a: 1.0 / a,
}
CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.logical_and, np.logical_or, np.logical_not, np.isfinite, np.isnan, np.isinf}
FLT = {np.true_divide, np.sqrt, np.sin, np.cos, np.exp, np.log, np.arccos, np.arctan2, np.floor, np.ceil, np.tan, np.arcsin, np.arctan, np.hypot}
IDENT = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False}


def _mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = mkarr(a)
    s = np.add.reduce(a, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in ((axis,) if isinstance(axis, int) else axis)]))
    dt = vdt_of(a)
    return s / n


def _where(c, *ab):
    if not ab:
        if isinstance(c, SArr):
            c = concr(c.o(), bool)
        return np.where(c)
    a, b = ab
    dt = rtype([x if not isinstance(x, (list, tuple)) else mkarr(x) for x in (a, b)])
    r = np.frompyfunc(lambda q, x, y: SEL(q, x, y) if isinstance(q, Sym) else (x if q else y), 3, 1)(obj(c), obj(a), obj(b))
    if not isinstance(r, np.ndarray):
        return r
    return wrap(_cv(r, dt), dt)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return abs(mkarr(a) - b) <= abs(mkarr(b)) * rtol + atol


def _allclose(a, b, **k):
    return _all(_isclose(a, b, **k))


def _all(a, axis=None, **k):
    return np.logical_and.reduce(mkarr(a), axis=axis)


def _any(a, axis=None, **k):
    return np.logical_or.reduce(mkarr(a), axis=axis)


def _array_equal(a, b, equal_nan=False):
    a, b = mkarr(a), mkarr(b)
    if a.shape != b.shape:
        return False
    return _all(mkarr(a) == b) if a.size else True


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported('norm ord')
    x = mkarr(x)
    return np.sqrt(wrapmaybe(np.add.reduce(x * x, axis=axis, keepdims=keepdims), vdt_of(x)))


def wrapmaybe(x, dt):
    if isinstance(x, np.ndarray):
        return x
    return mkarr(x, dt)


def _sqrt0(x):
    return UF[np.sqrt](x)


def _unique(a, **k):
    return np.unique(concr(obj(mkarr(a)), vdt_of(a)), **k)


def _concrfn(fn):
    def f(a, *r, **k):
        a2 = concr(a.o(), a.vdt) if isinstance(a, SArr) else a
        r2 = [concr(x.o(), x.vdt) if isinstance(x, SArr) else x for x in r]
        return fn(a2, *r2, **k)
    return f


def _round(a, decimals=0, out=None):
    a = mkarr(a)
    s = 10 ** decimals
    return mapel(a, lambda v: V.f_unary(lambda q: float(np.round(q, decimals)), v), a.vdt)


def _full_like(a, v, dtype=None, **k):
    dt = np.dtype(dtype or vdt_of(a))
    r = np.empty(a.shape, dtype=object)
    r.reshape(-1)[:] = conv1(v, dt)
    return wrap(r, dt)


def _det(a):
    a = obj(mkarr(a))
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if a.shape == (3, 3):
        return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    raise Unsupported('det')


def _array_repr(*a, **k):
    return '<symbolic array>'


def _diag(v, k=0):
    r = np.diag(obj(mkarr(v)), k)
    dt = vdt_of(v)
    return wrap(_cv(np.array(r, dtype=object), dt), dt)


AF = {
    np.where: _where, np.isclose: _isclose, np.allclose: _allclose, np.all: _all, np.any: _any, np.array_equal: _array_equal,
    np.linalg.norm: _norm, np.mean: _mean, np.unique: _unique, np.argsort: _concrfn(np.argsort), np.sort: _concrfn(np.sort),
    np.round: _round, np.around: _round, np.zeros_like: lambda a, dtype=None, **k: _full_like(a, 0, dtype),
    np.ones_like: lambda a, dtype=None, **k: _full_like(a, 1, dtype), np.empty_like: lambda a, dtype=None, **k: _full_like(a, 0, dtype),
    np.full_like: _full_like, np.linalg.det: _det, np.array_repr: _array_repr, np.array_str: _array_repr,
    np.argmin: _concrfn(np.argmin), np.argmax: _concrfn(np.argmax), np.lexsort: _concrfn(np.lexsort), np.bincount: _concrfn(np.bincount),
    np.histogram: _concrfn(np.histogram), np.digitize: _concrfn(np.digitize), np.searchsorted: _concrfn(np.searchsorted),
    np.linalg.inv: _concrfn(np.linalg.inv), np.real: lambda a: a.real, np.imag: lambda a: a.imag, np.diag: _diag,
    np.isin: _concrfn(np.isin), np.flatnonzero: _concrfn(np.flatnonzero), np.nonzero: _concrfn(np.nonzero), np.shape: lambda a: a.shape,
    np.repeat: None, np.einsum: None, np.count_nonzero: _concrfn(np.count_nonzero), np.diff: lambda a, n=1, axis=-1: a[1:] - a[:-1] if a.ndim == 1 else None,
    np.fft.fft: _concrfn(np.fft.fft), np.fft.ifft: _concrfn(np.fft.ifft), np.may_share_memory: lambda *a: False, np.shares_memory: lambda *a: False,
}
AF[np.iscomplex] = lambda a: (a.imag != 0) if a.vdt.kind == 'c' else _full_like(a, False, bool)
AF[np.isreal] = lambda a: (a.imag == 0) if a.vdt.kind == 'c' else _full_like(a, True, bool)
AF[np.iscomplexobj] = lambda a: a.vdt.kind == 'c'
AF[np.isrealobj] = lambda a: a.vdt.kind != 'c'
for _k in [k for k, v in AF.items() if v is None]:
    del AF[_k]


class NP:
    """stand-in for the numpy module inside the code under test"""

    def __init__(self):
        self.__dict__['_np'] = np

    def __getattr__(self, n):
        return getattr(np, n)

    def asarray(self, x, dtype=None, **k):
        if has_sym(x):
            return mkarr(x, dtype)
        return np.asarray(x, dtype=dtype, **k)

    def array(self, x, dtype=None, copy=True, **k):
        if has_sym(x):
            r = mkarr(x, dtype)
            return r.copy() if r is x else r
        return np.array(x, dtype=dtype, copy=copy, **k)

    def ascontiguousarray(self, x, dtype=None, **k):
        if has_sym(x):
            r = mkarr(x, dtype)
            return r if r.flags.c_contiguous else r.copy()
        return np.ascontiguousarray(x, dtype=dtype)

    asanyarray = asarray

    def asfortranarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def require(self, x, dtype=None, requirements=None, **k):
        if has_sym(x):
            r = mkarr(x, dtype)
            return r if r.flags.c_contiguous else r.copy()
        return np.require(x, dtype=dtype, requirements=requirements)

    def _new(self, shape, dtype, v):
        dt = np.dtype(dtype or 'f8')
        if dt.kind in 'fciu':
            r = np.empty(shape, dtype=object)
            r.reshape(-1)[:] = conv1(v, dt)
            return wrap(r, dt)
        return None

    def empty(self, shape, dtype=None, **k):
        r = self._new(shape, dtype, 0.0)
        return r if r is not None else np.zeros(shape, dtype)

    def zeros(self, shape, dtype=None, **k):
        r = self._new(shape, dtype, 0.0)
        return r if r is not None else np.zeros(shape, dtype)

    def ones(self, shape, dtype=None, **k):
        r = self._new(shape, dtype, 1.0)
        return r if r is not None else np.ones(shape, dtype)

    def full(self, shape, v, dtype=None, **k):
        if dtype is None:
            dtype = np.dtype(guess([v])) if issym(v) else np.asarray(v).dtype
        r = self._new(shape, dtype, v)
        return r if r is not None else np.full(shape, v, dtype)

    def isscalar(self, x):
        return issym(x) or np.isscalar(x)

    def ndim(self, x):
        return 0 if issym(x) else np.ndim(x)

    def __call_uf(self, uf, *a, **k):
        if any(issym(x) or (isinstance(x, (list, tuple)) and has_sym(x)) for x in a):
            if all(not isinstance(x, (np.ndarray, list, tuple)) for x in a):
                return UF[uf](*a)
            a = [mkarr(x) if isinstance(x, (list, tuple)) else x for x in a]
            for i, x in enumerate(a):
                if issym(x):
                    a[i] = mkarr(x)
        return uf(*a, **k)


def _mkuf(name, uf):
    def f(self, *a, **k):
        return self._NP__call_uf(uf, *a, **k)
    f.__name__ = name
    return f


class UFProxy:
    """a ufunc attribute that also accepts bare symbolic scalars and lists"""

    def __init__(self, uf):
        self.uf = uf

    def __call__(self, *a, **k):
        return NPX._NP__call_uf(self.uf, *a, **k)

    def __getattr__(self, n):
        return getattr(self.uf, n)


for _n in dir(np):
    _f = getattr(np, _n, None)
    if isinstance(_f, np.ufunc) and _f in UF:
        setattr(NP, _n, UFProxy(_f))


def _mkaf(fn):
    def f(self, *a, **k):
        if any(issym(x) or (isinstance(x, (list, tuple)) and has_sym(x)) for x in a):
            a = [mkarr(x) if (issym(x) or isinstance(x, (list, tuple)) and has_sym(x)) else x for x in a]
        return fn(*a, **k)
    return f


for _n in ('sum', 'prod', 'min', 'max', 'amin', 'amax', 'all', 'any', 'mean', 'dot', 'cross', 'where', 'isclose', 'allclose', 'array_equal', 'linalg', 'atleast_1d', 'atleast_2d', 'atleast_3d',
           'clip', 'broadcast_to', 'reshape', 'transpose', 'tile', 'repeat', 'roll', 'argsort', 'sort', 'unique', 'cumsum', 'average', 'matmul', 'outer', 'einsum', 'squeeze', 'ravel', 'round', 'diag', 'real', 'imag', 'iscomplex', 'isreal', 'iscomplexobj', 'isrealobj', 'stack', 'vstack', 'hstack', 'concatenate'):
    if _n == 'linalg':
        continue
    if _n in ('stack', 'vstack', 'hstack', 'concatenate'):
        def _cat(self, xs, *a, _fn=getattr(np, _n), **k):
            return _fn([mkarr(x) if has_sym(x) and not isinstance(x, np.ndarray) else x for x in xs], *a, **k)
        setattr(NP, _n, _cat)
        continue
    setattr(NP, _n, _mkaf(getattr(np, _n)))


class _Lin:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                a = [mkarr(x) if (issym(x) or isinstance(x, (list, tuple)) and has_sym(x)) else x for x in a]
                return f(*a, **k)
            return g
        return f


NP.linalg = _Lin()
NPX = NP()


class _MF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym) and not V._intlike(x) and not V.is_b(x)


class sfloat(float, metaclass=_MF):
    """stands for `float` inside the code under test"""
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0] if not isinstance(x, SArr) else x.o().reshape(-1)[0]
        if isinstance(x, Sym):
            return V.to_lf(x) if V._intlike(x) and not isinstance(x, (T, V.RI)) else T(x.idx, x.a.astype(np.float64), 'f') if isinstance(x, T) and x.k != 'f' else x
        return float(x)


class _MI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, Sym) and V._intlike(x)


class sint(int, metaclass=_MI):
    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0] if not isinstance(x, SArr) else x.o().reshape(-1)[0]
        if isinstance(x, Sym):
            if V._intlike(x):
                return x
            return int(V.H.cur.conc(V.f_trunc(x)))
        return int(x, *a)


# Fourier transforms of symbolic arrays: the defining sums -----------------------------------------
def _dft(sign, real_in=False, real_out=False):
    def f(x, n=None, axis=-1, **k):
        if any(v not in (None, False) for v in k.values()):
            raise Unsupported('options of a Fourier transform')
        a = np.moveaxis(obj(mkarr(x)), axis, 0)
        if real_out:
            n = 2 * (a.shape[0] - 1) if n is None else n
            h = [a[i] for i in range(n // 2 + 1)]
            a = np.array(h + [np.frompyfunc(lambda v: v.conjugate(), 1, 1)(h[n - i]) for i in range(n // 2 + 1, n)], dtype=object)
        n = a.shape[0] if n is None else n
        m = min(n, a.shape[0])
        out = np.empty((n // 2 + 1 if real_in else n,) + a.shape[1:], dtype=object)
        for j in range(out.shape[0]):
            for t in np.ndindex(*a.shape[1:]):
                re, im = 0.0, 0.0
                for i in range(m):
                    v = a[(i,) + t]
                    vr, vi = (v.re, v.im) if isinstance(v, CX) else (v.real, v.imag) if isinstance(v, complex) else (v, 0.0)
                    q = (i * j) % n
                    # exact values for multiples of a quarter turn
                    c, s = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][4 * q // n] if 4 * q % n == 0 else (math.cos(2 * math.pi * q / n), math.sin(2 * math.pi * q / n))
                    s *= sign
                    re, im = re + vr * c - vi * s, im + vr * s + vi * c
                if sign > 0:
                    re, im = re * (1 / n), im * (1 / n)
                out[(j,) + t] = CX(re, im) if not real_out else re
        return wrap(np.moveaxis(out, 0, axis), np.dtype('f8' if real_out else 'c16'))
    return f


FFT = {'fft': _dft(-1), 'ifft': _dft(1), 'rfft': _dft(-1, real_in=True), 'irfft': _dft(1, real_out=True)}


def patch_fft():
    for n, f in FFT.items():
        AF[getattr(np.fft, n)] = f
    import importlib
    for m, names in (('scipy.fftpack', ('fft', 'ifft')), ('scipy.fft', ('fft', 'ifft', 'rfft', 'irfft'))):
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        for n in names:
            def g(x, *a, _o=getattr(mod, n), _f=FFT[n], **k):
                return _f(x, *a, **k) if has_sym(x) else _o(x, *a, **k)
            setattr(mod, n, g)


# functions used by the diffraction pattern -----------------------------------------------------------
def _fft2(x, s=None, axes=(-2, -1), **k):
    if s is not None:
        raise Unsupported('options of a Fourier transform')
    for ax in axes:
        x = FFT['fft'](x, axis=ax, **k)
    return x


def _hist2d(x, y, bins=10, range=None, density=None, weights=None):
    """counts (or sums of weights) per cell: half-open bins, the last one closed"""
    if range is not None or density:
        raise Unsupported('options of histogram2d')
    if isinstance(bins, np.ndarray) and bins.ndim == 1:
        ex = ey = bins
    elif isinstance(bins, (list, tuple)) and len(bins) == 2:
        ex, ey = bins
    else:
        raise Unsupported('bins of histogram2d')
    ex, ey = (concr(obj(b), np.dtype(float)) if isinstance(b, SArr) else np.asarray(b) for b in (ex, ey))

    def where(v, ed):
        n = len(ed) - 1
        return [AND(v >= float(ed[i]), v < float(ed[i + 1]) if i < n - 1 else v <= float(ed[n])) for i in range_(n)]
    xs, ys = obj(mkarr(x)).reshape(-1), obj(mkarr(y)).reshape(-1)
    ws = [1.0] * len(xs) if weights is None else list(obj(mkarr(weights)).reshape(-1))
    if len(ws) != len(xs) or len(xs) != len(ys):
        raise ValueError('The weights and list don\'t have the same length.')
    out = np.empty((len(ex) - 1, len(ey) - 1), dtype=object)
    out[...] = 0.0
    for p, q, w in zip(xs, ys, ws):
        if isinstance(w, int):
            w = float(w)
        a, b = where(p, ex), where(q, ey)
        for i, c in enumerate(a):
            for j, d in enumerate(b):
                h = AND(c, d)
                if isinstance(h, Sym) and not isinstance(h, T):
                    h = V.H.cur.decide(h)
                if h is False:
                    continue
                out[i, j] = out[i, j] + (w if h is True else SEL(h, w, 0.0))
    return wrap(out, np.dtype('f8')), ex, ey


range_ = range
AF[np.fft.fft2] = _fft2
AF[np.histogram2d] = _hist2d


def _linear(fn, name):
    """a linear image operation, through its matrix"""
    def g(input, *a, **k):
        if not has_sym(input):
            return fn(input, *a, **k)
        if any(v is not None for v in (k.get('output'),)):
            raise Unsupported('output argument')
        a = tuple(concr(obj(x), x.vdt) if isinstance(x, SArr) else x for x in a)
        k = {n: concr(obj(x), x.vdt) if isinstance(x, SArr) else x for n, x in k.items()}
        x = obj(input)
        out = None
        cpl = input.vdt.kind == 'c'
        if has_sym(list(a)) or has_sym(list(k.values())):
            raise Unsupported('symbolic parameters of ' + name)
        for ix in np.ndindex(*x.shape):
            u = np.zeros(x.shape, dtype=complex if cpl else float)
            u[ix] = 1
            c = fn(u, *a, **k)
            if out is None:
                out = np.empty(c.shape, dtype=object)
                out[...] = CX(0.0, 0.0) if cpl else 0.0
            v = x[ix]
            if isinstance(v, complex):
                v = CX(v.real, v.imag)
            for o in np.argwhere(c):
                o = tuple(o)
                w = c[o]
                if cpl:
                    vr, vi = (v.re, v.im) if isinstance(v, CX) else (v, 0.0)
                    wr, wi = float(w.real), float(w.imag)
                    t = CX(vr * wr - (vi * wi if wi else 0.0), vi * wr + (vr * wi if wi else 0.0))
                    out[o] = CX(out[o].re + t.re, out[o].im + t.im)
                else:
                    out[o] = out[o] + v * float(w)
        return wrap(out, np.dtype('c16' if cpl else 'f8'))
    return g


def patch_images():
    import rowan
    try:
        import scipy.ndimage as nd
    except ImportError:
        return
    for n in ('fourier_gaussian', 'affine_transform'):
        setattr(nd, n, _linear(getattr(nd, n), n))
    rot = rowan.rotate

    def rotate(q, v):
        """rotation of symbolic vectors by a concrete quaternion"""
        if has_sym(q):
            q = concr(obj(mkarr(q)), np.dtype(float))
        if not has_sym(v):
            return rot(q, v)
        v = mkarr(v)
        q = np.asarray(q, dtype=float)
        if q.shape != (4,):
            raise Unsupported('several rotations of symbolic vectors')
        m = np.array([rot(q, c) for c in np.eye(3)]).T   # columns: images of the unit vectors
        x = obj(v).reshape(-1, 3)
        out = np.empty(x.shape, dtype=object)
        for i in range_(len(x)):
            for r in range_(3):
                s = 0.0
                for c in range_(3):
                    if m[r, c]:
                        s = s + x[i, c] * float(m[r, c])
                out[i, r] = s
        return wrap(out.reshape(v.shape), np.dtype('f8'))
    rowan.rotate = rotate
