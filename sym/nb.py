"""Fake extension modules: the nanobind side of the executor, on top of the real glue code in IR."""
import enum
import importlib.abc
import importlib.machinery
import os
import sys
import types

import numpy as np

from . import mach, val as V, ir as IR
from .ir import EXT, G
from .mach import M, ST, ld, CxxThrow, Unsupported, H, SZ
from .val import UNDEF, F32, Sym, SB, T, SI, LF
from .symnp import SArr, has_sym, mkarr

# dtype codes of the shim: code -> (numpy dtype, cell code, cells per element)
DT = {1: ('f4', 5, 1), 2: ('f8', 6, 1), 3: ('c8', 5, 2), 4: ('c16', 6, 2), 5: ('?', 1, 1),
      10: ('i1', 1, 1), 11: ('i2', 2, 1), 12: ('i4', 3, 1), 13: ('i8', 4, 1),
      20: ('u1', 1, 1), 21: ('u2', 2, 1), 22: ('u4', 3, 1), 23: ('u8', 4, 1)}
DTN = {c: np.dtype(v[0]) for c, v in DT.items()}


class NBCast(Exception):
    pass


class St:
    """per-run state"""
    ht = [None, None]
    wrap = {}
    arrays = {}      # id(array) -> (array, address, nbytes)
    views = []
    out = []         # arrays handed out: (array, address, code, cells)


CLS = {}             # tid -> python class
ENUM = {}            # tid -> enum builder
CUR = None           # module under initialisation
LASTDEF = None


def hnew(o):
    if o is None:
        return 1
    St.ht.append(o)
    return len(St.ht) - 1


def hget(h):
    return None if h == 1 else St.ht[h]


def _int(v, bits, sign):
    if isinstance(v, (SB,)) or (isinstance(v, T) and v.k == 'b'):
        return V.b2i(v)
    return v


def as_i64(h, bits, sign):
    o = hget(h)
    if isinstance(o, FakeEnumVal):
        return o.value & mach.M64
    if isinstance(o, np.ndarray) and o.ndim == 0:
        o = o.item()
    if isinstance(o, (bool, np.bool_)):
        o = int(o)
    if isinstance(o, (int, np.integer)):
        o = int(o)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sign else (0, (1 << bits) - 1)
        if not lo <= o <= hi:
            raise NBCast('integer out of range')
        return o & ((1 << bits) - 1) if bits < 64 else o & mach.M64
    if isinstance(o, Sym) and V._intlike(o):
        o = _int(o, bits, sign)
        if isinstance(o, V.RI):
            return o
        lo, hi = V.bounds(o)
        if not sign and lo < 0:
            if H.cur.decide(V.m_cmp('lt', o, 0)):
                raise NBCast('integer out of range')
            o = V.asU(o, bits)
        return o
    raise NBCast(f'int from {type(o).__name__}')


def as_f64(h):
    o = hget(h)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        o = o.item()
    if isinstance(o, (float, int, np.floating, np.integer, np.bool_)):
        return float(o)
    if isinstance(o, Sym):
        if isinstance(o, SI):
            return LF(o, 0)
        if isinstance(o, T) and o.k != 'f':
            return T(o.idx, o.a.astype(np.float64), 'f')
        return o
    raise NBCast(f'float from {type(o).__name__}')


def as_bool(h):
    o = hget(h)
    if isinstance(o, (bool, np.bool_)):
        return int(o)
    if isinstance(o, SB) or (isinstance(o, T) and o.k == 'b'):
        return V.b2i(o)
    raise NBCast('bool')


def from_i64(v, bits, sign):
    if type(v) is int:
        n = 64
        if sign:
            v = v - (1 << 64) if v >> 63 else v
            if bits < 64 and v >> (bits - 1) and v > 0:
                v -= 1 << bits
        return hnew(v)
    if isinstance(v, V.Undef):
        raise V.UninitUse('returned integer')
    return hnew(V.asS(v, bits) if sign else V.asU(v, bits))


def _f(v):
    if isinstance(v, V.Undef):
        raise V.UninitUse('returned float')
    return v


EXT['__nb_as_f64'] = as_f64
EXT['__nb_as_f32'] = lambda h: F32(as_f64(h))
EXT['__nb_as_i64'] = as_i64
EXT['__nb_as_bool'] = as_bool
EXT['__nb_from_f64'] = lambda v: hnew(_f(v))
EXT['__nb_from_f32'] = lambda v: hnew(_f(v))
EXT['__nb_from_i64'] = from_i64


def _from_bool(v):
    if type(v) is int:
        return hnew(bool(v & 1))
    if isinstance(v, SB) or isinstance(v, T) and v.k == 'b':
        return hnew(v)
    return hnew(V.i_cmp('ne', v, 0, 32))


EXT['__nb_from_bool'] = _from_bool
EXT['__nb_from_str'] = lambda p, n: hnew(mach.rd_bytes(p, n).decode())


def _as_str(h):
    o = hget(h)
    if not isinstance(o, str):
        raise NBCast('str')
    b = o.encode() + b'\0'
    a = mach.alloc(len(b))
    mach.wr_bytes(a, b)
    return a


EXT['__nb_as_str'] = _as_str


def tid(p):
    return mach.rd_cstr(p)


_tidc = {}


def tids(p):
    r = _tidc.get(p)
    if r is None:
        s = mach.rd_cstr(p)
        i = s.rfind('T = ')
        r = s[i + 4:].rstrip(']') if i >= 0 else s
        _tidc[p] = r
    return r


def nb_inst(h, tp):
    o = hget(h)
    c = CLS.get(tids(tp))
    if c is None:
        raise NBCast('unregistered class ' + tids(tp))
    if not isinstance(o, c):
        raise NBCast(f'{type(o).__name__} is not {c.__name__}')
    p = o.__dict__.get('_p')
    if p is None:
        raise NBCast('instance without a C++ object (its constructor was not called)')
    return p


def wrap_inst(p, tp):
    c = CLS.get(tids(tp))
    if c is None:
        raise Unsupported('wrap of unregistered class ' + tids(tp))
    k = (p, c)
    o = St.wrap.get(k)
    if o is None:
        o = c.__new__(c)
        o.__dict__['_p'] = p
        St.wrap[k] = o
    return hnew(o)


EXT['__nb_inst'] = nb_inst
EXT['__nb_wrap_inst'] = wrap_inst
EXT['__nb_list_new'] = lambda: hnew([])
EXT['__nb_list_append'] = lambda h, x: hget(h).append(hget(x))
EXT['__nb_tuple'] = lambda h: hnew(tuple(hget(h)))


def nb_len(h):
    o = hget(h)
    if isinstance(o, (str, dict)) or not hasattr(o, '__len__'):
        raise NBCast('sequence')
    return len(o)


def nb_getitem(h, i):
    o = hget(h)
    if isinstance(o, (complex, np.complexfloating)):
        return hnew((o.real, o.imag)[i])
    if isinstance(o, V.CX):
        return hnew((o.re, o.im)[i])
    if isinstance(o, (float, int)) and i < 2:
        return hnew((float(o), 0.0)[i])
    if not hasattr(o, '__getitem__'):
        raise NBCast('sequence')
    try:
        v = o[i]
    except IndexError:
        raise NBCast('sequence too short') from None
    if isinstance(v, np.generic):
        v = v.item()
    return hnew(v)


EXT['__nb_len'] = nb_len
EXT['__nb_getitem'] = nb_getitem


# arrays --------------------------------------------------------------------------------------------
def put_cells(a, arr, code):
    np_dt, cc, per = DT[code]
    flat = arr.reshape(-1)
    k = SZ[cc]
    n = flat.shape[0]
    if flat.dtype != object:
        vals = flat.tolist()
    else:
        vals = flat.tolist()
    if per == 2:
        for i, v in enumerate(vals):
            re, im = V.cparts(v)
            M[a + 2 * i * k] = (cc, re)
            M[a + (2 * i + 1) * k] = (cc, im)
        return
    if cc in (5, 6):
        for i, v in enumerate(vals):
            if type(v) is int or type(v) is bool:
                v = float(v)
            if cc == 5:
                v = F32(v)
            M[a + i * k] = (cc, v)
    else:
        mask = (1 << (8 * k)) - 1
        for i, v in enumerate(vals):
            if isinstance(v, (int, bool)):
                v = int(v) & mask
            elif isinstance(v, Sym):
                v = V.b2i(v) if isinstance(v, SB) or (isinstance(v, T) and v.k == 'b') else v
            M[a + i * k] = (cc, v)
        if k < 4 and n:
            mach.O[mach.find(a)[0]][3] = True


def get_cells(a, n, code):
    np_dt, cc, per = DT[code]
    k = SZ[cc]
    out = []
    sign = code in (10, 11, 12, 13)
    for i in range(n * per):
        c = M.get(a + i * k)
        v = c[1] if c is not None and c[0] == cc else mach.LD(a + i * k, cc)
        if cc <= 4 and code != 5:
            if type(v) is int:
                if sign:
                    v = V.asS(v, 8 * k)
            elif not isinstance(v, V.Undef):
                v = V.asS(v, 8 * k) if sign else V.asU(v, 8 * k)
        elif code == 5:
            if type(v) is int:
                v = bool(v & 1)
            elif isinstance(v, V.Undef):
                pass
            elif not (isinstance(v, SB) or (isinstance(v, T) and v.k == 'b')):
                v = V.i_cmp('ne', v, 0, 8)
        out.append(v)
    if per == 2:
        res = []
        for i in range(0, len(out), 2):
            re, im = out[i], out[i + 1]
            res.append(complex(re, im) if type(re) is float and type(im) is float else V.CX(re, im))
        out = res
    return out


def nb_nd(h, code, ro, ndim_req, shape_req, pdata, pndim, pshape):
    o = hget(h)
    if isinstance(o, View):
        o = o.arr
    if o is None or not isinstance(o, np.ndarray):
        raise NBCast(f'array from {type(o).__name__}')
    dt = DTN[code]
    have = getattr(o, 'vdt', o.dtype)
    if have == object:
        have = dt
    if ndim_req >= 0 and o.ndim != ndim_req:
        raise NBCast(f'ndim {o.ndim} != {ndim_req}')
    if shape_req:
        for i in range(o.ndim):
            r = V.asS(ld(shape_req + 8 * i, 4), 64)
            if r >= 0 and r != o.shape[i]:
                raise NBCast(f'shape {o.shape}')
    if have != dt:
        # nanobind converts implicitly only for read-only / copyable requests
        if not np.can_cast(have, dt, 'same_kind') and not (have.kind in 'iu' and dt.kind in 'iu'):
            if not (have.kind in 'fiub' and dt.kind in 'fiub'):
                raise NBCast(f'dtype {have} -> {dt}')
        o = mkarr(o, dt)
    if not o.flags.c_contiguous:
        o = o.copy()
    base = St.arrays.get(id(o))
    n = o.size * dt.itemsize
    if base is None:
        a = mach.alloc(max(n, 1))
        St.arrays[id(o)] = (o, a)
    else:
        a = base[1]
    if not hasattr(o, 'cview'):
        put_cells(a, o, code)
    if not ro:
        St.views.append((o, a, code))
    ST(pdata, 4, a)
    ST(pndim, 4, o.ndim)
    for i, s in enumerate(o.shape):
        ST(pshape + 8 * i, 4, s)
    return None


def writeback():
    for o, a, code in St.views:
        vals = get_cells(a, o.size, code)
        fl = o.reshape(-1)
        if isinstance(o, SArr) or not any(isinstance(v, (Sym, V.CX)) for v in vals):
            for i, v in enumerate(vals):
                fl[i] = v
        else:
            raise Unsupported('C++ wrote symbolic values into a concrete numpy array')
    St.views.clear()


class View:
    pass


def nb_nd_new(data, code, ndim, pshape, owner):
    shape = tuple(ld(pshape + 8 * i, 4) for i in range(ndim))
    shape = tuple(s if type(s) is int else H.cur.conc(s) for s in shape)
    n = 1
    for s in shape:
        n *= s
    if data == 0 or n == 0:
        return hnew(np.zeros(shape, dtype=DTN[code]))
    if n > 1 << 20:
        raise Unsupported('array result too large')
    vals = get_cells(data, n, code)
    if any(isinstance(v, (Sym, V.CX)) for v in vals):
        a = np.empty(n, dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        r = a.reshape(shape).view(SArr)
        r.vdt = DTN[code]
    else:
        r = np.array(vals, dtype=DTN[code]).reshape(shape)
    if owner > 1:
        St.out.append((r, data, code, n))
    return hnew(r)


def refresh():
    for r, data, code, n in St.out:
        vals = get_cells(data, n, code)
        if not isinstance(r, SArr):
            vals = [H.cur.conc(v) if isinstance(v, Sym) else v for v in vals]
        np.asarray(r).reshape(-1)[:] = vals


EXT['__nb_nd'] = nb_nd
EXT['__nb_nd_new'] = nb_nd_new


# classes and functions -------------------------------------------------------------------------------
class Ov:
    def __init__(self, name, cap, thunk, nargs, kind):
        self.name = name
        self.cap = cap
        self.thunk = thunk
        self.nargs = nargs
        self.kind = kind
        self.args = []

    def bind(self, pos, kw, method):
        """argument list or None"""
        n = self.nargs - (1 if method else 0)
        names = [a[0] for a in self.args]
        if len(pos) > n:
            return None
        out = list(pos)
        if names and len(names) < n:
            names = [None] * (n - len(names)) + names
        if not names and kw:
            return None
        used = set()
        for i in range(len(pos), n):
            nm = names[i] if names else None
            if nm is not None and nm in kw:
                out.append(kw[nm])
                used.add(nm)
            elif names and nm is not None and self.args[i - (n - len(self.args))][2]:
                out.append(hget(self.args[i - (n - len(self.args))][3]))
            else:
                return None
        if set(kw) - used:
            return None
        if names:
            for i, v in enumerate(out):
                j = i - (n - len(self.args))
                if v is None and j >= 0 and not self.args[j][1]:
                    pass
        return out

    def call(self, argv):
        a = mach.alloc(8 * max(1, len(argv)))
        for i, v in enumerate(argv):
            if isinstance(v, np.generic):
                v = v.item()
            M[a + 8 * i] = (4, hnew(v))
        r = G['FPTR'](self.thunk)(self.cap, a)
        return hget(r) if type(r) is int else None


def pyexc(e):
    t = None
    for n in mach.ti_chain(e.ti):
        if n in mach.PYEXC:
            t = mach.PYEXC[n]
            break
    x = (t or RuntimeError)(mach.exc_msg.get(e.ptr, e.ti))
    x.from_cxx = e.ti
    return x


def dispatch(ovs, self, pos, kw, name):
    why = []
    for ov in ovs:
        method = ov.kind != 4 and self is not None
        argv = ov.bind(pos, kw, method)
        if argv is None:
            why.append('argument names/count')
            continue
        if method:
            argv = [self] + argv
        try:
            St.views.clear()
            r = ov.call(argv)
            writeback()
            return r
        except NBCast as e:
            why.append(str(e))
            continue
        except CxxThrow as e:
            writeback()
            raise pyexc(e) from None
    raise TypeError(f'{name}(): incompatible function arguments ({"; ".join(why)})')


class FakeBase:
    _nbsize = 8


class FakeEnumVal:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __eq__(self, o):
        return isinstance(o, FakeEnumVal) and o.cls == self.cls and o.value == self.value

    def __hash__(self):
        return hash((self.cls, self.value))

    def __repr__(self):
        return f'{self.cls}.{self.name}'


def nb_class(name, tp, base, size):
    name = mach.rd_cstr(name)
    b = CLS.get(tids(base)) if base else None
    c = type(name, (b or FakeBase,), {'_nbsize': size, '_ov': {}})
    CLS[tids(tp)] = c

    def init(self, *pos, **kw):
        p = mach.alloc(max(size, 8))
        self.__dict__['_p'] = p
        ovs = type(self)._find('__init__')
        if not ovs:
            raise TypeError(f'{name}: no constructor defined!')
        try:
            dispatch(ovs, self, pos, kw, name)
        except BaseException:
            self.__dict__.pop('_p', None)
            raise
        St.wrap[(p, type(self))] = self

    @classmethod
    def _find(cls, n):
        for k in cls.__mro__:
            o = k.__dict__.get('_ov')
            if o and n in o:
                return o[n]
        return None
    c.__init__ = init
    c._find = _find
    c.__module__ = 'freud.' + CUR.__name__.split('.')[-1]
    setattr(CUR, name, c)


def nb_def(tp, name, cap, thunk, nargs, kind):
    global LASTDEF
    name = mach.rd_cstr(name)
    if kind == 1:
        name = '__init__'
    ov = Ov(name, cap, thunk, nargs, kind)
    LASTDEF = ov
    if tp == 0:
        f = CUR.__dict__.get(name)
        if f is None or not hasattr(f, 'ovs'):
            ovs = []

            def f(*pos, **kw):
                return dispatch(ovs, None, pos, kw, name)
            f.ovs = ovs
            f.__name__ = name
            setattr(CUR, name, f)
        f.ovs.append(ov)
        return
    c = CLS[tids(tp)]
    d = c.__dict__['_ov']
    if kind in (2, 3):
        ov.nargs = 1 if kind == 2 else 2
        prop = c.__dict__.get(name)
        fget = prop.fget if isinstance(prop, property) else None
        fset = prop.fset if isinstance(prop, property) else None
        if kind == 2:
            def fget(self):
                return dispatch([ov], self, (), {}, name)
        else:
            def fset(self, v):
                return dispatch([ov], self, (v,), {}, name)
        setattr(c, name, property(fget, fset))
        return
    lst = d.get(name)
    if lst is None:
        lst = d[name] = []
        if name != '__init__':
            if kind == 4:
                setattr(c, name, staticmethod(lambda *pos, **kw: dispatch(lst, None, pos, kw, name)))
            else:
                def meth(self, *pos, **kw):
                    return dispatch(lst, self, pos, kw, name)
                meth.__name__ = name
                setattr(c, name, meth)
                if name == '__eq__':
                    c.__hash__ = object.__hash__
    lst.append(ov)


def nb_arg(name, none, hasdef, dv):
    LASTDEF.args.append((mach.rd_cstr(name), none, hasdef, dv))


def nb_enum(name, tp):
    name = mach.rd_cstr(name)
    c = types.SimpleNamespace()
    c.__name__ = name
    ENUM[tids(tp)] = (name, c, {})
    setattr(CUR, name, c)


def nb_enum_value(tp, name, v):
    nm, c, d = ENUM[tids(tp)]
    x = FakeEnumVal(nm, mach.rd_cstr(name), V.asS(v, 64))
    setattr(c, x.name, x)
    d[x.value] = x


def nb_enum_export(tp):
    nm, c, d = ENUM[tids(tp)]
    for x in d.values():
        setattr(CUR, x.name, x)


def nb_from_enum(v, tp):
    if type(v) is not int:
        v = H.cur.conc(v)
    e = ENUM.get(tids(tp))
    return hnew(e[2].get(V.asS(v, 64)) if e else v)


def nb_setattr(name, h):
    setattr(CUR, mach.rd_cstr(name), hget(h))


EXT['__nb_class'] = nb_class
EXT['__nb_def'] = nb_def
EXT['__nb_arg'] = nb_arg
EXT['__nb_enum'] = nb_enum
EXT['__nb_enum_value'] = nb_enum_value
EXT['__nb_enum_export'] = nb_enum_export
EXT['__nb_from_enum'] = nb_from_enum
EXT['__nb_setattr'] = nb_setattr


# TBB model hooks -------------------------------------------------------------------------------------
class Sched:
    mode = 'two'        # 'one' | 'two' | 'rev' | 'each'
    stack = []
    tid = 0
    nglobal = []
    log = None


def chunks(b, e, mode):
    n = e - b
    if mode == 'one' or n == 1:
        return [(b, e, 0)]
    if mode == 'two':
        m = b + (n + 1) // 2
        return [(m, e, 1), (b, m, 0)]
    if mode == 'each':
        return [(i, i + 1, i - b) for i in range(b, e)]
    if mode == 'rev':
        return [(i, i + 1, (i - b) % 2) for i in range(e - 1, b - 1, -1)]
    raise ValueError(mode)


def par_begin(kind, b0, e0, b1, e1):
    b0, e0, b1, e1 = (x if type(x) is int else H.cur.conc(x) for x in (b0, e0, b1, e1))
    mode = Sched.mode
    if callable(mode):
        ch = mode(kind, b0, e0, b1, e1)
    elif kind == 1:
        ch = [(a, b, 0, 0, t) for a, b, t in chunks(b0, e0, mode)]
    else:
        ch = [(a, b, c, d, t * (e1 - b1) + u if mode == 'each' else t + u) for a, b, t in chunks(b0, e0, mode) for c, d, u in chunks(b1, e1, mode)]
    Sched.stack.append([ch, 0, Sched.tid])
    w = mach.WATCH['race']
    if w is not None:
        w.begin()


def par_next(p0, p1, p2, p3):
    s = Sched.stack[-1]
    w = mach.WATCH['race']
    if s[1] >= len(s[0]):
        return 0
    a, b, c, d, t = s[0][s[1]]
    s[1] += 1
    Sched.tid = t
    if w is not None:
        w.chunk(t)
    for p, v in ((p0, a), (p1, b), (p2, c), (p3, d)):
        ST(p, 4, v)
    return 1


def par_end():
    s = Sched.stack.pop()
    Sched.tid = s[2]
    w = mach.WATCH['race']
    if w is not None:
        w.end()


def global_control(n, on):
    if on:
        Sched.nglobal.append(n)
    elif n in Sched.nglobal:
        Sched.nglobal.remove(n)


EXT['__vt_par_begin'] = par_begin
EXT['__vt_par_next'] = par_next
EXT['__vt_par_end'] = par_end
EXT['__vt_thread'] = lambda: Sched.tid
EXT['__vt_sort_perm'] = lambda: 0


def sync(on):
    w = mach.WATCH['race']
    if w is not None:
        w.sync += 1 if on else -1


EXT['__vt_sync'] = sync
EXT['__vt_global_control'] = global_control


# loading -----------------------------------------------------------------------------------------------
ALLMODS = ['_box', '_util', '_parallel', '_locality', '_cluster', '_density', '_diffraction', '_environment', '_order', '_pmft']


class Missing:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Unsupported('not part of this encoding: ' + self.__name__)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self.__name__ + '.' + n)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path, target=None):
        if name.startswith('freud._'):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return self.mods[spec.name.split('.')[1]]

    def exec_module(self, m):
        pass


def init_module(name):
    """run the real NB_MODULE body of an extension module"""
    global CUR
    m = types.ModuleType('freud.' + name)
    CUR = m
    key = f'@__nb_init_{name}'
    mm = IR.PROG.fdef.get(key)
    if mm is None:
        raise Unsupported('module init of ' + name)
    G[IR.PROG.py(mm, key)]()
    m.__getattr__ = lambda n: Missing(f'{name}.{n}') if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
    return m
