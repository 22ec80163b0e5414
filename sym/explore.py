"""Path exploration by re-execution, property checking, and the scenario interface."""
import gc
import json
import math
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

import numpy as np
import z3

from . import val as V, mach, nb, rt
from .mach import M, O, O_base, MemError, Trap, Unsupported, Limit
from .val import H, T, mkT, SI, LF, SB, RT, RI, FO, CX, Sym, Idx, UninitUse, sbt, NOT, mkvar, idx_of_si
from .symnp import mkarr, SArr, issym


class PathEnd(Exception):
    """assumption failed / path pruned"""


class Infeasible(Exception):
    pass


class PathTimeout(BaseException):
    """a single path used up its processor time"""


PATH_CPU = [60.0]


def _expired(*a):
    raise PathTimeout()


def hang(ctx):
    """the inputs of a path that does not end; whether the real code hangs on them is decided natively"""
    try:
        ctx.viol.append({'msg': 'does not finish', 'kind': 'hang', 'inputs': ctx.assignment()})
    except (Limit, Infeasible):
        pass


_vars = {}


def getvar(name, D):
    k = (name, D)
    r = _vars.get(k)
    if r is None:
        r = _vars[k] = mkvar(name, D)
    return r


class Ctx:
    def __init__(self, prefix=(), real=False):
        self.real = real
        self.conc_ftoi = False
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.solver = z3.Solver() if real else z3.SolverFor('QF_BV')
        self.solver.set('timeout', 30000)
        self.model = None
        self.mvals = {}
        self.masks = {}
        self.inputs = []        # (name, Idx or ('real', term), decode)
        self.cond = []
        self.nchecks = 0
        self.ntriv = 0
        self.q = 0
        self.qt = 0.0
        self.viol = []
        self.kviol = []
        self.notes = []
        self.ufs = {}
        self.unknown = 0
        self.reach = []

    # solver -------------------------------------------------------------------------
    def add(self, t):
        self.solver.add(t)

    def query(self, *asm):
        t0 = time.perf_counter()
        r = self.solver.check(*asm)
        self.q += 1
        self.qt += time.perf_counter() - t0
        if r == z3.unknown:
            self.unknown += 1
        return r

    def setmodel(self):
        self.model = self.solver.model()
        self.mvals = {}

    def need_model(self):
        if self.model is None:
            r = self.query()
            if r != z3.sat:
                if r == z3.unknown:
                    raise Limit('solver gave up on the path condition')
                raise Infeasible()
            self.setmodel()

    def mval(self, idx):
        v = self.mvals.get(idx.id)
        if v is None:
            v = self.model.eval(idx.term, model_completion=True).as_long()
            if v >= idx.D:
                v = 0 if idx.name is None else v
            self.mvals[idx.id] = v
        return v

    def mtrue(self, c):
        if isinstance(c, T):
            i = self.mval(c.idx)
            return bool(c.a[i]) if i < len(c.a) else False
        r = self.model.eval(c.t, model_completion=True)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def mask_of(self, idx):
        return self.masks.get(idx.id)

    def declare(self, idx):
        if idx.D != 1 << idx.w:
            self.add(z3.ULT(idx.term, z3.BitVecVal(idx.D, idx.w)))

    # decisions ------------------------------------------------------------------------
    def _take(self, c, t, v):
        """assert c == v"""
        if isinstance(c, T):
            m = self.masks.get(c.idx.id)
            a = np.asarray(c.a, dtype=bool)
            a = a if v else ~a
            self.masks[c.idx.id] = a if m is None else (m & a)
        self.add(t if v else z3.Not(t))

    def decide(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, np.bool_):
            return bool(c)
        if isinstance(c, T):
            a = c.a if c.k == 'b' else c.a != 0
            if c.k != 'b':
                c = T(c.idx, a, 'b')
            m = self.masks.get(c.idx.id)
            if m is not None:
                am = a[m]
                if am.all():
                    return True
                if not am.any():
                    return False
            t = V.t_to_bool(c)
        elif isinstance(c, SB):
            t = c.t
        else:
            return bool(c)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            if not forced or isinstance(c, T):
                self._take(c, t, v)
            return v
        self.need_model()
        v = self.mtrue(c)
        if v is None:
            v = True
            if self.query(t) != z3.sat:
                v = False
            else:
                self.setmodel()
        other = z3.Not(t) if v else t
        r = self.query(other)
        if r == z3.unsat:
            self.trace.append((v, True))
            if isinstance(c, T):
                self._take(c, t, v)
            return v
        if r == z3.unknown:
            self.notes.append('solver unknown at a branch (both sides explored)')
        self.alts.append(self.trace + [(not v, False)])
        self.trace.append((v, False))
        self._take(c, t, v)
        return v

    def conc(self, x):
        """concrete value of x on this path (forks over every feasible value)"""
        if not isinstance(x, Sym):
            return x
        if isinstance(x, V.Undef):
            raise UninitUse('uninitialised value decides control flow or an address')
        if isinstance(x, (V.Cat, V.Half)):
            raise Unsupported('concretising raw float bits')
        if V.is_b(x):
            return int(self.decide(x))
        if isinstance(x, LF):
            return float(self.conc(x.n)) * 2.0 ** x.e
        if isinstance(x, FO):
            return V.fo_conc(x)
        if isinstance(x, (RT, RI)):
            return self.conc_real(x)
        if isinstance(x, T):
            m = self.masks.get(x.idx.id)
            vals = np.unique(x.a if m is None else x.a[m])
            if len(vals) == 1:
                v = vals[0]
                return int(v) if x.k == 'i' else float(v)
        while True:
            if self.pos < len(self.prefix):
                # candidate value recorded with the decision
                e, forced = self.prefix[self.pos]
                kind, v = e
                self.pos += 1
                self.trace.append((e, forced))
                c = self._eq(x, v)
                self._take(c, sbt(c), kind == '=')
                if kind == '=':
                    return v
                continue
            self.need_model()
            v = self.mvalue(x)
            c = self._eq(x, v)
            if c is True:
                self.trace.append((('=', v), True))
                return v
            t = sbt(c)
            r = self.query(z3.Not(t))
            if r != z3.unsat:
                self.alts.append(self.trace + [(('!', v), False)])
            self.trace.append((('=', v), r == z3.unsat))
            self._take(c, t, True)
            return v

    def _eq(self, x, v):
        if isinstance(x, T):
            return T(x.idx, x.a == v if v == v else np.isnan(x.a), 'b')
        return V.m_cmp('eq', x, v)

    def mvalue(self, x):
        if isinstance(x, T):
            v = x.a[self.mval(x.idx)]
            return int(v) if x.k == 'i' else float(v) if x.k == 'f' else bool(v)
        if isinstance(x, SI):
            return self.model.eval(x.t, model_completion=True).as_signed_long()
        raise Unsupported('mvalue')

    def conc_real(self, x):
        raise Unsupported('control depends on the exact value of a real term')

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # uninterpreted functions for the real mode -------------------------------------------
    def uf(self, name, *a):
        ts = tuple(V.rterm(x) for x in a)
        key = (name,) + tuple(t.get_id() for t in ts)
        r = self.ufs.get(key)
        if r is None:
            f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(ts) + 1)))
            y = f(*ts)
            r = self.ufs[key] = (RT(y), ts)
            if name in ('sin', 'cos'):
                self.add(z3.And(y >= -1, y <= 1))
                o = z3.Function('uf_' + ('cos' if name == 'sin' else 'sin'), z3.RealSort(), z3.RealSort())(*ts)
                self.add(y * y + o * o == 1)
                self.model = None
        return r[0]

    def r_sqrt(self, x):
        t = V.rterm(x)
        k = ('sqrt', t.get_id())
        r = self.ufs.get(k)
        if r is None:
            s = z3.Real(f'sqrt!{len(self.ufs)}')
            self.add(z3.And(s >= 0, s * s == t))
            self.model = None
            r = self.ufs[k] = (RT(s), t)
        return r[0]

    def r_floor(self, x):
        return RT(z3.ToReal(z3.ToInt(V.rterm(x))))

    def r_trunc_int(self, x):
        t = V.rterm(x)
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))

    def r_nonzero(self, t):
        pass

    # checks ------------------------------------------------------------------------------
    def check(self, c, msg):
        self.nchecks += 1
        if c is True or (isinstance(c, np.bool_) and c):
            self.ntriv += 1
            return
        if isinstance(c, T) and c.k == 'b':
            m = self.masks.get(c.idx.id)
            a = c.a if m is None else c.a[m]
            if a.all():
                self.ntriv += 1
                return
        if not isinstance(c, Sym):
            if c:
                self.ntriv += 1
                return
            self.need_model()
            self.fail(msg)
            return
        self.cond.append((c, msg))
        if len(self.cond) > 64:
            self.flush()

    def flush(self):
        if not self.cond:
            return
        cs, self.cond = self.cond, []
        ts = [z3.Not(sbt(c)) for c, _ in cs]
        r = self.query(z3.Or(ts) if len(ts) > 1 else ts[0])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.unknown -= 1
            if len(ts) > 1:
                for c, t in zip(cs, ts):
                    self.cond = [c]
                    self.flush()
                return
            self.unknown += 1
            self.notes.append('solver gave up on: ' + cs[0][1])
            return
        keep = self.model, self.mvals
        self.setmodel()
        for (c, msg), t in zip(cs, ts):
            if z3.is_true(self.model.eval(t, model_completion=True)):
                self.fail(msg)
                break
        self.model, self.mvals = keep

    def fail(self, msg, kind='property'):
        self.viol.append({'msg': msg, 'kind': kind, 'inputs': self.assignment()})
        raise PathEnd('violated')

    def race(self, a, what, t, u):
        if os.environ.get('VT_DEBUG'):
            o = mach.own(a, 1)
            print('RACE', hex(a), o, what, t, u, file=sys.stderr)
            for f in traceback.extract_stack()[-14:]:
                print('   ', f.name, f.lineno, f.filename[-40:], file=sys.stderr)
        self.need_model()
        self.fail(f'data race: workers {u} and {t} access the same memory, one of them writing', 'race')

    def assignment(self):
        self.need_model()
        out = {}
        for name, x, dec in self.inputs:
            if isinstance(x, Idx):
                v = self.mval(x)
                out[name] = dec[v] if dec is not None else v
            elif isinstance(x, tuple):
                v = self.model.eval(x[1], model_completion=True)
                out[name] = float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
            else:
                out[name] = x
        return out


# ------------------------------------------------------------------ scenario environments
class Env:
    """symbolic side"""
    native = False

    def __init__(self, case, ctx, freud, **kw):
        self.case = case
        self.ctx = ctx
        self.freud = freud
        self.n = 0
        self.__dict__.update(kw)

    def pick(self, name, values):
        """a float ranging over the listed values"""
        vs = [float(v) for v in values]
        if len(vs) == 1:
            self.ctx.inputs.append((name, vs[0], None))
            return vs[0]
        ix = getvar(name, len(vs))
        self.ctx.declare(ix)
        self.ctx.inputs.append((name, ix, vs))
        return T(ix, np.array(vs), 'f')

    def grid(self, name, lo, hi, step):
        n = int(round((hi - lo) / step)) + 1
        return self.pick(name, [lo + i * step for i in range(n)])

    def pickint(self, name, values):
        vs = [int(v) for v in values]
        if len(vs) == 1:
            self.ctx.inputs.append((name, vs[0], None))
            return vs[0]
        ix = getvar(name, len(vs))
        self.ctx.declare(ix)
        self.ctx.inputs.append((name, ix, vs))
        return T(ix, np.array(vs, dtype=np.int64), 'i')

    def lookup(self, ix, values):
        """values[ix] for a pickint over 0, 1, 2, ..."""
        if not isinstance(ix, Sym):
            return float(values[ix])
        return mkT(ix.idx, np.array([float(values[int(k)]) for k in ix.a]), 'f')

    def bool(self, name):
        ix = getvar(name, 2)
        self.ctx.inputs.append((name, ix, [False, True]))
        return T(ix, np.array([False, True]), 'b')

    def choice(self, name, options):
        """a concrete member of a finite list (forks)"""
        ix = getvar(name, len(options))
        if len(options) == 1:
            self.ctx.inputs.append((name, 0, None))
            return options[0]
        self.ctx.declare(ix)
        self.ctx.inputs.append((name, ix, list(range(len(options)))))
        return options[self.ctx.conc(T(ix, np.arange(len(options)), 'i'))]

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        if lo is not None:
            self.ctx.add(t >= z3.RealVal(str(lo)))
        if hi is not None:
            self.ctx.add(t <= z3.RealVal(str(hi)))
        self.ctx.inputs.append((name, ('real', t), None))
        return RT(t)

    def array(self, x, dtype=np.float64):
        return mkarr(x, dtype)

    def conc(self, x):
        if isinstance(x, np.ndarray):
            from .symnp import concr
            return concr(x, x.vdt) if isinstance(x, SArr) else x
        return self.ctx.conc(x)

    def assume(self, c):
        if not self.ctx.decide(c) if isinstance(c, Sym) else not c:
            raise PathEnd('assume')

    def check(self, c, msg):
        if isinstance(c, np.ndarray):
            if c.size == 0:
                c = True
            else:
                c = V.AND(*[x for x in c.reshape(-1).tolist()])
        self.ctx.check(c, msg)

    def reach(self, tag):
        """vacuity witness: this point was reached on a feasible path"""
        self.ctx.reach.append(tag)

    def el(self, a):
        """list of Python elements"""
        if isinstance(a, SArr):
            return a.o().tolist()
        return np.asarray(a).tolist()

    def ite(self, c, a, b):
        if isinstance(c, Sym):
            return V.SEL(c, a, b)
        return a if c else b

    AND = staticmethod(V.AND)
    OR = staticmethod(V.OR)
    NOT = staticmethod(V.NOT)

    def sqrt(self, x):
        return V.f_sqrt(V.to_lf(x) if V._intlike(x) and isinstance(x, Sym) else x) if isinstance(x, Sym) else V.m_sqrt(float(x))

    def floor(self, x):
        return V.f_floor(x) if isinstance(x, Sym) else V.m_floor(float(x))

    def fn(self, name, x):
        m = getattr(V, 'm_' + name)
        return V.f_unary(m, x if isinstance(x, Sym) else float(x), lambda r: self.ctx.uf(name, r))

    def f32(self, x):
        return V.F32(x)

    def close(self, a, b, tol=1e-5):
        d = abs(a - b)
        return d <= tol

    def schedule(self, mode):
        nb.Sched.mode = mode

    def races(self, on=True):
        """every chunk a worker of its own, conflicting accesses of workers are violations"""
        nb.Sched.mode = 'each' if on else 'one'
        mach.WATCH['race'] = mach.Race() if on else None

    def refresh(self):
        """arrays handed out by the library show what their memory holds now"""
        nb.refresh()


class NEnv:
    """native side: same interface over concrete values"""
    native = True

    def __init__(self, case, values, freud, **kw):
        self.case = case
        self.values = values
        self.freud = freud
        self.failed = []
        self.nchecks = 0
        self.tags = []
        self.__dict__.update(kw)

    # an input the symbolic path did not get to is unconstrained: any value will do
    def pick(self, name, values):
        return float(self.values.get(name, values[0]))

    def grid(self, name, lo, hi, step):
        return float(self.values.get(name, lo))

    def pickint(self, name, values):
        return int(self.values.get(name, values[0]))

    def lookup(self, ix, values):
        return float(values[ix])

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        return options[int(self.values.get(name, 0))]

    def real(self, name, lo=None, hi=None):
        return float(self.values.get(name, lo or 0.0))

    def array(self, x, dtype=np.float64):
        return np.array(x, dtype=dtype)

    def conc(self, x):
        return x

    def assume(self, c):
        if not c:
            raise PathEnd('assume')

    def check(self, c, msg):
        self.nchecks += 1
        if not np.all(c):
            self.failed.append(msg)

    def reach(self, tag):
        self.tags.append(tag)

    def el(self, a):
        return np.asarray(a).tolist()

    def ite(self, c, a, b):
        return a if c else b

    @staticmethod
    def AND(*a):
        return all(bool(x) for x in a)

    @staticmethod
    def OR(*a):
        return any(bool(x) for x in a)

    @staticmethod
    def NOT(a):
        return not a

    def sqrt(self, x):
        return V.m_sqrt(float(x))

    def floor(self, x):
        return V.m_floor(float(x))

    def fn(self, name, x):
        return getattr(V, 'm_' + name)(float(x))

    def f32(self, x):
        return float(np.float32(x))

    def close(self, a, b, tol=1e-5):
        return abs(a - b) <= tol

    def schedule(self, mode):
        pass

    def races(self, on=True):
        pass

    def refresh(self):
        pass


# ------------------------------------------------------------------ running one path
from .mach import BASE


def snapshot():
    BASE['M'] = dict(M)
    BASE['O'] = {k: list(v) for k, v in O.items()}
    BASE['Ob'] = list(O_base)
    BASE['top'] = mach.state['top']
    BASE['ht'] = list(nb.St.ht)


def reset():
    M.clear()
    M.update(BASE['M'])
    O.clear()
    O.update({k: list(v) for k, v in BASE['O'].items()})
    O_base[:] = BASE['Ob']
    mach.state['top'] = BASE['top']
    nb.St.ht[:] = BASE['ht']
    nb.St.wrap = {}
    nb.St.arrays = {}
    nb.St.views = []
    nb.St.out = []
    mach.exc_msg.clear()
    rt.caught.clear()
    rt.streams.clear()
    nb.Sched.stack = []
    nb.Sched.tid = 0
    nb.Sched.mode = 'two'
    nb.Sched.nglobal = []
    mach.WATCH['race'] = None
    if len(V._didx) > 50000:
        V._didx.clear()
        V._keep.clear()


SYMERR = (Unsupported,)


def run_path(scen, case, prefix, freud, opts):
    """-> dict(result of one path), list of alternative prefixes"""
    reset()
    ctx = Ctx(prefix, opts.get('real', False))
    ctx.conc_ftoi = opts.get('conc_ftoi', False)
    H.cur = ctx
    env = Env(case, ctx, freud)
    st = 'done'
    err = None
    signal.signal(signal.SIGPROF, _expired)
    try:
        try:
            signal.setitimer(signal.ITIMER_PROF, PATH_CPU[0])
            scen(env)
            ctx.flush()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except PathTimeout:
        st = 'timeout'
        hang(ctx)
    except PathEnd as e:
        st = 'pruned' if str(e) == 'assume' else 'violated'
        if st == 'pruned':
            try:
                ctx.flush()
            except PathEnd:
                st = 'violated'
    except Infeasible:
        st = 'infeasible'
    except (Unsupported, Limit) as e:
        st = 'unsupported'
        err = f'{type(e).__name__}: {e} @ {where()}'
    except RecursionError as e:
        st = 'unsupported'
        err = 'recursion'
    except (MemError, UninitUse, Trap) as e:
        st = mem_fail(ctx, e)
    except mach.CxxThrow as e:
        st = 'violated'
        try:
            ctx.fail(f'uncaught C++ exception {e.ti}')
        except (PathEnd, Infeasible):
            pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inr = any('/freud/' in f.filename and '/verif/' not in f.filename or '<ir ' in f.filename for f in tb)
        if isinstance(e, (AssertionError, NameError)) or not inr and not hasattr(e, 'from_cxx'):
            st = 'error'
            err = ''.join(traceback.format_exception(e))[-3000:]
        else:
            st = 'violated'
            try:
                ctx.fail(f'unexpected {type(e).__name__}: {str(e)[:200]} at {where()}', 'exception')
            except (PathEnd, Infeasible):
                pass
    H.cur = None
    return ctx, st, err


def where():
    et, e, tb = sys.exc_info()
    fs = [f for f in traceback.extract_tb(tb)]
    keep = [f for f in fs if '/freud/' in f.filename and '/verif/' not in f.filename or '<ir ' in f.filename or '/checks/' in f.filename]
    f = (keep or fs)[-1]
    return f'{f.filename}:{f.lineno} {f.name} <- ' + ' <- '.join(f'{g.name}:{g.lineno}' for g in fs[-4:])


def mem_fail(ctx, e):
    try:
        ctx.fail(f'{type(e).__name__}: {e} at {where()}', 'memory')
    except PathEnd:
        return 'violated'
    except Infeasible:
        return 'infeasible'
    except Limit:
        return 'unsupported'


# ------------------------------------------------------------------ parallel exploration
class Result:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.checks = 0
        self.triv = 0
        self.q = 0
        self.qt = 0.0
        self.unsupported = {}
        self.errors = []
        self.viol = []
        self.kviol = []
        self.samples = []
        self.reach = {}
        self.notes = {}
        self.left = 0
        self.timeouts = 0
        self.unknown = 0
        self.percase = {}
        self.funcs = set()

    def merge(self, d):
        for k in ('paths', 'pruned', 'checks', 'triv', 'q', 'qt', 'unknown', 'timeouts'):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d['unsupported'].items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        self.errors += d['errors']
        self.viol += d['viol']
        self.kviol += d['kviol']
        self.samples += d['samples']
        for k, v in d['reach'].items():
            self.reach[k] = self.reach.get(k, 0) + v
        for k, v in d['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in d['percase'].items():
            self.percase[k] = self.percase.get(k, 0) + v
        self.funcs |= set(d['funcs'])


KNOWN = []      # recorded findings of the property being checked


def newstat():
    return dict(timeouts=0, paths=0, pruned=0, checks=0, triv=0, q=0, qt=0.0, unknown=0, unsupported={}, errors=[], viol=[], kviol=[], samples=[], reach={}, notes={}, percase={}, funcs=[])


def do_item(item, scens, freud, opts, st):
    si, case, prefix = item
    scen = scens[si]
    ctx, s, err = run_path(scen[1], case, prefix, freud, scen[3] if len(scen) > 3 else opts)
    st['q'] += ctx.q
    st['qt'] += ctx.qt
    st['checks'] += ctx.nchecks
    st['triv'] += ctx.ntriv
    st['unknown'] += ctx.unknown
    if s in ('done', 'violated'):
        st['paths'] += 1
        st['percase'][scen[0]] = st['percase'].get(scen[0], 0) + 1
    elif s in ('pruned', 'infeasible'):
        st['pruned'] += 1
    elif s == 'timeout':
        st['timeouts'] += 1
    elif s == 'unsupported':
        k = f'{scen[0]}: {err}'
        st['unsupported'][k] = st['unsupported'].get(k, 0) + 1
    else:
        if len(st['errors']) < 5:
            st['errors'].append(f'{scen[0]} {case}: {err}')
    for v in ctx.viol:
        v['scenario'] = scen[0]
        v['case'] = case
        if any(k['scenario'] == scen[0] and (k.get('case') is None or json.dumps(k['case']) == json.dumps(case)) and k['msg'] in ('*', v['msg']) for k in KNOWN):
            # a recorded finding neither stops the exploration nor hides other violations
            if len(st['kviol']) < 3:
                st['kviol'].append(v)
        elif len(st['viol']) < 40:
            st['viol'].append(v)
    for t in ctx.reach:
        k = f'{scen[0]}:{t}'
        st['reach'][k] = st['reach'].get(k, 0) + 1
    for n in ctx.notes:
        st['notes'][n] = st['notes'].get(n, 0) + 1
    if s == 'done' and len(st['samples']) < opts.get('nsamples', 2) or (s == 'done' and st['percase'].get(scen[0], 0) <= 1):
        H.cur = ctx
        try:
            st['samples'].append({'scenario': scen[0], 'case': case, 'inputs': ctx.assignment()})
        except (Infeasible, Limit):
            pass
        H.cur = None
    return [(si, case, a) for a in ctx.alts]


def worker(wid, scens, freud, opts, q, out, count, deadline, stopv):
    st = newstat()
    gc.freeze()
    local = []
    from . import ir
    n = 0
    left = 0
    try:
        while True:
            if local:
                item = local.pop()
            else:
                try:
                    item = q.get(timeout=0.1)
                except queue.Empty:
                    if count.value <= 0 or stopv.value:
                        break
                    continue
            if time.time() > deadline or stopv.value:
                left += 1 + len(local)
                with count.get_lock():
                    count.value -= 1 + len(local)
                local = []
                continue
            alts = do_item(item, scens, freud, opts, st)
            n += 1
            with count.get_lock():
                count.value += len(alts) - 1
            local.extend(reversed(alts))
            if len(st['viol']) >= opts.get('maxviol', 6) or st['timeouts'] >= 2:
                stopv.value = 1
            # share the shallowest pending work when the queue runs dry
            if len(local) > 1:
                try:
                    low = q.qsize() < 8
                except NotImplementedError:
                    low = True
                if low:
                    k = max(1, len(local) // 2)
                    for it in local[:k]:
                        q.put(it)
                    del local[:k]
    except BaseException as e:
        st['errors'].append('worker: ' + ''.join(traceback.format_exception(e))[-2000:])
        stopv.value = 1
    st['funcs'] = list(ir.STAT['funcs'])
    out.put((st, left))


def explore(scens, freud, opts, budget):
    """scens: list of (name, function, [cases], opts)"""
    res = Result()
    deadline = time.time() + budget
    items = [(i, c, ()) for i, s in enumerate(scens) for c in s[2]]
    nw = opts.get('workers', min(8, os.cpu_count() or 1))
    if nw == 1:
        st = newstat()
        todo = list(reversed(items))
        while todo and time.time() < deadline and len(st['viol']) < opts.get('maxviol', 6):
            todo.extend(reversed(do_item(todo.pop(), scens, freud, opts, st)))
        from . import ir
        st['funcs'] = list(ir.STAT['funcs'])
        res.merge(st)
        res.left = len(todo)
        return res
    # warm up: translate the functions once, in the parent, before forking
    st = newstat()
    q = mp.Queue()
    out = mp.Queue()
    count = mp.Value('l', 0)
    stopv = mp.Value('i', 0)
    todo = list(items)
    seen = set()
    t0 = time.time()
    rest = []
    for it in todo:
        if it[0] not in seen and time.time() - t0 < budget / 4:
            seen.add(it[0])
            rest.extend(do_item(it, scens, freud, opts, st))
        else:
            rest.append(it)
    from . import ir
    st['funcs'] = list(ir.STAT['funcs'])
    res.merge(st)
    if not rest or res.viol:
        if not rest:
            return res
    # interleave scenarios
    count.value = len(rest)
    ps = []
    for w in range(nw):
        p = mp.Process(target=worker, args=(w, scens, freud, opts, q, out, count, deadline, stopv), daemon=True)
        ps.append(p)
    for p in ps:
        p.start()
    for it in rest:
        q.put(it)
    got = 0
    while got < len(ps):
        try:
            d, left = out.get(timeout=1)
        except queue.Empty:
            if time.time() > deadline + 90:
                res.errors.append('worker did not finish')
                break
            if not any(p.is_alive() for p in ps):
                try:
                    d, left = out.get(timeout=2)
                except queue.Empty:
                    res.errors.append('worker died')
                    break
            else:
                continue
        got += 1
        res.merge(d)
        res.left += left
    for p in ps:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    return res
