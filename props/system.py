"""what all classes have in common: parameters, argument arrays, systems"""
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax
from props.zoo import ZOO, COMPUTE, Sys, outputs, values, same, flatten, isnan

ALLMODS = ['_density', '_cluster', '_pmft', '_order', '_environment', '_diffraction']


def near(e, a, b, tol=1e-5):
    """equal nested values; floats up to single precision"""
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and e.AND(*[near(e, x, y, tol) for x, y in zip(a, b)]) if len(b) else len(a) == 0
    if isinstance(b, (str, bool)) or b is None:
        return a == b
    if isinstance(b, int) and not isinstance(a, (float, np.floating)):
        return a == b
    return e.close(a, b, tol)


# ------------------------------------------------------------------------------------------- A02
prop('A02', ALLMODS, bounds='every class with parameters: lengths on a 1/8 grid up to 3, numbers of bins 1 to 4, up to three modes each; representations at up to 16 parameter values per class; reading every public property after a compute on a system of 3 points with one symbolic coordinate',
     assumptions=('lengths are representable in single precision up to 1e-5',))


def g(e, n, lo=0.5, hi=3.0):
    return e.grid(n, lo, hi, 0.125)


def nb(e, n):
    return e.pickint(n, [1, 2, 4])


def edges(lo, hi, n):
    return [lo + (hi - lo) * k / n for k in range(n + 1)]


def spans(bounds, ns, flat=False):
    """expected bounds, bin_edges, bin_centers, nbins"""
    ed = [edges(lo, hi, n) for (lo, hi), n in zip(bounds, ns)]
    ce = [[(x[k] + x[k + 1]) * 0.5 for k in range(len(x) - 1)] for x in ed]
    out = dict(bounds=[tuple(b) for b in bounds], bin_edges=ed, bin_centers=ce, nbins=list(ns))
    return {k: v[0] for k, v in out.items()} if flat else out


PI2 = 2 * math.pi
PAR = {}


def par(fn):
    PAR[fn.__name__] = fn
    return fn


@par
def RDF(e, F):
    r, n = g(e, 'r'), e.conc(nb(e, 'n'))
    lo = e.choice('lo', [0, 0.25])
    m = e.choice('m', ['exact', 'finite_size', None])
    return F.density.RDF(n, r, lo, *([m] if m else [])), dict(spans([(float(lo), r)], [n], True), mode=m or 'exact', default_query_args=dict(mode='ball', r_max=r))


@par
def CorrelationFunction(e, F):
    r, n = g(e, 'r'), e.conc(nb(e, 'n'))
    return F.density.CorrelationFunction(n, r), dict(spans([(0.0, r)], [n], True), bins=n, default_query_args=dict(mode='ball', r_max=r))


@par
def LocalDensity(e, F):
    r, d = g(e, 'r'), g(e, 'd')
    return F.density.LocalDensity(r, d), dict(r_max=r, diameter=d, default_query_args=dict(mode='ball', r_max=r + 0.5 * d))


@par
def GaussianDensity(e, F):
    r, s = g(e, 'r'), g(e, 's')
    w, ww = e.choice('w', [(3, (3, 3, 3)), ((2, 4, 3), (2, 4, 3)), ((2, 3), (2, 3, 1))])
    return F.density.GaussianDensity(w, r, s), dict(width=ww, r_max=r, sigma=s)


@par
def SphereVoxelization(e, F):
    r = g(e, 'r')
    w, ww = e.choice('w', [(3, (3, 3, 3)), ((2, 4, 3), (2, 4, 3)), ((2, 3), (2, 3, 1))])
    return F.density.SphereVoxelization(w, r), dict(width=ww, r_max=r)


def bins_of(e, k):
    if k == 0:
        return e.choice('bins', [(3, [3, 3]), ((2, 4), [2, 4]), ([5, 2], [5, 2])])
    b, bb = e.choice('bins', [(3, [3] * k), ((2, 4, 1)[:k], [2, 4, 1][:k]), ([1, 2, 5][:k], [1, 2, 5][:k])])
    return b, bb


@par
def PMFTR12(e, F):
    r = g(e, 'r')
    b, bb = bins_of(e, 3)
    return F.pmft.PMFTR12(r, b), dict(spans([(0.0, r), (0.0, PI2), (0.0, PI2)], bb), r_max=r, default_query_args=dict(mode='ball', r_max=r))


def xy(x, y):
    return (-x, x), (-y, y)


@par
def PMFTXYT(e, F):
    x, y = g(e, 'x'), g(e, 'y')
    b, bb = bins_of(e, 3)
    return F.pmft.PMFTXYT(x, y, b), spans([*xy(x, y), (0.0, PI2)], bb)


@par
def PMFTXY(e, F):
    x, y = g(e, 'x'), g(e, 'y')
    b, bb = bins_of(e, 2)
    return F.pmft.PMFTXY(x, y, b), spans([*xy(x, y)], bb)


@par
def PMFTXYZ(e, F):
    x, y, z = g(e, 'x'), e.choice('y', [0.5, 2.25]), e.choice('z', [1.0, 3.0])
    b, bb = bins_of(e, 3)
    sh = e.choice('shift', [None, [0.5, -1.0, 0.25]])
    f = F.pmft.PMFTXYZ(x, y, z, b, **({} if sh is None else dict(shiftvec=sh)))
    return f, dict(spans([*xy(x, y), (-z, z)], bb), shiftvec=sh or [0.0, 0.0, 0.0])


@par
def BondOrder(e, F):
    b, bb = bins_of(e, 0)
    m = e.choice('m', [None, 'bod', 'lbod', 'obcd', 'oocd'])
    return F.environment.BondOrder(b, *([m] if m else [])), dict(spans([(0.0, PI2), (0.0, math.pi)], bb), mode=m or 'bod')


@par
def Hexatic(e, F):
    k = e.pickint('k', [1, 2, 6, 12])
    w = e.choice('w', [None, True, False])
    return F.order.Hexatic(k, *([w] if w is not None else [])), dict(k=k, weighted=bool(w), default_query_args=dict(mode='nearest', num_neighbors=k))


@par
def Cubatic(e, F):
    a, b, s = g(e, 'a', 1.0), g(e, 'b', 0.125, 0.75), g(e, 's', 0.125, 0.875)
    n, sd = e.pickint('n', [1, 3, 7]), e.choice('sd', [0, 5, 2 ** 31])
    return F.order.Cubatic(a, b, s, n, sd), dict(t_initial=a, t_final=b, scale=s, n_replicates=n, seed=sd)


@par
def RotationalAutocorrelation(e, F):
    l = e.pickint('l', [0, 2, 4, 12])
    return F.order.RotationalAutocorrelation(l), dict(l=l)


@par
def StaticStructureFactorDebye(e, F):
    n, k, lo = e.choice('n', [2, 3, 4]), g(e, 'k', 1.0), e.choice('lo', [0, 0.5])
    return F.diffraction.StaticStructureFactorDebye(n, k, lo), dict(num_k_values=n, k_max=k, k_min=float(lo), bounds=(float(lo), k),
        k_values=[lo + (k - lo) * i / (n - 1) for i in range(n)])


@par
def MSD(e, F):
    m = e.choice('m', [None, 'window', 'direct'])
    b = e.choice('b', [None, (4, 2, 8, 0.5, 0, 0)])
    f = F.msd.MSD(*([F.box.Box(*b)] if b else [None]), **(dict(mode=m) if m else {}))
    if b:
        e.check(f.box == F.box.Box(*b), 'box is the one given')
    else:
        e.check(f.box is None, 'box is the one given')
    return f, dict(mode=m or 'window')




@scen('A02', list(PAR))
def kept(e):
    o, want = PAR[e.case](e, e.freud)
    for k, w in want.items():
        got = getattr(o, k)
        if isinstance(w, dict):
            e.check(sorted(got) == sorted(w), f'{k} has the right keys')
            for i in w:
                e.check(near(e, got[i], w[i]), f'{k} of the parameters')
            continue
        if isinstance(got, np.ndarray):
            got = e.el(got)
        elif isinstance(got, list):
            got = [e.el(x) if isinstance(x, np.ndarray) else x for x in got]
        e.check(near(e, got, w), f'{k} is as given')


class Pinned:
    """the same parameters, each fixed to one of its values"""

    def __init__(self, e):
        self._e = e
        for n in ('choice', 'check', 'conc', 'freud'):
            setattr(self, n, getattr(e, n))

    def grid(self, n, lo, hi, step):
        return self._e.choice(n, [lo, hi - step])

    def pickint(self, n, v):
        return self._e.choice(n, v[:1] + v[-1:])


@scen('A02', [p for p in PAR if p != 'StaticStructureFactorDebye'])
def represented(e):
    """the representation creates the object again"""
    o, want = PAR[e.case](Pinned(e), e.freud)
    s = repr(o)
    e.check(str(o) == s, 'printed as represented')
    p = eval(s, {'freud': e.freud})
    e.check(type(p) is type(o) and repr(p) == s, 'the representation is that of the same object')
    for k in want:
        a, b = getattr(o, k), getattr(p, k)
        if isinstance(a, dict):
            e.check(a == b, f'{k} is represented')
            continue
        u, v = [x for x in flatten(listed(e, a))], [x for x in flatten(listed(e, b))]
        e.check(u == v, f'{k} is represented')


def listed(e, x):
    if isinstance(x, np.ndarray):
        return e.el(x)
    return [listed(e, y) for y in x] if isinstance(x, (list, tuple)) else x


REPR0 = [('cluster', 'Cluster'), ('cluster', 'ClusterProperties'), ('environment', 'AngularSeparationNeighbor'), ('environment', 'AngularSeparationGlobal'),
         ('environment', 'LocalBondProjection'), ('interface', 'Interface'), ('locality', 'PeriodicBuffer')]


@scen('A02')
def represented_plain(e):
    m, c = e.choice('class', REPR0)
    o = getattr(getattr(e.freud, m), c)()
    s = repr(o)
    p = eval(s, {'freud': e.freud})
    e.check(str(o) == s and type(p) is type(o) and repr(p) == s, 'the representation is that of the same object')
    b = e.freud.box.Box(4, 2, e.choice('Lz', [8, 1 / 3]), 0.5, 0.1, 0)
    e.check(eval(repr(b), {'freud': e.freud}) == b and eval(str(b), {'freud': e.freud}) == b, 'a box is represented with all lengths and tilts')
    b = e.freud.box.Box(4, 2, xy=0.1, is2D=True)
    e.check(eval(repr(b), {'freud': e.freud}) == b, 'a flat box is represented with all lengths and tilts')


@scen('A02', COMPUTE)
def read(e):
    """every result and parameter can be read, without changing any; the box is that of the system"""
    ent = ZOO[e.case]
    o = ent.build(e)
    s = ent.run(e, o, e.choice('system', [0, 1]))
    want = {k: x[1] for k, x in outputs(e, o, ent).items()}
    n = 0
    for name in sorted(dir(type(o))):
        if name.startswith('_') or not isinstance(getattr(type(o), name), property):
            continue
        try:
            x = getattr(o, name)
        except NotImplementedError:
            e.check(name == 'default_query_args', f'{name} can be read')
            continue
        n += 1
        if name in ('box', 'buffer_box') and x is not None:
            want_box = s.box if name == 'box' else None
            if want_box is not None:
                e.check(x == want_box, 'the box is that of the last system')
        try:
            values(e, x)
        except TypeError:
            pass
    e.check(n > 0, 'there are results')
    e.check(str(o) == repr(o), 'objects can be printed')
    for k, (x, vals) in outputs(e, o, ent).items():
        e.check(same(e, vals, want[k], 0), f'{k} is the same every time it is read')


def dflt(e, name, b, pts, r, kw):
    F = e.freud
    s = (mkbox(e, b), e.array(pts))
    q = [[1.0, 0, 0, 0]] * len(pts)
    if name == 'RDF':
        o = F.density.RDF(3, r)
        o.compute(s, **kw)
        return [o.bin_counts]
    if name == 'CorrelationFunction':
        o = F.density.CorrelationFunction(3, r)
        o.compute(s, [1.0, 2.0, 4.0, 8.0][:len(pts)], **kw)
        return [o.bin_counts, o.correlation]
    if name == 'LocalDensity':
        o = F.density.LocalDensity(r, 0.5)
        o.compute(s, **kw)
        return [o.density, o.num_neighbors]
    if name == 'Hexatic':
        o = F.order.Hexatic(2)
        o.compute(s, **kw)
        return [o.particle_order]
    if name == 'PMFTXYZ':
        o = F.pmft.PMFTXYZ(r, r / 2, r, (2, 3, 2))
    else:
        o = {'PMFTR12': lambda: F.pmft.PMFTR12(r, (2, 3, 2)), 'PMFTXY': lambda: F.pmft.PMFTXY(r, r / 2, (2, 3)), 'PMFTXYT': lambda: F.pmft.PMFTXYT(r, r / 2, (2, 3, 2))}[name]()
    o.compute(s, q, **kw)
    return [o.bin_counts]


@scen('A02', ['RDF', 'CorrelationFunction', 'LocalDensity', 'Hexatic', 'PMFTXYZ', 'PMFTR12', 'PMFTXY', 'PMFTXYT'])
def default_neighbors(e):
    """without neighbors the default query arguments are used: every bond the histogram has room for is found"""
    name = e.case
    flat = name in ('Hexatic', 'PMFTR12', 'PMFTXY', 'PMFTXYT')
    b = TIL2B if flat else ORTHO2
    pts = oddpts(b, 3, 5) + [cellpoint(e, 'p', b, 4)]
    pts[-1] = add(pts[-1], [1 / 64, 3 / 64, 0.0 if flat else 5 / 64])
    r = rmax(b) * 0.5
    got = [e.el(x) for x in dflt(e, name, b, pts, r, {})]
    if name == 'Hexatic':
        kw = dict(mode='nearest', num_neighbors=2)
    elif name == 'LocalDensity':
        kw = dict(mode='ball', r_max=r + 0.25)
    elif name in ('PMFTXYZ', 'PMFTXY', 'PMFTXYT'):
        kw = dict(mode='ball', r_max=math.sqrt(sum(x * x for x in ([r, r / 2, r] if not flat else [r, r / 2]))))
    else:
        kw = dict(mode='ball', r_max=r)
    want = [e.el(x) for x in dflt(e, name, b, pts, r, dict(neighbors=kw))]
    for x, y in zip(got, want):
        e.check(same(e, x, y, 1e-5), 'without neighbors, all bonds within reach are used and no point is its own neighbour')


@scen('A02', ['RDF', 'LocalDensity', 'GaussianDensity', 'SphereVoxelization', 'PMFTXYZ'])
def partly_periodic(e):
    """the box of a result is that of the system, with its periodic directions"""
    F = e.freud
    b = ORTHO2
    per = e.choice('per', [PPP, (True, True, False), (False, True, True), (True, False, True), (False, False, False)])
    pts = oddpts(b, 2, 3) + [cellpoint(e, 'p', b, 2)]
    box = mkbox(e, b, per)
    s = (box, e.array(pts))
    if e.case in ('GaussianDensity', 'SphereVoxelization'):
        o = getattr(F.density, e.case)(2, 0.75, *([0.5] if e.case == 'GaussianDensity' else []))
        o.compute(s)
    else:
        nl = F.locality.NeighborList.from_arrays(3, 3, [0, 1], [1, 2], np.array([[0.5, 0.25, 0.125], [0.25, 0.5, 0.25]], np.float32))
        o = F.pmft.PMFTXYZ(1, 1, 1, 2) if e.case == 'PMFTXYZ' else F.density.RDF(2, 1.0) if e.case == 'RDF' else F.density.LocalDensity(1.0, 0.5)
        o.compute(s, *([np.array([[1.0, 0, 0, 0]] * 3, np.float32)] if e.case == 'PMFTXYZ' else []), neighbors=nl)
    e.check(o.box == mkbox(e, b, per) and tuple(bool(x) for x in o.box.periodic) == per, 'the box is that of the system')


@scen('A02', ['AABBQuery', 'CellQuery', 'LinkCell'])
def query_parameters(e):
    b = e.choice('box', [TRIC, RECT])
    pts = oddpts(b, 2, 3) + [cellpoint(e, 'p', b, 2)]
    w = e.grid('w', 0.25, 0.75, 0.25)
    per = e.choice('per', [PPP, (True, True, False), (False, True, True), (True, False, False)])
    nq = getattr(e.freud.locality, e.case)(mkbox(e, b, per), e.array(pts), *([w] if e.case == 'LinkCell' else []))
    if e.case == 'LinkCell':
        e.check(nq.cell_width == w, 'the cell width is the one given')
    e.check(nq.box == mkbox(e, b, per) and tuple(bool(x) for x in nq.box.periodic) == per, 'the box is the one given')
    e.check(len(nq.points) == 3 and e.AND(*[x == y for x, y in zip(flatten(e.el(nq.points)), flatten(pts))]), 'the points are those given')


@scen('A02')
def unit_cell_parameters(e):
    b = e.choice('box', [ORTHO2, TRIC, TRIC3, RECT, TIL2B])
    frac_ = [[e.grid('x', -0.5, 1.0, 0.25), 0.25, 0.0], [0.125, e.grid('y', -0.5, 1.0, 0.25), 0.0 if b[6] else -0.5]]
    u = e.freud.data.UnitCell(mkbox(e, b), frac_)
    e.check(u.box == mkbox(e, b) and u.dimensions == (2 if b[6] else 3), 'the box is the one given')
    e.check(e.AND(*[x == y for x, y in zip(flatten(listed(e, u.basis_positions)), flatten(frac_))]), 'the basis is the one given')
    vs = [lattice(b, [1.0 if k == c else 0.0 for c in range(3)]) for k in range(3)]
    for k, a in enumerate((u.a1, u.a2, u.a3)):
        e.check(near(e, e.el(a), vs[k]), 'a1, a2 and a3 are the box vectors')
    m = e.el(u.lattice_vectors)
    e.check(e.AND(*[near(e, [m[r][k] for r in range(3)], vs[k]) for k in range(3)]), 'the columns of the matrix are the box vectors')
    v = e.freud.data.UnitCell(mkbox(e, b))
    e.check(list(flatten(listed(e, v.basis_positions))) == [0, 0, 0], 'the default basis is one point at the origin')


# ------------------------------------------------------------------------------------------- A03
prop('A03', ALLMODS, bounds='every compute class and neighbor query on systems of 3 to 5 points with one symbolic coordinate; every array argument double precision, strided, reversed in memory order, or with one row or one component more or less; neighbor lists of any one bond made for 2 to 4 points and query points of systems with 3',
     assumptions=('array arguments are numpy arrays',))


def odd(e, how, x, *a):
    """the values x in an array laid out differently"""
    dt = np.dtype(a[0]) if a else np.dtype(np.float32)
    sym = any(not isinstance(y, (int, float, complex)) for y in flatten(x))
    mk = e.array if sym or e.native else (lambda v, t=np.float32: np.array(v, t))
    if how == 'wide':
        return mk(x, {'f': np.float64, 'u': np.int64, 'i': np.int64, 'c': np.complex128}[dt.kind])
    if how == 'strided':
        n = len(x)
        return mk([x[(i + 1) // 2 % n] for i in range(2 * n)], dt)[::2] if n else mk(x, dt)
    if how == 'order':
        r = mk(x, dt)
        if r.ndim == 2:
            return mk([[row[c] for row in x] for c in range(len(x[0]))], dt).T
        if r.ndim == 3:
            return mk([[[row[c] for row in fr] for fr in x] for c in range(len(x[0][0]))], dt).transpose(1, 2, 0)
        return mk(list(x)[::-1], dt)[::-1]
    if how == 'more':
        return mk(list(x) + [x[0]], dt)
    if how == 'less':
        return mk(list(x)[:-1], dt)
    if how == 'components':
        return mk([[row[:-1] for row in fr] for fr in x] if isinstance(x[0][0], (list, tuple)) else [row[:-1] for row in x], dt) if isinstance(x[0], (list, tuple)) else mk([[v] for v in x], dt)
    if how == 'flat':
        return mk(list(x[0]), dt)
    raise KeyError(how)


class With:
    """the environment with every (or the number k-th) array a system makes laid out differently"""

    def __init__(self, e, how, k=None):
        self.__dict__.update(e.__dict__)
        self._e, self.how, self.k, self.seen = e, how, k, []

    def __getattr__(self, n):
        return getattr(self._e, n)


def build_with(e, ent, v, how, k=None):
    n = [0]
    keep = Sys.arr

    def arr(self, x, *a):
        i = n[0]
        n[0] += 1
        if k is not None and i != k:
            return keep(self, x, *a)
        r = odd(self.e, how, x, *a)
        if how in ('wide', 'strided', 'order'):
            self.ins.append((r, self.e.el(r)))
        return r
    Sys.arr = arr
    try:
        o = ent.build(e)
        s = ent.run(e, o, v)
        return o, s
    finally:
        Sys.arr = keep


HELD = [n for n in ZOO if n not in ('Box', 'NeighborList')]


@scen('A03', [c for c in HELD if c not in ('Cubatic',)])
def layouts(e):
    """precision and memory layout of the arrays given do not matter, and they are left alone"""
    ent = ZOO[e.case]
    o = ent.build(e)
    ent.run(e, o, 1)
    want = outputs(e, o, ent)
    how = e.choice('how', ['wide', 'strided', 'order'])
    p, s = build_with(e, ent, 1, how)
    got = outputs(e, p, ent)
    for k in want:
        e.check(same(e, got[k][1], want[k][1], 1e-5), f'{k} does not depend on the layout of the arrays')
    for old, new in s.unchanged():
        e.check(e.AND(*[x == y for x, y in zip(flatten(old), flatten(new))]), 'arrays passed in are not modified')


# number of the array -> lengths that are fixed by the other arguments
ROWS = {'CorrelationFunction': [3], 'GaussianDensity': [3], 'Cluster': [3], 'ClusterProperties': [3, 4], 'PMFTR12': [1], 'PMFTXYT': [1], 'PMFTXY': [1], 'PMFTXYZ': [1],
        'AngularSeparationNeighbor': [1, 2], 'LocalBondProjection': [1], 'BondOrder': [1], 'RotationalAutocorrelation': [1, 2]}
COLS = {'RDF': [0], 'CorrelationFunction': [0, 3], 'LocalDensity': [0], 'GaussianDensity': [0, 3], 'SphereVoxelization': [0], 'Cluster': [0, 3], 'ClusterProperties': [0, 3, 4],
        'PMFTR12': [0], 'PMFTXYT': [0], 'PMFTXY': [0], 'PMFTXYZ': [0, 1], 'Hexatic': [0], 'AngularSeparationNeighbor': [0, 1, 2], 'AngularSeparationGlobal': [1, 2],
        'LocalBondProjection': [0, 1, 3], 'BondOrder': [0, 1], 'StaticStructureFactorDebye': [0], 'PeriodicBuffer': [0], 'MSD': [3], 'Interface': [0, 3], 'FilterSANN': [0], 'FilterRAD': [0],
        'RotationalAutocorrelation': [1, 2], 'Cubatic': [1], 'AABBQuery ball': [0], 'LinkCell ball': [0]}


def refused(e, fn, what):
    try:
        fn()
    except (ValueError, TypeError, RuntimeError, AssertionError, IndexError, AttributeError) as x:
        ok = True
    else:
        ok = False
    e.check(ok, what)


@scen('A03', sorted(COLS))
def shapes(e):
    ent = ZOO[e.case]
    bad = [('components', k) for k in COLS[e.case]] + [(h, k) for k in ROWS.get(e.case, []) for h in ('more', 'less')]
    how, k = e.choice('what', bad)
    refused(e, lambda: build_with(e, ent, 0, how, k), 'arrays of the wrong length or with the wrong number of components are refused')


def two(e, name):
    """a compute class with different numbers of points (3) and query points (2): the arrays it takes with their lengths, and how to call it"""
    F = e.freud
    flat = name in ('PMFTR12', 'PMFTXYT', 'PMFTXY')
    b = RECT if flat else ORTHO
    pts = fixedpts(b, 3)
    pts[1] = cellpoint(e, 'p', b, 2)
    sys_ = (mkbox(e, b), e.array(pts))
    kw = {'query_points': e.array(fixedpts(b, 2, 5)), 'neighbors': {'r_max': rmax(b)}}

    def q(n):
        return np.array([[1.0, 0, 0, 0]] * n, np.float32)

    def a(n):
        return np.array([0.25] * n, np.float32)
    if name == 'BondOrder':
        o = F.environment.BondOrder((3, 2), 'obcd')
        return {'orientations': (3, q), 'query_orientations': (2, q)}, lambda **k: o.compute(sys_, **kw, **k)
    if name == 'AngularSeparationNeighbor':
        o = F.environment.AngularSeparationNeighbor()
        return {'orientations': (3, q), 'query_orientations': (2, q)}, lambda **k: o.compute(sys_, **kw, **k)
    if name == 'LocalBondProjection':
        o = F.environment.LocalBondProjection()
        return {'orientations': (3, q)}, lambda **k: o.compute(sys_, proj_vecs=np.array([[1.0, 0, 0]]), **kw, **k)
    if name == 'CorrelationFunction':
        o = F.density.CorrelationFunction(2, rmax(b))
        return {'values': (3, a), 'query_values': (2, a)}, lambda **k: o.compute(sys_, **kw, **k)
    if name in ('FilterSANN', 'FilterRAD'):
        o = getattr(F.locality, name)(True)
        if name == 'FilterSANN':
            return {}, None
        return {'points_radii': (3, a), 'query_points_radii': (2, a)}, lambda **k: o.compute(sys_, **kw, **k)
    if name == 'PMFTR12':
        o = F.pmft.PMFTR12(rmax(b), (2, 2, 2))
        return {'orientations': (3, a), 'query_orientations': (2, a)}, lambda **k: o.compute(sys_, **kw, **k)
    if name == 'PMFTXYT':
        o = F.pmft.PMFTXYT(1.0, 1.0, (2, 2, 2))
        return {'orientations': (3, a), 'query_orientations': (2, a)}, lambda **k: o.compute(sys_, **kw, **k)
    if name == 'PMFTXY':
        o = F.pmft.PMFTXY(1.0, 1.0, (2, 2))
        return {'query_orientations': (2, a)}, lambda **k: o.compute(sys_, **kw, **k)
    o = F.pmft.PMFTXYZ(1.0, 1.0, 1.0, (2, 2, 2))
    return {'query_orientations': (2, q)}, lambda **k: o.compute(sys_, **kw, **k)


@scen('A03', ['BondOrder', 'AngularSeparationNeighbor', 'LocalBondProjection', 'CorrelationFunction', 'FilterRAD', 'PMFTR12', 'PMFTXYT', 'PMFTXY', 'PMFTXYZ'])
def two_sets(e):
    """other numbers of query points than of points: every array has the length of the set it belongs to"""
    arrays, call = two(e, e.case)
    which = e.choice('array', sorted(arrays))
    n = arrays[which][0] + e.choice('length', [-1, 1] if which != min(arrays) else [0, -1, 1])
    given_ = {k: f(n if k == which else w) for k, (w, f) in arrays.items()}
    if n == arrays[which][0]:
        call(**given_)
        e.check(True, 'arrays of the right lengths are accepted')
    elif n > 1 or 'PMFT' not in e.case:                 # a single angle may be given as a scalar
        refused(e, lambda: call(**given_), 'an array that has not one row per point (or query point) it describes is refused')


LISTS = ['RDF', 'CorrelationFunction', 'LocalDensity', 'Cluster', 'PMFTR12', 'PMFTXYT', 'PMFTXY', 'PMFTXYZ', 'Hexatic', 'AngularSeparationNeighbor', 'LocalBondProjection',
         'BondOrder', 'FilterSANN', 'FilterRAD']


@scen('A03', LISTS)
def lists(e):
    """a neighbor list made for other points"""
    nq, np_ = e.choice('made for', [(3, 3), (2, 3), (4, 3), (3, 2), (3, 4)])
    i, j = e.conc(e.pickint('i', list(range(nq)))), e.conc(e.pickint('j', list(range(np_))))
    fits = nq == 3 and np_ == 3
    nl = mknl(e, nq, np_, [i], [j], [[0.25, 0.5, 0.0]])
    ent = ZOO[e.case]
    keep = Sys.__init__

    def init(self, *a, **k):
        keep(self, *a, **k)
        self.nb = nl
    if e.case == 'Cluster':
        def run():
            s = Sys(e, 0)
            o = ent.build(e)
            o.compute(s.system, neighbors=nl)
    else:
        def run():
            Sys.__init__ = init
            try:
                o = ent.build(e)
                ent.run(e, o, 0)
            finally:
                Sys.__init__ = keep
    if fits:
        run()
        e.check(True, 'a list for as many points and query points is accepted')
    else:
        refused(e, run, 'neighbor lists for other numbers of points or query points are refused')


# ------------------------------------------------------------------------------------------- N13
prop('N13', ['_density'], bounds='boxes with lengths and tilts on a grid in 2D and 3D, 3 points with one symbolic position; 12 forms of a system (pairs, attribute objects and stand-ins for gsd, HOOMD-blue, garnett, OVITO and MDAnalysis objects); points inside and outside the box',
     assumptions=('other packages are represented by objects with the attributes freud reads',))


def faked(path, **attrs):
    """an object of a class with the given module and name"""
    m, c = path.rsplit('.', 1)
    t = type(c, (), {'__module__': m})
    o = t()
    for k, v in attrs.items():
        setattr(o, k, v)
    return o


def ns(**k):
    return faked('somewhere.Thing', **k)


def form(e, kind, b, box, pts, arr):
    Lx, Ly, Lz, xy, xz, yz, flat = b
    F = e.freud
    six = [Lx, Ly, Lz, xy, xz, yz]
    if kind == 'pair':
        return box, arr
    if kind == 'list':
        return [box, arr]
    if kind == 'box values':
        return six, arr
    if kind == 'box dict':
        return dict(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, dimensions=2 if flat else 3), arr
    if kind == 'object':
        return ns(box=box, points=arr)
    if kind == 'object values':
        return ns(box=six, points=arr)
    lz = Lz if not flat else 1.0
    if kind in ('gsd.hoomd.Frame', 'gsd.hoomd.Snapshot', 'hoomd.snapshot.Snapshot'):
        odd_ = 0.25 if flat else None       # tilts out of the plane mean nothing in 2D
        return faked(kind, configuration=ns(box=[Lx, Ly, lz, xy, xz if odd_ is None else odd_, yz if odd_ is None else -odd_], dimensions=2 if flat else 3), particles=ns(position=arr))
    if kind == 'hoomd 2':
        bx = ns(Lx=Lx, Ly=Ly, Lz=lz, xy=xy, xz=xz, yz=yz, dimensions=2 if flat else 3)
        return ns(box=bx, particles=ns(position=arr))
    if kind == 'garnett new':
        return faked('garnett.trajectory.Frame', box=box, position=arr)
    if kind == 'garnett old':
        return faked('garnett.trajectory.Frame', box=six, positions=arr)
    if kind in ('MDAnalysis.coordinates.base.Timestep', 'MDAnalysis.coordinates.timestep.Timestep'):
        # rows are the box vectors
        return faked(kind, triclinic_dimensions=e.array([[Lx, 0, 0], [Ly * xy, Ly, 0], [Lz * xz, Lz * yz, Lz]]), positions=arr)
    if kind.endswith('DataCollection'):
        m = [[Lx, Ly * xy, lz * xz, -Lx / 2], [0, Ly, lz * yz, -Ly / 2], [0, 0, lz, -lz / 2]]
        return faked(kind, cell=ns(matrix=e.array(m, np.float64), is2D=flat), particles=ns(positions=arr))
    raise KeyError(kind)


KINDS = ['pair', 'list', 'box values', 'box dict', 'object', 'object values', 'gsd.hoomd.Frame', 'gsd.hoomd.Snapshot', 'hoomd.snapshot.Snapshot', 'hoomd 2', 'garnett new', 'garnett old',
         'MDAnalysis.coordinates.base.Timestep', 'MDAnalysis.coordinates.timestep.Timestep', 'ovito.data.DataCollection', 'ovito.plugins.PyScript.DataCollection', 'PyScript.DataCollection']


@scen('N13', KINDS)
def forms(e):
    """every form of a system describes its box and points"""
    L = e.freud.locality
    flat = False if e.case.startswith('MDA') else e.choice('flat', [False, True])
    Lx, xy = e.choice('Lx', [4.0, 6.5]), e.grid('xy', -1.0, 1.0, 0.5)
    b = (Lx, 4.0, 0, xy, 0, 0, True) if flat else (Lx, 4.0, e.choice('Lz', [8.0, 3.0]), xy, 0.25, e.choice('yz', [-0.5, 0]), False)
    cls = e.choice('class', ['AABBQuery', 'NeighborQuery', 'CellQuery'])
    pts = [[0.25, 0.5, 0.0 if flat else -0.75], [-1.0, 1.25, 0.0 if flat else 0.5], [e.grid('x', -1.5, 1.5, 0.25), 1.0, 0.0]]
    arr = e.array(pts)
    nq = getattr(L, cls).from_system(form(e, e.case, b, mkbox(e, b), pts, arr))
    e.check(type(nq).__name__ == (cls if cls != 'NeighborQuery' else '_RawPoints'), 'the query is of the class asked for')
    x = nq.box
    e.check(x.is2D == flat and x.dimensions == (2 if flat else 3), 'the box has the dimensionality of the system')
    for got, w in zip([x.Lx, x.Ly, x.Lz, x.xy, x.xz, x.yz], b):
        e.check(e.close(got, w, 1e-5), 'the box has the lengths and tilts of the system')
    e.check(len(nq.points) == 3 and e.AND(*[u == v for u, v in zip(flatten(e.el(nq.points)), flatten(pts))]), 'the points are those of the system')
    same_ = getattr(L, cls).from_system(nq)
    e.check(same_ is nq, 'a neighbor query is used as it is')


@scen('N13', ['AABBQuery', 'LinkCell', 'CellQuery'])
def own_points(e):
    """changing the arrays given afterwards does not change the system"""
    cls = e.case
    b = e.choice('box', [ORTHO2, TRIC, TIL2B])
    pts = oddpts(b, 2, 3) + [cellpoint(e, 'p', b, 4)]
    qs = oddpts(b, 1, 9, [])
    R = rmax(b)
    ref = pairs_within(e, b, pts, qs, R)
    arr = e.array(pts)
    box = mkbox(e, b)
    nq = getattr(e.freud.locality, cls)(box, arr, *([0.75] if cls == 'LinkCell' else []))
    if e.choice('when', [0, 1]):
        nq.query(e.array(qs), dict(r_max=R)).toNeighborList()
    arr[:] = 0
    box.Lx = box.Lx * 4
    box.periodic = (False, False, False)
    check_bonds(e, bonds(e, nq.query(e.array(qs), dict(r_max=R)).toNeighborList()), ref)
    e.check(e.AND(*[u == v for u, v in zip(flatten(e.el(nq.points)), flatten(pts))]), 'the points stay those given')
    e.check(nq.box == mkbox(e, b), 'the box stays the one given')


@scen('N13')
def not_systems(e):
    """objects without box and points are refused"""
    L = e.freud.locality
    arr = e.array([[0.25, 0.5, 0.0], [e.grid('x', -1, 1, 0.5), 0, 0]])
    box = mkbox(e, CUBE)
    what = {'points': lambda: arr, 'box': lambda: box, 'three': lambda: (box, arr, arr), 'swapped': lambda: (arr, box), 'none': lambda: None, 'flat points': lambda: (box, arr[0]),
            'two columns': lambda: (box, e.array([[0.0, 1.0], [1.0, 2.0]])), 'bare': lambda: ns(box=box), 'word': lambda: (box, 'points')}
    k = e.choice('what', list(what))
    cls = e.choice('class', ['AABBQuery', 'NeighborQuery', 'LinkCell'])
    refused(e, lambda: getattr(L, cls).from_system(what[k]()), 'objects that are no systems are refused')
