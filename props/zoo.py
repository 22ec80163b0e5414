"""one entry per compute class: how it is built, computed on one of several systems, and what it reports"""
import math
import numpy as np
from props.common import *
from props.locality import mknl, rmax
from props.order import unitq
from props.pmft import S2

QZ = [[1.0, 0, 0, 0], [S2, 0, 0, S2], [0.8, 0, 0, 0.6], [0.6, 0, 0, -0.8]]

ZOO = {}
BOXES3 = [TRIC, ORTHO2, TRIC3]
BOXES2 = [TIL2B, RECT, SQ]


class Entry:
    def __init__(self, name, mod, build, run, attrs, exact=()):
        self.name, self.mod, self.build, self.run, self.attrs, self.exact = name, mod, build, run, attrs, exact


def grid(e, name):
    c = e.__dict__.setdefault('zc', {})
    if name not in c:
        c[name] = e.grid(name, -0.5, 0.375, 0.125)
    return c[name]


class Holder:
    pass


class Sys:
    """system number v (0, 1, 2 with 3 to 5 points; 'big': random) in two or three dimensions"""

    def __init__(self, e, v, flat=False, sym=True):
        self.e, self.v = e, v
        self.big = v == 'big'
        self.k = k = 0 if self.big else v
        if self.big:
            n, L = 3000, 12.0
            self.b = (L, L, 0, 0.25, 0, 0, True) if flat else (L, L, L, 0.25, -0.125, 0.5, False)
            rng = np.random.default_rng(5)
            u = rng.random((n, 3)) - 0.5
            self.p = [lattice(self.b, x) for x in u.tolist()]
            self.r = 1.5
        else:
            self.b = (BOXES2 if flat else BOXES3)[k]
            n = 3 + k
            self.p = oddpts(self.b, n, 3 + k)
            if sym:
                self.p[1] = lattice(self.b, [grid(e, f'x{k}'), 0.25, 0.0 if flat else -0.25])
                self.p[1] = add(self.p[1], [1 / 64, 3 / 64, 0.0 if flat else 5 / 64])
            self.r = rmax(self.b)
        self.n = n
        self.box = mkbox(e, self.b)
        self.ins = []
        self.pts = self.arr(self.p)
        self.system = (self.box, self.pts)
        self.nb = dict(mode='ball', r_max=self.r, exclude_ii=True)
        qs = unitq() if not flat else QZ
        self.q = self.arr([qs[(i + k) % len(qs)] for i in range(n)])
        self.q2 = self.arr([qs[(3 * i + 5 + k) % len(qs)] for i in range(n)])

    def arr(self, x, *a):
        r = np.array(x, *a) if all(isinstance(y, (int, float)) for y in flatten(x)) else self.e.array(x, *a)
        self.ins.append((r, self.e.el(r)))
        return r

    def unchanged(self):
        """(before, after) of every input array"""
        for r, old in self.ins:
            yield old, self.e.el(r)


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    elif hasattr(x, 're') or isinstance(x, complex):
        yield from cx(x)
    else:
        yield x


def entry(name, mod, make, attrs, exact=()):
    def d(fn):
        ZOO[name] = Entry(name, mod, make, fn, attrs, exact)
        return fn
    return d


@entry('RDF', '_density', lambda e: e.freud.density.RDF(5, 1.25), ['rdf', 'n_r', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    o.compute(s.system, neighbors=s.nb, **kw)
    return s


@entry('CorrelationFunction', '_density', lambda e: e.freud.density.CorrelationFunction(4, 1.25), ['correlation', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    o.compute(s.system, s.arr([float(i % 7 - 2) for i in range(s.n)], np.float64), neighbors=s.nb, **kw)
    return s


@entry('LocalDensity', '_density', lambda e: e.freud.density.LocalDensity(1.25, 0.5), ['density', 'num_neighbors'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, neighbors=s.nb)
    return s


@entry('GaussianDensity', '_density', lambda e: e.freud.density.GaussianDensity((3, 2, 4), 1.25, 0.5), ['density'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, s.arr([float(i % 5 - 1) for i in range(s.n)]))
    return s


@entry('SphereVoxelization', '_density', lambda e: e.freud.density.SphereVoxelization((3, 2, 4), 0.75), ['voxels'], ['voxels'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system)
    return s


@entry('GaussianDensity2D', '_density', lambda e: e.freud.density.GaussianDensity((3, 2), 1.25, 0.5), ['density'])
def _(e, o, v):
    s = Sys(e, v, True)
    o.compute(s.system)
    return s


@entry('Cluster', '_cluster', lambda e: e.freud.cluster.Cluster(), ['cluster_idx', 'num_clusters', 'cluster_keys'], ['cluster_idx', 'num_clusters', 'cluster_keys'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, keys=s.arr([i % 4 for i in range(s.n)], np.uint32), neighbors=dict(r_max=0.75 if s.big else s.r))
    return s


@entry('ClusterProperties', '_cluster', lambda e: e.freud.cluster.ClusterProperties(),
       ['centers', 'centers_of_mass', 'gyrations', 'inertia_tensors', 'sizes', 'radii_of_gyration', 'cluster_masses'], ['sizes'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, s.arr([i % 2 for i in range(s.n)], np.uint32), s.arr([1.0 + i % 3 for i in range(s.n)]))
    return s


@entry('PMFTR12', '_pmft', lambda e: e.freud.pmft.PMFTR12(1.25, (2, 3, 2)), ['pmft', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v, True)
    o.compute(s.system, s.q, neighbors=s.nb, **kw)
    return s


@entry('PMFTXYT', '_pmft', lambda e: e.freud.pmft.PMFTXYT(1.25, 1.5, (2, 3, 2)), ['pmft', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v, True)
    o.compute(s.system, s.q, neighbors=s.nb, **kw)
    return s


@entry('PMFTXY', '_pmft', lambda e: e.freud.pmft.PMFTXY(1.25, 1.5, (2, 3)), ['pmft', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v, True)
    o.compute(s.system, s.q, neighbors=s.nb, **kw)
    return s


@entry('PMFTXYZ', '_pmft', lambda e: e.freud.pmft.PMFTXYZ(1.25, 1.5, 1.75, (2, 3, 2)), ['pmft', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    o.compute(s.system, s.q, neighbors=s.nb, **kw)
    return s


@entry('Hexatic', '_order', lambda e: e.freud.order.Hexatic(2), ['particle_order'])
def _(e, o, v):
    s = Sys(e, v, True)
    o.compute(s.system, neighbors=s.nb)
    return s


@entry('RotationalAutocorrelation', '_order', lambda e: e.freud.order.RotationalAutocorrelation(2), ['particle_order', 'order'])
def _(e, o, v):
    s = Sys(e, v, sym=False)
    o.compute(s.q, s.q2)
    return s


@entry('Cubatic', '_order', lambda e: e.freud.order.Cubatic(0.5, 0.25, 0.5, 2, 3), ['order', 'particle_order', 'orientation', 'global_tensor', 'cubatic_tensor'])
def _(e, o, v):
    s = Sys(e, v, sym=False)
    o.compute(s.q)
    return s


@entry('AngularSeparationNeighbor', '_environment', lambda e: e.freud.environment.AngularSeparationNeighbor(), ['angles'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, s.q, s.pts, s.q2, neighbors=s.nb)
    return s


@entry('AngularSeparationGlobal', '_environment', lambda e: e.freud.environment.AngularSeparationGlobal(), ['angles'])
def _(e, o, v):
    s = Sys(e, v, sym=False)
    o.compute(s.q, s.q2)
    return s


@entry('LocalBondProjection', '_environment', lambda e: e.freud.environment.LocalBondProjection(), ['projections', 'normed_projections'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, s.q, s.arr([[1.0, 0.0, 0.0], [0.0, 0.5, 0.25]]), neighbors=s.nb)
    return s


@entry('BondOrder', '_environment', lambda e: e.freud.environment.BondOrder((4, 3)), ['bond_order', 'bin_counts'], ['bin_counts'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    o.compute(s.system, s.q, neighbors=s.nb, **kw)
    return s


@entry('StaticStructureFactorDebye', '_diffraction', lambda e: e.freud.diffraction.StaticStructureFactorDebye(3, 2.0, 0.5), ['S_k', 'min_valid_k'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    if s.big:
        s.system = (s.box, s.pts[:300])
    o.compute(s.system, **kw)
    return s


@entry('PeriodicBuffer', '_locality', lambda e: e.freud.locality.PeriodicBuffer(), ['buffer_points', 'buffer_ids', 'buffer_box'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, 1, True)
    return s


@entry('MSD', '_util', lambda e: e.freud.msd.MSD(mode='direct'), ['msd', 'particle_msd'])
def _(e, o, v, **kw):
    s = Sys(e, v)
    o.compute(s.arr([s.p, [add(p, [i, 0.5, 0.0]) for i, p in enumerate(s.p)]]), **kw)
    return s


@entry('Interface', '_util', lambda e: e.freud.interface.Interface(), ['point_ids', 'query_point_ids', 'point_count', 'query_point_count'], ['point_ids', 'query_point_ids', 'point_count', 'query_point_count'])
def _(e, o, v):
    s = Sys(e, v)
    o.compute(s.system, s.arr(s.p[:2]), neighbors=dict(mode='ball', r_max=s.r, exclude_ii=True))
    return s


for n_, f_ in (('FilterSANN', lambda e: e.freud.locality.FilterSANN(True)), ('FilterRAD', lambda e: e.freud.locality.FilterRAD(True))):
    @entry(n_, '_locality', f_, ['filtered_nlist', 'unfiltered_nlist'], ['filtered_nlist', 'unfiltered_nlist'])
    def _(e, o, v):
        s = Sys(e, v)
        o.compute(s.system, neighbors=s.nb)
        return s


COMPUTE = list(ZOO)


def held(name):
    return entry(name, '_locality', lambda e: Holder(), ['r'], ['r'])


for n_ in ('AABBQuery', 'LinkCell'):
    for kind in ('ball', 'nearest'):
        @held(f'{n_} {kind}')
        def _(e, o, v, n_=n_, kind=kind):
            s = Sys(e, v, sym=(n_, kind) != ('LinkCell', 'nearest'))
            if s.big:
                s.p, s.n = s.p[:1000], 1000
                s.pts = s.pts[:1000]
            nq = getattr(e.freud.locality, n_)(s.box, s.pts, *([0.75] if n_ == 'LinkCell' else []))
            o.r = nq.query(s.pts, dict(s.nb) if kind == 'ball' else dict(mode='nearest', num_neighbors=2, r_guess=s.r / 2, exclude_ii=True)).toNeighborList()
            return s


@held('NeighborList')
def _(e, o, v):
    s = Sys(e, v)
    nl = e.freud.locality.AABBQuery(s.box, s.pts).query(s.pts, s.nb).toNeighborList(sort_by_distance=True)
    al = e.freud.locality.NeighborList.all_pairs(s.system) if not s.big else nl
    fl = nl.copy()
    fl.sort(False)
    o.r = [nl, al, fl]
    return s


@held('Box')
def _(e, o, v):
    s = Sys(e, v)
    b = s.box
    far = s.arr([add(p, [5.0, -9.5, 7.25]) for p in s.p])
    few = s.pts[:200] if s.big else s.pts
    o.r = [b.wrap(far), b.get_images(far), b.unwrap(s.pts, b.get_images(far)), b.make_fractional(s.pts), b.make_absolute(s.pts), b.contains(far),
           b.compute_distances(s.pts, far), b.compute_all_distances(few, few)]
    return s


def outputs(e, o, ent):
    """{attribute: (object handed out, values)}"""
    out = {}
    for a in ent.attrs:
        x = getattr(o, a)
        out[a] = (x, values(e, x))
    return out


def values(e, x):
    if type(x).__name__ == 'NeighborList':
        return [e.el(x.query_point_indices), e.el(x.point_indices), e.el(x.distances), e.el(x.weights), e.el(x.vectors), e.el(x.segments), e.el(x.neighbor_counts)]
    if type(x).__name__ == 'Box':
        return [x.Lx, x.Ly, x.Lz, x.xy, x.xz, x.yz]
    if isinstance(x, (list, tuple)):
        return [values(e, y) for y in x]
    if isinstance(x, np.ndarray):
        return e.el(x)
    return x


def isnan(x):
    return isinstance(x, float) and x != x


def same(e, x, y, tol):
    """equal in shape and, up to tol, in value"""
    a, b = list(flatten(x)), list(flatten(y))
    if len(a) != len(b):
        return False
    out = []
    for u, v in zip(a, b):
        if u is v or isnan(u) and isnan(v):
            continue
        if tol == 0:
            out.append(u == v)
        elif isinstance(u, float) and isinstance(v, float) and u in (math.inf, -math.inf):
            out.append(u == v)
        else:
            out.append(e.OR(u == v, e.close(u, v, tol if not isinstance(v, float) else tol * max(1.0, abs(v)))))
    return e.AND(*out) if out else True


def cx(u):
    return (u.re, u.im) if hasattr(u, 're') else (complex(u).real, complex(u).imag)
