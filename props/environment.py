import itertools
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax
from props.pmft import atan2, qrot, qconj, QS, Axis, EPS, mod2pi, S2
from props.order import symq, unitq, sum_

EB = [ORTHO2, TRIC, TRIC3, RECT, TIL2B]


def qmul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def pm(*qs):
    return [list(q) for q in qs] + [[-x for x in q] for q in qs]


ONE = [1.0, 0.0, 0.0, 0.0]
X2, Y2, Z2, Z4 = [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [S2, 0.0, 0.0, S2]
EQUIV = [pm(ONE), pm(X2, ONE), pm(Z4, ONE, Z2, [S2, 0.0, 0.0, -S2]), pm(ONE, Y2, X2, Z2)]


# the set of equivalent orientations may be given in any common frame: r * (group)
FRAME = qmul([0.8, 0.6, 0.0, 0.0], [0.28, 0.0, -0.96, 0.0])


def given(e, eq):
    """(keyword arguments, group): the group itself or seen from another frame, or nothing"""
    if eq is None:
        return {}
    if e.choice('frame', [False, True]):
        eq = [qmul(FRAME, q) for q in eq]
    return dict(equiv_orientations=np.array(eq))


def best(e, xs):
    m = None
    for x in xs:
        m = x if m is None else e.ite(x > m, x, m)
    return m


def quats(e, n, name='o', at=0, num=24):
    """n unit quaternions, the one at `at` symbolic"""
    out = [list(q) for q in unitq()[5:5 + n]]
    out[at] = symq(e, name, num)[1]
    return out


def right_angle(e, th, a, q, eq, tag=''):
    """cos(theta / 2) is the largest |scalar part| over the equivalent orientations"""
    w = best(e, [sum_(x * y for x, y in zip(a, qmul(q, s))) for s in (eq or [ONE])])
    e.check(e.AND(th >= 0, th <= 2 * math.pi + 1e-5), tag + 'the angle is between 0 and 2 pi')
    e.check(e.close(e.fn('cos', th * 0.5), w, 1e-5), tag + 'the angle is the smallest over the equivalent orientations')


# ------------------------------------------------------------------------------------------- E01
prop('E01', ['_environment'], bounds='one (thorough two) of 24 unit quaternions per set besides fixed ones; 4 symmetry groups in 2 frames, and none; custom lists of 4 bonds; ball queries with one point on every position of a 1/2 (2D 1/4, thorough 1/4 and 1/8) fractional lattice of 2 (thorough 5) boxes; three divisions of the work among threads',
     assumptions=('the equivalent orientations are a group with q and -q, possibly all turned by one common rotation, or none', 'tolerance 1e-5 for the cosine of half the angle'))


@scen('E01', [1], [1, 2])
def global_angles(e):
    eq = e.choice('equiv', [None] + EQUIV)
    n, m = e.choice('shape', [(1, 2), (3, 1), (2, 3)])
    e.schedule(e.choice('threads', ['one', 'two']))
    g = quats(e, n, 'g') if e.case > 1 else unitq()[9:9 + n]
    o = quats(e, m, 'o', m - 1)
    f = e.freud.environment.AngularSeparationGlobal()
    f.compute(e.array(g, np.float32), e.array(o, np.float32), **given(e, eq))
    a = e.el(f.angles)
    e.check(len(a) == m and all(len(r) == n for r in a), 'one row per orientation and one column per global orientation')
    for i in range(m):
        for j in range(n):
            right_angle(e, a[i][j], o[i], g[j], eq)


@scen('E01', [1], [1, 2])
def neighbor_list(e):
    eq = e.choice('equiv', [None] + EQUIV)
    b = ORTHO2
    nq, np_ = e.choice('shape', [(3, 2), (2, 3), (3, 3)])
    e.schedule(e.choice('threads', ['one', 'two', 'each']))
    o = quats(e, np_, 'o', 1)
    oq = quats(e, nq, 'q', 0) if e.case > 1 else unitq()[12:12 + nq]
    qi = [0, 0, 1, nq - 1] if nq > 2 else [0, 1, 1]
    pi = [0, 1, 1, 0] if nq > 2 else [1, 0, 2]
    nl = mknl(e, nq, np_, qi, pi, [[0.5, 0.25, 0.125]] * len(qi))
    f = e.freud.environment.AngularSeparationNeighbor()
    f.compute((mkbox(e, b), e.array(fixedpts(b, np_))), e.array(o, np.float32), query_points=e.array(fixedpts(b, nq, 4)), query_orientations=e.array(oq, np.float32), neighbors=nl,
              **given(e, eq))
    a = e.el(f.angles)
    e.check(len(a) == len(qi), 'one angle per bond')
    for k, (i, j) in enumerate(zip(qi, pi)):
        right_angle(e, a[k], oq[i], o[j], eq, 'bond: ')
    x, y = e.el(f.nlist.query_point_indices), e.el(f.nlist.point_indices)
    e.check(list(x) == qi and list(y) == pi, 'the neighbour list used is returned')


@scen('E01', [(ORTHO2, 2), (TIL2B, 4)], [(b, 4 if not b[6] else 8) for b in EB])
def neighbor_query(e):
    """ball query; points are their own query points or not"""
    b, div = e.case
    R = rmax(b)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    sep = e.choice('query', [False, True])
    qs = fixedpts(b, 2, 9) if sep else pts
    o = unitq()[7:10]
    oq = unitq()[12:14] if sep else o
    query_given = sep or e.choice('given', [False, True])
    ref = pairs_within(e, b, pts, qs, R, 0.0, not sep)
    f = e.freud.environment.AngularSeparationNeighbor()
    kw = dict(query_points=e.array(qs)) if sep else {}
    if query_given:
        kw['query_orientations'] = np.array(oq)
    f.compute((mkbox(e, b), e.array(pts)), np.array(o), neighbors={'r_max': R, 'exclude_ii': not sep}, equiv_orientations=np.array(EQUIV[3]), **kw)
    bs = bonds(e, f.nlist)
    a = e.el(f.angles)
    e.check(len(a) == len(bs), 'one angle per bond')
    got = {(i, j) for i, j, *_ in bs}
    for k, (w, s, ins) in ref.items():
        e.check(e.conc(ins) == (k in got), 'the bonds are the pairs within the cutoff')
    for k, (i, j, *_) in enumerate(bs):
        right_angle(e, a[k], oq[i], o[j], EQUIV[3])


@scen('E01')
def orientation_numbers(e):
    n, m = e.conc(e.pickint('n', [1, 2, 3])), e.conc(e.pickint('m', [0, 1, 2, 3]))
    b = ORTHO2
    f = e.freud.environment.AngularSeparationNeighbor()
    kw = dict(query_orientations=np.array(unitq()[:m])) if m else {}
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, 3))), np.array(unitq()[:n]), query_points=e.array(fixedpts(b, 2, 4)), neighbors={'r_max': rmax(b)}, **kw))
    # without query orientations those of the points are used
    e.check((err is not None) == (n != 3 or (m != 2)), 'orientations of another number than the points, and only these, are refused')


# ------------------------------------------------------------------------------------------- E02
prop('E02', ['_environment'], bounds='one bond of every displacement on a 1/2 grid among 4 bonds, orientation of its point from 24 unit quaternions, 2 projection vectors, 4 symmetry groups in 2 frames, and none; ball queries with one point on every position of a 1/2 (2D 1/4, thorough 1/4 and 1/8) fractional lattice of 2 (thorough 5) boxes',
     assumptions=('the equivalent orientations are a group, possibly all turned by one common rotation', 'no bond has length zero', 'tolerance 1e-4'))
PV = [[1.5, 0.0, 0.5], [0.5, -2.0, 1.0]]


def projected(e, v, q, p, eq):
    l = qrot(qconj(q), v)
    return best(e, [dot(qrot(s, p), l) for s in (eq or [ONE])])


def right_projections(e, f, bs, o, eq, pv=PV):
    """bs: (query point, point, vector, squared length)"""
    a, n = e.el(f.projections), e.el(f.normed_projections)
    e.check(len(a) == len(n) == len(bs) and all(len(r) == len(pv) for r in a) and all(len(r) == len(pv) for r in n), 'one row per bond and one column per vector')
    for k, (i, j, v, s) in enumerate(bs):
        d = e.sqrt(s)
        for c, p in enumerate(pv):
            w = projected(e, v, o[j], p, eq)
            e.check(e.close(a[k][c], w, 1e-4), "the projection is the largest over the equivalent orientations of the bond in the point's frame")
            e.check(e.close(n[k][c] * d, w, 1e-4), 'the normalised projection is divided by the length of the bond')


@scen('E02', [0, 1], [0, 1, 2])
def projections_list(e):
    """0: any displacement; 1: any orientation; 2: both"""
    eq = e.choice('equiv', [None] + EQUIV)
    e.schedule(e.choice('threads', ['one', 'two', 'each']))
    b = ORTHO2
    v = [e.grid('x', -1.5, 1.5, 0.5), e.grid('y', -1.0, 1.0, 0.5), e.choice('z', [-0.5, 0.75])] if e.case != 1 else [1.25, -0.5, 0.75]
    o = quats(e, 2, 'o', 1) if e.case else unitq()[8:10]
    nq, np_ = 3, 2
    qi, pi = [0, 1, 1, 2], [1, 0, 1, 0]
    vec = [[0.5, 0.25, -0.75], [1.0, -0.25, 0.5], v, [0.0, 0.0, 1.5]]
    nl = mknl(e, nq, np_, qi, pi, vec)
    f = e.freud.environment.LocalBondProjection()
    f.compute((mkbox(e, b), e.array(fixedpts(b, np_))), e.array(o, np.float32), np.array(PV), query_points=e.array(fixedpts(b, nq, 4)), neighbors=nl,
              **given(e, eq))
    right_projections(e, f, [(i, j, w, dot(w, w)) for i, j, w in zip(qi, pi, vec)], o, eq)


@scen('E02', [(ORTHO2, 2), (TIL2B, 4)], [(b, 4 if not b[6] else 8) for b in EB])
def projections_query(e):
    b, div = e.case
    R = rmax(b)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    sep = e.choice('query', [False, True])
    qs = fixedpts(b, 2, 9) if sep else pts
    o = unitq()[7:10]
    ref = pairs_within(e, b, pts, qs, R, 0.0, not sep)
    for w, s, ins in ref.values():
        fr = frac(b, w)
        e.assume(e.OR(e.NOT(ins), e.AND(s > 0, *[abs(fr[c]) < 0.5 for c in range(3)])))
    f = e.freud.environment.LocalBondProjection()
    kw = dict(query_points=e.array(qs)) if sep else {}
    f.compute((mkbox(e, b), e.array(pts)), np.array(o), np.array(PV), neighbors={'r_max': R, 'exclude_ii': not sep}, equiv_orientations=np.array(EQUIV[2]), **kw)
    bs = bonds(e, f.nlist)
    got = {(i, j) for i, j, *_ in bs}
    for k, (w, s, ins) in ref.items():
        e.check(e.conc(ins) == (k in got), 'the bonds are the pairs within the cutoff')
    right_projections(e, f, [(i, j, ref[i, j][0], ref[i, j][1]) for i, j, *_ in bs], o, EQUIV[2])


@scen('E02')
def projection_numbers(e):
    n = e.conc(e.pickint('n', [1, 2, 3, 4]))
    b = e.choice('box', [ORTHO2, RECT])
    f = e.freud.environment.LocalBondProjection()
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, 3))), np.array(unitq()[:n]), np.array(PV), query_points=e.array(fixedpts(b, 2, 4)), neighbors={'r_max': rmax(b)}))
    e.check((err is not None) == (n != 3), 'orientations of another number than the points, and only these, are refused')


# ------------------------------------------------------------------------------------------- E03
prop('E03', ['_environment'], bounds='one bond of every displacement on a 1/2 grid, or with one of 24 orientations of point and query point, besides a fixed bond; the 4 modes, bins (3, 5) and (5, 2); ball queries in 2 (thorough 5) boxes with one symbolic point; two frames with and without reset',
     assumptions=('directions lie at least 1e-3 away from bin edges and from the poles (directions on edges: only that they are counted once)', 'no bond has length zero', 'no displacement is half a box vector long'))
MODES = ['bod', 'lbod', 'obcd', 'oocd']


def direction(e, mode, v, q, qq):
    """v: from query point to point, q: orientation of the point, qq: of the query point"""
    if mode == 'lbod':
        return qrot(qconj(q), v)
    if mode == 'obcd':
        return qrot(qq, qrot(qconj(q), v))
    if mode == 'oocd':
        return qrot(qconj(q), qrot(qq, [0.0, 0.0, 1.0]))
    return v


class Bod:
    def __init__(self, e, bins, mode):
        self.e, self.mode = e, mode
        self.axes = [Axis(0, 2 * math.pi, bins[0], True), Axis(0, math.pi, bins[1])]
        self.f = e.freud.environment.BondOrder(bins, mode)

    def inside(self, d):
        """conditions of being in each bin, exact away from the edges: sectors by half planes, cones by the z coordinate"""
        e = self.e
        s = dot(d, d)
        r = e.sqrt(s)
        out = {}
        nt, nph = self.axes[0].n, self.axes[1].n
        th = mod2pi(e, atan2(e, d[1], d[0]))
        for j in range(nph):
            c0, c1 = math.cos(math.pi * j / nph), math.cos(math.pi * (j + 1) / nph)
            cone = e.AND(d[2] <= c0 * r if j else True, d[2] > c1 * r if j < nph - 1 else True)
            for i in range(nt):
                out[i, j] = e.AND(cone, self.axes[0].inside(e, th, i))
        ok = e.AND(self.axes[0].clear(e, th), s > 0, abs(d[0]) + abs(d[1]) > EPS * r, *[abs(d[2] - math.cos(math.pi * j / nph) * r) > EPS * 2 for j in range(1, nph)])
        return out, ok

    def verify(self, ds, frames=1, tag=''):
        e = self.e
        cnt, bo = e.el(self.f.bin_counts), e.el(self.f.bond_order)
        nt, nph = [a.n for a in self.axes]
        e.check(len(cnt) == len(bo) == nt and len(cnt[0]) == len(bo[0]) == nph, tag + 'one value per bin')
        ins = []
        for d in ds:
            o, ok = self.inside(d)
            e.assume(ok)
            ins.append(o)
        for i in range(nt):
            for j in range(nph):
                m = 0
                for o in ins:
                    m = m + (1 if e.conc(o[i, j]) else 0)
                m *= frames
                e.check(cnt[i][j] == m, tag + 'a bin counts exactly the bonds with these directions')
                sa = 2 * math.pi / nt * (math.cos(math.pi * j / nph) - math.cos(math.pi * (j + 1) / nph))
                e.check(e.close(bo[i][j], m / sa / frames, 1e-4), tag + 'the bond order is the count per solid angle and frame')


@scen('E03', [0, 1], [0, 1, 2])
def bod_list(e):
    b = ORTHO2
    k = Bod(e, e.choice('bins', [(3, 5), (5, 2)]), e.choice('mode', MODES))
    v = [e.grid('x', -1.5, 1.5, 0.5), e.grid('y', -1.0, 1.0, 0.5), e.choice('z', [-1.25, 0.5, 1.0])] if e.case != 1 else [1.25, -0.5, 0.75]
    o = quats(e, 2, 'o', 1) if e.case == 1 else unitq()[8:10]
    oq = quats(e, 3, 'q', 1) if e.case == 2 else unitq()[12:15]
    qi, pi = [1, 2], [1, 0]
    vec = [v, [0.5, 0.25, -0.75]]
    nl = mknl(e, 3, 2, qi, pi, vec)
    e.schedule(e.choice('threads', ['one', 'two']))
    k.f.compute((mkbox(e, b), e.array(fixedpts(b, 2))), e.array(o, np.float32), query_points=e.array(fixedpts(b, 3, 4)), query_orientations=e.array(oq, np.float32), neighbors=nl)
    k.verify([direction(e, k.mode, w, o[j], oq[i]) for i, j, w in zip(qi, pi, vec)])


@scen('E03', [(ORTHO2, 2), (TIL2B, 4)], [(b, 4 if not b[6] else 8) for b in EB])
def bod_query(e):
    b, div = e.case
    R = rmax(b)
    k = Bod(e, (3, 5), e.choice('mode', MODES))
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    sep = e.choice('query', [False, True])
    qs = fixedpts(b, 2, 9) if sep else pts
    o = unitq()[7:10]
    oq = unitq()[12:14] if sep else o
    ref = pairs_within(e, b, pts, qs, R, 0.0, not sep)
    ds = []
    for (i, j), (w, s, ins) in ref.items():
        fr = frac(b, w)
        e.assume(e.OR(e.NOT(ins), e.AND(s > 0, *[abs(fr[c]) < 0.5 for c in range(3)])))
        if e.conc(ins):
            ds.append(direction(e, k.mode, w, o[j], oq[i]))
    kw = dict(query_points=e.array(qs), query_orientations=np.array(oq)) if sep else {}
    k.f.compute((mkbox(e, b), e.array(pts)), np.array(o), neighbors={'r_max': R, 'exclude_ii': not sep}, **kw)
    k.verify(ds)
    reset = e.choice('reset', [True, False])
    k.f.compute((mkbox(e, b), e.array(pts)), np.array(o), neighbors={'r_max': R, 'exclude_ii': not sep}, reset=reset, **kw)
    k.verify(ds, 1 if reset else 2, 'second frame: ')


@scen('E03')
def bod_edges(e):
    """a bond is counted once whatever its direction"""
    b = ORTHO2
    f = e.freud.environment.BondOrder(e.choice('bins', [(4, 4), (3, 2)]), e.choice('mode', ['bod', 'lbod']))
    v = [e.pick('x', [-1.0, -1e-4, -1e-8, 0.0, 1e-8, 1e-4, 1.0]), e.pick('y', [-1.0, -1e-4, -1e-8, 0.0, 1e-8, 1e-4, 1.0]), e.choice('z', [-1.0, -1e-4, 0.0, 1.0])]
    e.assume(e.OR(v[0] != 0, v[1] != 0, v[2] != 0))
    q = e.choice('q', [ONE, Z4, X2])
    f.compute((mkbox(e, b), e.array(fixedpts(b, 1))), [q], query_points=e.array(fixedpts(b, 1, 4)), query_orientations=[q], neighbors=mknl(e, 1, 1, [0], [0], [v]))
    e.check(sum_(x for r in e.el(f.bin_counts) for x in r) == 1, 'a bond is counted in exactly one bin')


@scen('E03')
def bod_errors(e):
    n, m = e.conc(e.pickint('n', [0, 1, 2, 3])), e.conc(e.pickint('m', [0, 1, 2, 3]))
    mode = e.choice('mode', MODES + ['BOD', ''])
    f, err = outcome(lambda: e.freud.environment.BondOrder((n, m), mode))
    e.check((err is not None) == (n < 2 or m < 2 or mode not in MODES), 'fewer than two bins and unknown modes, and only these, are refused')
    if err:
        return
    e.check(f.mode == mode and list(f.nbins) == [n, m], 'the parameters are kept')
    k, l = e.conc(e.pickint('k', [1, 2, 3])), e.conc(e.pickint('l', [1, 2, 3]))
    b = ORTHO2
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, 3))), np.array(unitq()[:k]), query_points=e.array(fixedpts(b, 2, 4)), query_orientations=np.array(unitq()[:l]), neighbors={'r_max': rmax(b)}))
    e.check((err is not None) == (k != 3 or l != 2), 'orientations of another number than the points, and only these, are refused')
