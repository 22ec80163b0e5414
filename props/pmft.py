import itertools
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax, mkq

TWOPI = 2 * math.pi
B2 = [SQ, RECT, TIL2, TIL2B]
B3 = [CUBE, ORTHO2, TRIC, TRIC3]
EPS = 1e-3


def mod2pi(e, t):
    return t - TWOPI * e.floor(t * (1 / TWOPI))


class Axis:
    def __init__(self, lo, hi, n, wrap=False):
        self.lo, self.hi, self.n, self.wrap = lo, hi, n, wrap
        self.w = (hi - lo) / n

    def edges(self):
        return [self.lo + k * self.w for k in range(self.n + 1)]

    def clear(self, e, x):
        """x is away from every edge"""
        u = (x - self.lo) * (1 / self.w)
        d = EPS / self.w
        f = u - e.floor(u)
        ok = e.AND(f > d, f < 1 - d)
        if not self.wrap:
            ok = e.OR(ok, u < -d, u > self.n + d)
        return ok

    def inside(self, e, x, k):
        a, b = self.lo + k * self.w, self.lo + (k + 1) * self.w
        return e.AND(x >= a, x < b)


def angles(e, d):
    return math.atan2(d[1], d[0])


def atan2(e, y, x):
    if e.native:
        return math.atan2(y, x)
    from sym import val as V
    return V.f_atan2(y if isinstance(y, V.Sym) else float(y), x if isinstance(x, V.Sym) else float(x))


def rot(e, a, d):
    """rotate (x, y) by -a"""
    c, s = math.cos(a), math.sin(a)
    return d[0] * c + d[1] * s, d[1] * c - d[0] * s


def qrot(q, v):
    """rotate v by the quaternion"""
    w, x, y, z = q
    m = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return [m[r][0] * v[0] + m[r][1] * v[1] + m[r][2] * v[2] for r in range(3)]


def qconj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def get(a, idx):
    for k in idx:
        a = a[k]
    return a


def dims(a):
    s = []
    while isinstance(a, (list, tuple)):
        s.append(len(a))
        a = a[0]
    return s


def verify(e, f, axes, coords, dens, elem, frames=1, n=1, tag='', sq=False):
    """coords: coordinate tuples of all counted bonds; dens: query point density; elem(idx): volume element of a bin"""
    cnt, pm = e.el(f.bin_counts), e.el(f.pmft)
    shp = [a.n for a in axes]
    squeezed = [k for k in shp if k != 1]
    e.check(dims(cnt) == (squeezed if sq else shp), tag + 'the counts have one entry per bin')
    e.check(list(f.nbins) == shp, tag + 'the numbers of bins are kept')
    for a, ed, cs, bd in zip(axes, f.bin_edges, f.bin_centers, f.bounds):
        want = a.edges()
        e.check(e.AND(*[e.close(x, y, 1e-5) for x, y in zip(e.el(ed), want)]), tag + 'the edges divide the range evenly')
        e.check(e.AND(*[e.close(x, (y + z) / 2, 1e-5) for x, y, z in zip(e.el(cs), want, want[1:])]), tag + 'the centers lie in the middle')
        e.check(e.AND(e.close(bd[0], a.lo, 1e-5), e.close(bd[1], a.hi, 1e-5)), tag + 'the bounds are the requested range')
    for idx in itertools.product(*[range(k) for k in shp]):
        m = 0
        for c in coords:
            m = m + (1 if e.conc(e.AND(*[a.inside(e, x, k) for a, x, k in zip(axes, c, idx)])) else 0)
        i2 = tuple(k for k, s in zip(idx, shp) if s != 1) if sq else idx
        e.check(get(cnt, i2) == m, tag + 'a bin counts exactly the bonds with these coordinates')
        p = get(pm, idx)
        p = float(e.conc(p))
        if m == 0:
            e.check(p == math.inf, tag + 'the potential of an empty bin is infinite')
        else:
            w = m / (frames * n * dens * elem(idx))
            e.check(abs(p + math.log(w)) <= 1e-4, tag + 'the potential is -log of the count over the count expected of an ideal gas')


def area(b):
    return b[0] * b[1] * (1 if b[6] else b[2])


# ------------------------------------------------------------------------------------------- 2D kinds
class Kind:
    def __init__(self, e, name, lim):
        self.name = name
        if name == 'R12':
            self.axes = [Axis(0, lim, 2), Axis(0, TWOPI, 3, True), Axis(0, TWOPI, 2, True)]
            self.f = e.freud.pmft.PMFTR12(lim, (2, 3, 2))
        elif name == 'XYT':
            self.axes = [Axis(-lim, lim, 2), Axis(-lim * 0.75, lim * 0.75, 3), Axis(0, TWOPI, 3, True)]
            self.f = e.freud.pmft.PMFTXYT(lim, lim * 0.75, (2, 3, 3))
        else:
            self.axes = [Axis(-lim, lim, 3), Axis(-lim * 0.75, lim * 0.75, 2)]
            self.f = e.freud.pmft.PMFTXY(lim, lim * 0.75, (3, 2))
        self.e = e
        self.lim = lim

    def compute(self, sys, o, qo=None, **kw):
        if self.name == 'XY':
            return self.f.compute(sys, qo if qo is not None else o, **kw)
        if qo is not None:
            kw['query_orientations'] = qo
        return self.f.compute(sys, o, **kw)

    def coords(self, d, dist, op, oq):
        """d: vector from query point to point"""
        e = self.e
        if self.name == 'R12':
            return (dist, mod2pi(e, op - atan2(e, d[1], d[0])), mod2pi(e, oq - atan2(e, -d[1], -d[0])))
        x, y = rot(e, oq, d)
        if self.name == 'XY':
            return (x, y)
        return (x, y, mod2pi(e, op - atan2(e, -d[1], -d[0])))

    def elem(self, idx):
        a = self.axes
        if self.name == 'R12':
            r = (idx[0] + 0.5) * a[0].w
            return r * a[0].w * a[1].w / a[2].n
        if self.name == 'XYT':
            return a[0].w * a[1].w / a[2].n
        return a[0].w * a[1].w

    def sure(self, cs):
        e = self.e
        for c in cs:
            e.assume(e.AND(*[a.clear(e, x) for a, x in zip(self.axes, c)]))

    def verify(self, b, cs, n, nq, frames=1, tag=''):
        verify(self.e, self.f, self.axes, cs, nq / area(b), self.elem, frames, n, tag, self.name == 'XY')


def list2d(e, name):
    """custom lists: every displacement and orientation"""
    b = e.choice('box', [(16, 8, 0, 0, 0, 0, True), (16, 16, 0, 0.5, 0, 0, True)])
    k = Kind(e, name, 2.0 + 1 / 129)
    v = [e.grid('x', -2.5, 2.5, 0.5), e.grid('y', -1.5, 1.5, 0.5), 0.0]
    e.assume(e.OR(v[0] != 0, v[1] != 0))
    w = [-0.75, 1.25, 0.0]
    op = [e.choice('op', [0.3, -2.1, 11.5]), 1.9]
    oq = [0.4, e.choice('oq', [0.7, -3.3, 8.0]), 5.0]
    qi, pi = [0, 1], [1, 0]
    nl = mknl(e, 3, 2, qi, pi, [w, v])
    cs = [k.coords(w, math.sqrt(dot(w, w)), op[1], oq[0]), k.coords(v, e.sqrt(dot(v, v)), op[0], oq[1])]
    k.sure(cs)
    k.compute((mkbox(e, b), e.array(fixedpts(b, 2))), op, oq, query_points=e.array(fixedpts(b, 3, 4)), neighbors=nl)
    k.verify(b, cs, 2, 3)


def system2d(e, name):
    """default queries (a point is not its own neighbour), two frames, reset or not"""
    b, div = e.case
    R = rmax(b)
    k = Kind(e, name, R if name == 'R12' else R / 1.25)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    o = [0.3, 2.4, -1.7]
    sep = e.choice('query', [False, True])
    qs = fixedpts(b, 2, 9) if sep else pts
    oq = [1.1, -0.6] if sep else o
    ref = pairs_within(e, b, pts, qs, R, 0.0, not sep)
    cs = []
    for (i, j), (w, s, ins) in ref.items():
        if e.conc(ins):
            if e.conc(s == 0):
                e.assume(False)
            cs.append(k.coords(w, e.sqrt(s), o[j], oq[i]))
    k.sure(cs)
    # displacements of half a box may be taken at either side
    for w, s, ins in ref.values():
        f = frac(b, w)
        e.assume(e.OR(e.NOT(ins), e.AND(*[abs(f[c]) < 0.5 for c in range(2)])))
    kw = dict(query_points=e.array(qs)) if sep else {}
    k.compute((mkbox(e, b), e.array(pts)), o, oq if sep else None, **kw)
    k.verify(b, cs, 3, len(qs))
    reset = e.choice('reset', [True, False])
    k.compute((mkbox(e, b), e.array(pts)), o, oq if sep else None, reset=reset, **kw)
    k.verify(b, cs if reset else cs + cs, 3, len(qs), 1 if reset else 2, 'second frame: ')


def errors2d(e, name):
    """3D boxes, wrong orientations and empty ranges are refused, quaternions about z are angles"""
    b = (8, 8, 0, 0, 0, 0, True)
    k = Kind(e, name, 2.0 + 1 / 129)
    pts = [[0.0, 0.0, 0.0], [e.choice('x', [0.75, -1.5]), 0.5, 0.0], [0.25, -1.25, 0.0]]
    box = mkbox(e, CUBE if e.choice('3d', [False, True]) else b)
    what = e.choice('what', ['angles', 'quaternions', 'tilted', 'short', 'negative'])
    an = [0.3, 0.0, 2.5]
    if what == 'negative':
        an = [-0.3, 0.75, -2.5]
    o = {'short': an[:2], 'tilted': [[1, 0, 0, 0], [math.cos(0.2), 0, math.sin(0.2), 0], [1, 0, 0, 0]]}.get(what, an)
    if what in ('quaternions', 'negative'):
        o = [[math.cos(a / 2), 0, 0, math.sin(a / 2)] for a in an]
    _, err = outcome(lambda: k.compute((box, e.array(pts)), np.array(o), neighbors={'r_max': 1.97, 'exclude_ii': True}))
    bad = what in ('tilted', 'short') or not box.is2D
    e.check((err is not None) == bad, '3D boxes and orientations that are not one rotation about z per point, and only these, are refused')
    if bad:
        return
    ref = pairs_within(e, b, pts, pts, 1.97, 0.0, True)
    k.verify(b, [k.coords(w, e.sqrt(s), an[j], an[i]) for (i, j), (w, s, ins) in ref.items() if e.conc(ins)], 3, 3)
    bins = e.pickint('bins', [0, 1])
    lim = e.choice('lim', [-1.0, 1.0])
    P = e.freud.pmft
    mk = {'R12': lambda: P.PMFTR12(lim, bins), 'XYT': lambda: P.PMFTXYT(1.0, lim, bins), 'XY': lambda: P.PMFTXY(lim, 1.0, bins)}[name]
    _, err = outcome(mk)
    e.check((err == 'ValueError') == e.conc(e.OR(bins == 0, lim < 0)), 'histograms without bins or with a negative range, and only these, are refused')


def edges2d(e, name):
    """no bond in range is lost or counted twice, even if its angles fall on the edge of a bin"""
    b = (16, 8, 0, 0, 0, 0, True)
    k = Kind(e, name, 2.0 + 1 / 129)
    v = [e.grid('x', -1.5, 1.5, 0.5), e.grid('y', -1.0, 1.0, 0.5), 0.0]
    e.assume(e.OR(v[0] != 0, v[1] != 0))
    o = e.choice('o', [0.0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, 3 * math.pi / 4, -1e-7, -1e-10])
    nl = mknl(e, 1, 1, [0], [0], [v])
    k.compute((mkbox(e, b), e.array(fixedpts(b, 1))), [o], [o], query_points=e.array(fixedpts(b, 1, 4)), neighbors=nl)
    tot = 0
    for row in e.el(k.f.bin_counts):
        for c in row:
            for x in (c if isinstance(c, list) else [c]):
                tot = tot + x
    e.check(e.OR(tot == 1, e.AND(tot == 0, e.NOT(e.AND(*[e.AND(x > a.lo + EPS, x < a.hi - EPS) for x, a in zip(k.coords(v, e.sqrt(dot(v, v)), o, o), k.axes) if not a.wrap])))), 'a bond in range is counted in exactly one bin')


BND2 = 'one bond of every displacement on a 1/2 grid and several orientations besides a fixed one; default queries with one point on every position of a 1/4 or 1/8 fractional lattice among two fixed ones, in 2 (thorough 4) boxes; two frames with and without reset; orientations as angles or quaternions'
ASM2 = ('coordinates lie at least 1e-3 away from bin edges (bonds on angular edges: only that they are counted once)', 'no displacement is half a box vector long', 'no pair at distance zero', 'tolerance 1e-4 for the potential')
for pid, nm in (('P01', 'R12'), ('P02', 'XYT'), ('P03', 'XY')):
    prop(pid, ['_pmft'], bounds=BND2, assumptions=ASM2)
    for fn, q, t in ((list2d, [None], [None]), (system2d, [(RECT, 8), (TIL2B, 4)], [(b, 8) for b in B2]), (errors2d, [None], [None]), (edges2d, [None], [None])):
        def s(e, fn=fn, nm=nm):
            fn(e, nm)
        s.__name__ = fn.__name__
        scen(pid, q, t)(s)


# ------------------------------------------------------------------------------------------- P04
prop('P04', ['_pmft'], bounds='one bond of every displacement on a 1/2 grid, 4 orientations, 1 to 3 equivalent orientations, shifts; default queries with one symbolic point among two fixed ones in 2 (thorough 4) boxes; two frames with and without reset',
     assumptions=ASM2)
S2 = math.sqrt(0.5)
QS = [[1.0, 0, 0, 0], [S2, 0, 0, S2], [0.5, 0.5, 0.5, 0.5], [0.8, 0.36, 0.48, 0.0]]
EQ = [None, [[1.0, 0, 0, 0], [0, 1.0, 0, 0]], [[1.0, 0, 0, 0], [0.5, 0.5, 0.5, 0.5], [0.6, 0, 0.8, 0]]]


def coords3(v, q, eq):
    d = qrot(qconj(q), v)
    return [tuple(qrot(x, d)) for x in (eq or [[1.0, 0, 0, 0]])]


def sure3(e, axes, cs):
    for c in cs:
        e.assume(e.AND(*[a.clear(e, x) for a, x in zip(axes, c)]))


def mk3(e, lim, shift=None):
    axes = [Axis(-lim, lim, 2), Axis(-lim / 2, lim / 2, 3), Axis(-lim * 0.75, lim * 0.75, 1)]
    f = e.freud.pmft.PMFTXYZ(lim, lim / 2, lim * 0.75, (2, 3, 1), *([shift] if shift else []))
    return axes, f, lambda idx: axes[0].w * axes[1].w * axes[2].w


@scen('P04')
def list3d(e):
    b = (16, 8, 16, 0, 0, 0, False)
    axes, f, elem = mk3(e, 2.0 + 1 / 65)
    v = [e.grid('x', -2.25, 2.25, 0.5), e.grid('y', -1.25, 1.25, 0.5), e.choice('z', [-1.75, 0.5, 1.0])]
    w = [-0.75, 1.25, 0.5]
    q = [QS[3], e.choice('q', QS), QS[1]]
    eq = e.choice('eq', EQ)
    cs = coords3(w, q[0], eq) + coords3(v, q[1], eq)
    sure3(e, axes, cs)
    f.compute((mkbox(e, b), e.array(fixedpts(b, 2))), np.array(q), query_points=e.array(fixedpts(b, 3, 4)), neighbors=mknl(e, 3, 2, [0, 1], [1, 0], [w, v]),
              equiv_orientations=None if eq is None else np.array(eq))
    verify(e, f, axes, cs, 3 / area(b), elem, 1, 2 * len(eq or [0]))


@scen('P04', [(ORTHO2, 2), (TRIC3, 2)], [(b, 4) for b in B3])
def system3d(e):
    b, div = e.case
    R = rmax(b)
    axes, f, elem = mk3(e, R / 1.35, None)
    shift = e.choice('shift', [None, [0.125, -0.25, 0.0625]])
    if shift:
        axes, f, elem = mk3(e, R / 1.35, shift)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    sep = e.choice('query', [False, True])
    qs = fixedpts(b, 2, 9) if sep else pts
    q = [QS[2], QS[3], QS[0]][:len(qs)]
    r = math.sqrt(sum(a.hi ** 2 for a in axes))
    assert r <= R
    shifted = [sub(x, shift) if shift else x for x in qs]
    ref = pairs_within(e, b, pts, shifted, r, 0.0, not sep)
    cs = []
    for (i, j), (w, s, ins) in ref.items():
        fr = frac(b, w)
        e.assume(e.OR(e.NOT(ins), e.AND(*[abs(fr[c]) < 0.5 for c in range(3)])))
        if e.conc(ins):
            cs += coords3(w, q[i], None)
    sure3(e, axes, cs)
    kw = dict(query_points=e.array(qs)) if sep else {}
    f.compute((mkbox(e, b), e.array(pts)), np.array(q), **kw)
    verify(e, f, axes, cs, len(qs) / area(b), elem, 1, 3)
    reset = e.choice('reset', [True, False])
    f.compute((mkbox(e, b), e.array(pts)), np.array(q), reset=reset, **kw)
    verify(e, f, axes, cs if reset else cs + cs, len(qs) / area(b), elem, 1 if reset else 2, 3, 'second frame: ')


@scen('P04')
def errors3d(e):
    P = e.freud.pmft
    bins = e.pickint('bins', [0, 1, 2])
    which = e.choice('which', [0, 1, 2])
    lim = [1.0, 1.0, 1.0]
    lim[which] = e.choice('lim', [-1.0, 1.0])
    n = [1, 2, 3]
    n[which] = e.conc(bins)
    f, err = outcome(lambda: P.PMFTXYZ(*lim, n))
    e.check((err == 'ValueError') == (n[which] == 0 or lim[which] < 0), 'histograms without bins or with a negative range, and only these, are refused')
    if err:
        return
    b = e.choice('box', [CUBE, SQ])
    ln = e.conc(e.pickint('len', [2, 3]))
    o = [QS[1]] * ln
    pts = [[0.0, 0.0, 0.0], [0.5, 0.25, 0.0], [-0.5, -0.25, 0.0]]
    k1, k2 = e.choice('equiv', [(1, 1), (1, 2), (2, 2)])
    reset = e.choice('reset', [True, False])
    go = lambda k, **kw: f.compute((mkbox(e, b), e.array(pts)), np.array(o), equiv_orientations=np.array(EQ[2][:k]), **kw)
    _, e1 = outcome(lambda: go(k1))
    e.check((e1 is None) == (ln == 3 and not b[6]), '2D boxes and orientations of another number than the query points, and only these, are refused')
    if e1 is None:
        _, e2 = outcome(lambda: go(k2, reset=reset))
        e.check((e2 is None) == (reset or k1 == k2), 'frames accumulated together must have the same number of equivalent orientations')
