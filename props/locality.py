import math
import numpy as np
from sym.registry import prop, scen
from props.common import *

NBOX = [CUBE, ORTHO, ORTHO2, TRIC, TRIC2, TRIC3, SQ, RECT, TIL2, TIL2B]

BRICK, SKEW = (4, 3, 5, 0, 0, 0, False), (4, 3, 3, 0.5, -0.75, 0.5, False)


def rmax(b, f=1.0):
    return offlattice(min(planes(b)) / 2 * f - 0.02)


def mkq(e, cls, b, pts, **kw):
    return getattr(e.freud.locality, cls)(mkbox(e, b), e.array(pts), **kw)


def cellw(e, cls, b, r):
    """constructor arguments: LinkCell gets several cell widths"""
    if cls != 'LinkCell':
        return {}
    h = math.floor(min(planes(b)) * 128) / 256
    return {'cell_width': e.choice('cell_width', [h, r, offlattice(h * 0.6), h / 2])}


def ball_symbolic_query(e, cls, b, div):
    """every query position against fixed points"""
    pts = fixedpts(b, 3)
    if e.choice('r', [0, 1]):
        r = offlattice(min(planes(b)) / 2 * 0.68)       # leaves almost a whole cell over in some directions
        pts = [lattice(b, [s * 0.4375 for s in f[:2]] + [0.0 if b[6] else f[2] * 0.4375]) for f in ((-1, -1, -1), (-1, -1, 1), (-1, 1, -1), (1, 1, 1), (-1, 1, 1))[2 if b[6] else 0:]]       # close to the corners
        q = cellpoint(e, 'q', b, div, 1 / div - 0.5625, 1 / div + 0.4375)       # close to the upper faces
    else:
        r = rmax(b)
        q = cellpoint(e, 'q', b, div)
    nq = mkq(e, cls, b, pts, **cellw(e, cls, b, r))
    bs = bonds(e, nq.query(e.array([q]), {'mode': 'ball', 'r_max': r, 'exclude_ii': False}).toNeighborList())
    check_bonds(e, bs, pairs_within(e, b, pts, [q], r))
    e.reach('bonds%d' % len(bs))


def ball_symbolic_points(e, cls, b, div):
    """a symbolic point among fixed ones, all seen from themselves, with r_min and self-exclusion"""
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    r = rmax(b)
    rmin = e.choice('r_min', [0.0, offlattice(r * 0.6)])
    ex = e.choice('exclude_ii', [True, False])
    nq = mkq(e, cls, b, pts, **({'cell_width': min(planes(b)) / 2} if cls == 'LinkCell' else {}))
    args = {'mode': 'ball', 'r_max': r, 'exclude_ii': ex}
    if rmin:
        args['r_min'] = rmin
    bs = bonds(e, nq.query(nq.points, args).toNeighborList())
    check_bonds(e, bs, pairs_within(e, b, pts, pts, r, rmin, ex))


def ball_many_points(e, cls, b, div, n=20):
    """enough points for a tree with several nodes / many cells; one of them and one query are symbolic"""
    pts = fixedpts(b, n)
    k = e.choice('which', [0, n // 2])
    sym = e.choice('symbolic', ['point', 'query'])
    if sym == 'point':
        pts[k] = cellpoint(e, 'p', b, div)
        qs = fixedpts(b, 2, 5)
    else:
        qs = [fixedpts(b, 1, 5)[0], cellpoint(e, 'q', b, div)]
    r = rmax(b)
    nq = mkq(e, cls, b, pts, **({'cell_width': r} if cls == 'LinkCell' else {}))
    bs = bonds(e, nq.query(e.array(qs), {'r_max': r}).toNeighborList())
    check_bonds(e, bs, pairs_within(e, b, pts, qs, r))


def ball_crowd(e, cls, b, div):
    """points on top of each other (more than a tree node holds) among others, deep enough for a tree of several levels; the query point is symbolic"""
    pts = fixedpts(b, 22)
    same = pts[3]
    pts = pts[:e.choice('before', [0, 13])] + [same] * 18 + pts[13:]
    k = e.choice('which', [4, len(pts) - 1])
    sym = e.choice('symbolic', ['point', 'query'])
    qs = fixedpts(b, 1, 5)
    if sym == 'point':
        pts[k] = cellpoint(e, 'p', b, div)
    else:
        qs = [cellpoint(e, 'q', b, div)]
    r = rmax(b) * 0.75
    nq = mkq(e, cls, b, pts, **({'cell_width': r} if cls == 'LinkCell' else {}))
    bs = bonds(e, nq.query(e.array(qs), {'r_max': r}).toNeighborList())
    check_bonds(e, bs, pairs_within(e, b, pts, qs, r))


# ---------------------------------------------------------------------------------------- N01..N03
BALLB = ('every query point on the 1/8 (quick: 1/4 in 3D) fractional lattice of the cell in 10 boxes (cubic, orthorhombic, triclinic with positive and negative tilts, 2D variants) against 3 fixed points; a symbolic point among fixed ones '
         'with self-exclusion and r_min; points and queries close to the corners with a cutoff that is no divisor of the box; 20 points with one of them or one query point symbolic; 27–40 points, 18 of them coincident (trees of several levels), with one point or the query symbolic; two cutoffs off the lattice of distances{}')
BALLA = ('points and query points lie in the box cell; coordinates are multiples of box/16 so that float arithmetic is exact apart from the final square root', 'no distance equals the cutoff')
for pid, cls in (('N01', 'AABBQuery'), ('N02', 'LinkCell'), ('N03', 'CellQuery')):
    prop(pid, bounds=BALLB.format(', four cell widths and cells down to a quarter of the cutoff' if cls == 'LinkCell' else ''), assumptions=BALLA)
    for f, quick, thorough in (
            (ball_symbolic_query, [(SKEW, 4), (BRICK, 4), (TIL2B, 8), (RECT, 8)], [(b, 8) for b in NBOX + [BRICK, SKEW]]),
            (ball_symbolic_points, [(CUBE, 4), (TRIC2, 4), (TIL2, 8)], [(b, 8) for b in NBOX]),
            (ball_many_points, [(TRIC2, 4), (FLAT, 4), (SQ, 4)], [(b, 8) for b in (CUBE, FLAT, TRIC, TRIC2, SQ, TIL2B)]),
            (ball_crowd, [(ORTHO, 4), (TIL2, 4)], [(b, 4) for b in (CUBE, FLAT, TRIC, TRIC2, SQ, TIL2B)])):
        def s(e, f=f, cls=cls):
            f(e, cls, *e.case)
        s.__name__ = f.__name__
        scen(pid, quick, thorough, conc_ftoi=cls != 'AABBQuery')(s)


@scen('N02', [(CUBE, 2, 48), (TIL2, 4, 40)], [(CUBE, 4, 64), (ORTHO, 4, 64), (TRIC, 4, 64), (SQ, 8, 64), (TIL2B, 8, 64)], conc_ftoi=True)
def ball_narrow_cells(e):
    """cells much smaller than the cutoff: shells of neighbor cells up to the fifth"""
    b, div, n = e.case
    pts = fixedpts(b, n)
    q = cellpoint(e, 'q', b, div)
    r = rmax(b)
    nq = mkq(e, 'LinkCell', b, pts, cell_width=e.choice('cell_width', [r / 2.5, offlattice(r / 4)]))
    bs = bonds(e, nq.query(e.array([q]), {'mode': 'ball', 'r_max': r, 'exclude_ii': False}).toNeighborList())
    check_bonds(e, bs, pairs_within(e, b, pts, [q], r))
    e.reach('bonds%d' % len(bs))


# ------------------------------------------------------------------------------------------- N04
def check_nearest(e, b, bs, ref, k, nq, r_max=None, r_min=0.0, tag=''):
    """ref: {(i, j): (vector, squared distance)}; the k closest candidates of every query point, each once"""
    for i in range(nq):
        mine = [x for x in bs if x[0] == i]
        js = [x[1] for x in mine]
        e.check(len(set(js)) == len(js), f'{tag}no neighbour is listed twice')
        cand = {}
        for (a, j), (w, s) in ref.items():
            if a == i:
                ok = s >= r_min * r_min
                cand[j] = (w, s, ok if r_max is None else e.AND(ok, s < r_max * r_max))
        n = 0
        for w, s, ok in cand.values():
            n = n + e.ite(ok, 1, 0)
        e.check(len(mine) == e.ite(n < k, n, k), f'{tag}the number of neighbours is k, or all eligible points if fewer')
        for _, j, d, wt, v in mine:
            e.check(j in cand, f'{tag}a neighbour is a candidate')
            if j not in cand:
                continue
            w, s, ok = cand[j]
            e.check(ok, f'{tag}a neighbour lies between r_min and r_max')
            e.check(samelen(e, d, e.f32(e.sqrt(s))), f'{tag}the distance is the periodic distance')
            e.check(wt == 1, f'{tag}the weight is 1')
            for c in range(3):
                e.check(e.OR(v[c] == w[c], e.AND(w[c] == -b[c] / 2, v[c] == b[c] / 2)), f'{tag}the vector is the wrapped displacement (either image of a point half a box away)')
            for j2, (w2, s2, ok2) in cand.items():
                if j2 not in js:
                    e.check(e.OR(e.NOT(ok2), s2 >= s), f'{tag}no eligible point is closer than a reported neighbour')
    e.check(all(x[0] < nq for x in bs), f'{tag}only query points occur')


def allpairs(e, b, pts, qs, ex):
    out = {}
    for i, q in enumerate(qs):
        for j, p in enumerate(pts):
            if not (ex and i == j):
                w = wrapv(e, b, sub(p, q))
                out[i, j] = (w, dot(w, w))
    return out


def nearest_setup(e):
    cls, b = e.case[:2]
    kw = {}
    if cls == 'LinkCell':
        kw['cell_width'] = min(planes(b)) / 2 if len(e.case) < 4 else offlattice(min(planes(b)) / 4)
    return cls, b, kw


prop('N04', bounds='boxes up to seven times as long as wide with cells half the cutoff; every query point or point on the 1/8 (quick: 1/2 to 1/8) fractional lattice of cubic, orthorhombic and 2D rectangular boxes, against 2 to 4 fixed points or 20 (several tree nodes); k from 1 to 20 with r_max, r_min, r_guess, scale, self-exclusion and cell widths; skewed boxes while the k-th neighbour lies within half the smallest box height',
     assumptions=('points and query points lie in the box cell', 'coordinates are multiples of box/16', 'skewed boxes only up to half the smallest box height, where the nearest image is the wrapped one'))
NEARQ = [('AABBQuery', ORTHO, (4, 2, 2)), ('AABBQuery', RECT, (4, 4, 1)), ('LinkCell', ORTHO, (2, 2, 4)), ('LinkCell', SQ, (4, 2, 1), 'narrow')]
NEAR = [('AABBQuery', b, 8) for b in (RECT, ORTHO, CUBE)] + [('LinkCell', RECT, 8), ('LinkCell', RECT, 8, 'narrow'), ('LinkCell', ORTHO, 4), ('LinkCell', CUBE, 4, 'narrow'), ('LinkCell', CUBE, 8)]


@scen('N04', NEARQ, NEAR, conc_ftoi=True)
def nearest_symbolic_query(e):
    """every query position against fixed points; r_max, r_min, r_guess and scale vary"""
    cls, b, kw = nearest_setup(e)
    pts = fixedpts(b, 4)
    q = cellpoint(e, 'q', b, e.case[2])
    r = rmax(b)
    k, extra = e.choice('args', [(1, {}), (3, {}), (5, {}), (3, {'r_max': r}), (2, {'r_min': offlattice(r * 0.7)}), (2, {'r_guess': 0.3, 'scale': 1.05}), (3, {'r_guess': r, 'scale': 2.0})])
    args = {'mode': 'nearest', 'num_neighbors': k, 'exclude_ii': False, **extra}
    nq = mkq(e, cls, b, pts, **kw)
    bs = bonds(e, nq.query(e.array([q]), args).toNeighborList())
    check_nearest(e, b, bs, allpairs(e, b, pts, [q], False), k, 1, args.get('r_max'), args.get('r_min', 0.0))
    e.reach('n%d' % len(bs))


@scen('N04', NEARQ, NEAR, conc_ftoi=True)
def nearest_symbolic_point(e):
    """a symbolic point among fixed ones, all queried for their neighbours"""
    cls, b, kw = nearest_setup(e)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, e.case[2]), fixedpts(b, 2)[1]]
    k = e.choice('k', [1, 2])
    ex = e.choice('exclude_ii', [True, False])
    nq = mkq(e, cls, b, pts, **kw)
    bs = bonds(e, nq.query(nq.points, {'num_neighbors': k, 'exclude_ii': ex}).toNeighborList(sort_by_distance=e.choice('sort', [True, False])))
    check_nearest(e, b, bs, allpairs(e, b, pts, pts, ex), k, 3)


@scen('N04', [('AABBQuery', CUBE, 2), ('AABBQuery', RECT, 4), ('LinkCell', SQ, 4)], [('AABBQuery', CUBE, 8), ('AABBQuery', RECT, 8), ('LinkCell', CUBE, 4), ('LinkCell', RECT, 8)], conc_ftoi=True)
def nearest_many_points(e):
    """20 points: a tree with several nodes"""
    cls, b, kw = nearest_setup(e)
    pts = fixedpts(b, 20)
    q = cellpoint(e, 'q', b, e.case[2])
    k = e.choice('k', [1, 6, 20])
    nq = mkq(e, cls, b, pts, **kw)
    bs = bonds(e, nq.query(e.array([q]), {'num_neighbors': k}).toNeighborList())
    check_nearest(e, b, bs, allpairs(e, b, pts, [q], False), k, 1)


LONGY, LONGZ = (4, 12, 0, 0, 0, 0, True), (4, 6, 14, 0, 0, 0, False)


@scen('N04', [(LONGZ, 2, 8, 6), (LONGY, (2, 4, 1), 9, 9)], [(CUBE, 2, 16, 7), (ORTHO, 4, 12, 12), (RECT, 8, 16, 16), (LONGZ, 4, 12, 12), (LONGY, 8, 12, 12)], conc_ftoi=True)
def nearest_narrow_cells(e):
    """cells much smaller than the distance of the neighbors, boxes long in one direction"""
    b, div, n, k = e.case
    pts = fixedpts(b, n)
    q = [e.conc(x) for x in cellpoint(e, 'q', b, div)]      # (the sort compares all distances)
    nq = mkq(e, 'LinkCell', b, pts, cell_width=offlattice(rmax(b) / 2))
    bs = bonds(e, nq.query(e.array([q]), {'num_neighbors': k}).toNeighborList(sort_by_distance=True))
    e.check(len(bs) == k and len({e.conc(x[1]) for x in bs}) == k, 'k different neighbours are returned')
    far = bs[-1][2]
    js = {e.conc(x[1]) for x in bs}
    for j, p in enumerate(pts):
        w = wrapv(e, b, sub(p, q))
        d = e.f32(e.sqrt(dot(w, w)))
        if j not in js:
            e.check(d >= far, 'no point left out is closer than a reported neighbour')
    for x in bs:
        w = wrapv(e, b, sub(pts[e.conc(x[1])], q))
        e.check(samelen(e, x[2], e.f32(e.sqrt(dot(w, w)))), 'the distance is the periodic distance')


@scen('N04', [('AABBQuery', TRIC2, 4), ('AABBQuery', TIL2B, 8), ('LinkCell', TIL2B, 4)], [('AABBQuery', TRIC, 8), ('AABBQuery', TRIC2, 8), ('AABBQuery', TIL2B, 16), ('LinkCell', TRIC2, 8), ('LinkCell', TIL2B, 16)], conc_ftoi=True)
def nearest_triclinic(e):
    """skewed boxes: the promise holds while the k-th neighbour is within half the smallest box height"""
    cls, b, kw = nearest_setup(e)
    pts = fixedpts(b, 4)
    q = cellpoint(e, 'q', b, e.case[2])
    h = min(planes(b)) / 2
    ref = allpairs(e, b, pts, [q], False)
    k = e.choice('k', [1, 2])
    n = 0
    for w, s in ref.values():
        n = n + e.ite(s < h * h, 1, 0)
    e.assume(n >= k)
    nq = mkq(e, cls, b, pts, **kw)
    bs = bonds(e, nq.query(e.array([q]), {'num_neighbors': k}).toNeighborList())
    check_nearest(e, b, bs, ref, k, 1)


# ------------------------------------------------------------------------------------------- N05
def outcome(fn):
    """(result, None) or (None, exception class name)"""
    try:
        return fn(), None
    except (ValueError, RuntimeError, TypeError, AssertionError) as x:
        return None, type(x).__name__


prop('N05', bounds='every combination of mode (absent, ball, nearest, none, unknown), r_max and r_min from nine values around every limit (or absent), num_neighbors, and scale from five values, for the three query classes and raw (box, points) systems in a 2D and a 3D box; all eight periodicity settings; unknown argument names; z of a 2D point symbolic',
     assumptions=('r_max exactly half the smallest box height is left open', 'the sentinel values of the C++ defaults (-1 for r_max and scale) mean unset'))
def CW(cls, b=SQ):
    return {'cell_width': math.floor(min(planes(b)) * 128) / 256} if cls == 'LinkCell' else {}


QCLS = ['AABBQuery', 'LinkCell', 'CellQuery']


# the smallest distance between faces (twice the largest cutoff) is along y, x and z
YT, XT, ZT = (8, 4, 8, 0, 0, 0.75, False), (4, 8, 0, 0.75, 0, 0, True), (8, 8, 4, 0, 0, 0, False)
XYZT = (4, 8, 8, 0.75, -0.25, 0.5, False)


@scen('N05', [(c, b) for c in QCLS for b in (SQ, CUBE)] + [(c, b) for c in ('AABBQuery', 'CellQuery') for b in (YT, XT, ZT, XYZT)],
      [(c, b) for c in QCLS for b in (SQ, CUBE, YT, XT, ZT, XYZT)], conc_ftoi=True)
def arguments(e):
    """a combination of arguments is refused exactly when it is invalid, and otherwise means what it says"""
    cls, b = e.case
    lim = round(min(planes(b)), 6) / 2      # the largest cutoff of AABBQuery and CellQuery
    pts = oddpts(b, 6)
    q = pts.pop()
    nq = mkq(e, cls, b, pts, **CW(cls, b))
    mode = e.choice('mode', [None, 'ball', 'nearest', 'none', 'bogus'])
    k = e.choice('k', [None, 1, 2])
    args = {} if mode is None else {'mode': mode}
    if k is not None:
        args['num_neighbors'] = k
    have = e.choice('have_r_max', [False, True])
    rm = e.pick('r_max', [-2.0, 0.0, 0.25, 1.0078125] + [offlattice(lim * f) for f in (0.8, 0.99, 1.01, 1.5)]) if have else None
    if have:
        args['r_max'] = rm
    r_min = e.pick('r_min', [0.0, 0.25, 1.0078125]) if have else 0.0
    if have:
        args['r_min'] = r_min
    eff = mode if mode in ('ball', 'nearest', 'bogus') else 'nearest' if k is not None else 'ball' if have else 'unknown'
    scale = None
    if eff == 'nearest' and cls == 'AABBQuery':
        scale = e.choice('scale', [None, 0.0, 0.5, 1.0, 1.25, 2.0])
        if scale is not None:
            args['scale'] = scale
    res, err = outcome(lambda: bonds(e, nq.query(e.array([q]), args).toNeighborList()))
    if eff in ('bogus', 'unknown') or (eff == 'ball' and (k is not None or not have)) or (eff == 'nearest' and (k is None or cls == 'CellQuery')):
        e.check(err is not None, 'a combination of arguments that determines no query is refused')
        return
    bad = False
    if have:
        bad = e.OR(rm <= 0, rm <= r_min)
        if eff == 'ball' and cls != 'LinkCell':
            bad = e.OR(bad, rm > lim)
    if scale is not None:
        bad = e.OR(bad, scale <= 1)
    if err is not None:
        e.check(bad, 'valid arguments are accepted')
        e.check(err in ('ValueError', 'RuntimeError'), 'the error is a ValueError or RuntimeError')
        return
    e.check(e.NOT(bad), 'invalid arguments are refused')
    if eff == 'nearest':
        if any(b[3:6]):
            return      # N04: in skewed boxes the promise ends at half the smallest height
        check_nearest(e, b, res, allpairs(e, b, pts, [q], False), k, 1, rm, r_min)
    elif cls != 'LinkCell' or e.conc(rm <= lim):
        check_bonds(e, res, pairs_within(e, b, pts, [q], rm, r_min))
    e.reach('accepted ' + eff)


@scen('N05')
def unknown_arguments(e):
    b = e.choice('box', [SQ, CUBE])
    cls = e.choice('class', QCLS)
    nq = mkq(e, cls, b, fixedpts(b, 3), **CW(cls))
    key = e.choice('key', ['rmax', 'r', 'num_neighbours', 'exclude', 'k'])
    _, err = outcome(lambda: nq.query(nq.points, {'mode': 'ball', 'r_max': 1.0, key: 1}))
    e.check(err == 'ValueError', 'an unknown argument name is refused with a ValueError')


@scen('N05')
def periodicity(e):
    """pair queries need a box periodic in all three directions"""
    b = e.choice('box', [SQ, CUBE])
    cls = e.choice('class', QCLS)
    per = (e.bool('px'), e.bool('py'), e.bool('pz'))
    box = mkbox(e, b, per)
    # in 2D the box is periodic in z or not as set, and the query looks at all three flags
    nq = getattr(e.freud.locality, cls)(box, e.array(fixedpts(b, 3)), **CW(cls))
    _, err = outcome(lambda: bonds(e, nq.query(nq.points, {'r_max': 1.0078125}).toNeighborList()))
    if err is None:
        e.check(e.AND(*per), 'a box that is not fully periodic is refused')
    else:
        e.check(e.NOT(e.AND(*per)), 'a fully periodic box is accepted')
        e.check(err == 'ValueError', 'a non-periodic box is refused with a ValueError')


@scen('N05')
def systems(e):
    """systems without points, and 2D points off the plane, are refused; raw systems behave like AABBQuery"""
    cls = e.choice('class', QCLS + ['raw'])
    b = e.choice('box', [SQ, CUBE])

    def make(pts):
        p = e.array(pts) if len(pts) else np.zeros((0, 3), np.float32)
        if cls == 'raw':
            return e.freud.locality.NeighborQuery.from_system((mkbox(e, b), p))
        return getattr(e.freud.locality, cls)(mkbox(e, b), p, **CW(cls))
    pts = fixedpts(b, 3)
    if e.choice('empty', [False, True]):
        _, err = outcome(lambda: make([]))
        e.check(err == 'ValueError', 'a system of 0 points is refused with a ValueError')
        return
    z = e.pick('z', [-1.0, -0.125, 0.0, 0.125])
    pts[1] = [pts[1][0], pts[1][1], z]
    nq, err = outcome(lambda: make(pts))
    if err is None:
        e.check(e.OR(not b[6], z == 0), 'a 2D system with a point off the plane is refused')
        bs = bonds(e, nq.query(nq.points, {'r_max': 1.0078125, 'exclude_ii': True}).toNeighborList())
        check_bonds(e, bs, pairs_within(e, b, pts, pts, 1.0078125, 0.0, True))
    else:
        e.check(e.AND(b[6], z != 0), 'a valid system is accepted')
        e.check(err == 'ValueError', 'a 2D point off the plane is refused with a ValueError')


# ------------------------------------------------------------------------------------------- N06
def sympair(e, n, nq, np_, sort=True):
    """n bonds with symbolic endpoints"""
    qi = [e.pickint(f'i{k}', list(range(nq))) for k in range(n)]
    pi = [e.pickint(f'j{k}', list(range(np_))) for k in range(n)]
    if sort:
        for a, c in zip(qi, qi[1:]):
            e.assume(a <= c)
    return qi, pi


def mknl(e, nq, np_, qi, pi, vec, w='odd'):
    """a list of given bonds; the weights are odd unless given (they count in no result but the weighted ones)"""
    if isinstance(w, str):
        w = [1.5 + k / 2 for k in range(len(qi))]
    return e.freud.locality.NeighborList.from_arrays(nq, np_, e.array(qi, np.uint32), e.array(pi, np.uint32), e.array(vec, np.float32) if len(vec) else np.zeros((0, 3), np.float32), None if w is None else e.array(w, np.float32))


def check_index(e, nl, nq, qi, tag=''):
    """counts, segments and find_first_index describe the sorted query point indices"""
    cnt, seg = e.el(nl.neighbor_counts), e.el(nl.segments)
    e.check(len(cnt) == nq and len(seg) == nq, f'{tag}one count and one segment per query point')
    for i in range(nq):
        n = sum([e.ite(x == i, 1, 0) for x in qi], 0)
        first = sum([e.ite(x < i, 1, 0) for x in qi], 0)
        e.check(cnt[i] == n, f'{tag}the neighbour count is the number of bonds of a query point')
        e.check(e.OR(n == 0, seg[i] == first), f'{tag}the segment is the first bond of a query point')
        e.check(nl.find_first_index(i) == first, f'{tag}find_first_index is the first bond with a query point index not below')


prop('N06', bounds='0 to 5 bonds with symbolic query point index (out of 4), point index (out of 3), vector and weight; every order for the validity check, every sorted order otherwise',
     assumptions=('the length of a bond vector is compared after rounding to float32',))


@scen('N06', [0, 1, 3], [0, 1, 2, 3, 4, 5])
def construction(e):
    n = e.case
    qi, pi = sympair(e, n, 5, 4, sort=False)
    vec = [[e.grid(f'v{k}{c}', -1, 1, 0.5) for c in 'xyz'] for k in range(n)]
    w = [e.grid(f'w{k}', 0, 2, 0.5) for k in range(n)]
    usew = e.choice('weights', [True, False])
    valid = e.AND(*[a <= c for a, c in zip(qi, qi[1:])], *[x < 4 for x in qi], *[x < 3 for x in pi])
    nl, err = outcome(lambda: mknl(e, 4, 3, qi, pi, vec, w if usew else None))
    if err is not None:
        e.check(e.NOT(valid), 'a sorted bond list within the given sizes is accepted')
        e.check(err == 'ValueError', 'an unsorted or out of range bond list is refused with a ValueError')
        return
    e.check(valid, 'an unsorted or out of range bond list is refused')
    e.check(nl.num_query_points == 4 and nl.num_points == 3 and len(nl) == n, 'sizes')
    pairs = e.el(nl[:])
    d, ww, vv = e.el(nl.distances), e.el(nl.weights), e.el(nl.vectors)
    for k in range(n):
        e.check(e.AND(pairs[k][0] == qi[k], pairs[k][1] == pi[k]), 'bonds are stored in order')
        e.check(ww[k] == (w[k] if usew else 1), 'weights are stored, 1 by default')
        for c in range(3):
            e.check(vv[k][c] == vec[k][c], 'vectors are stored')
        e.check(samelen(e, d[k], e.f32(e.sqrt(dot(vec[k], vec[k])))), 'distances are the lengths of the vectors')
    check_index(e, nl, 4, qi)


@scen('N06', [2, 4], [2, 3, 4, 5])
def counts_and_segments(e):
    n = e.case
    qi, pi = sympair(e, n, 4, 1)
    check_index(e, mknl(e, 4, 3, qi, [0] * n, [[1, 0, 0]] * n), 4, qi)


@scen('N06', [3], [2, 3, 4])
def sorting(e):
    """sort is a permutation of whole bonds into the documented order"""
    n = e.case
    by = e.choice('by_distance', [True, False])
    qi, pi = sympair(e, n, 2, 2)
    x = [e.pick(f'x{k}', [0.5, 1.0, 1.5]) for k in range(n)]
    w = [float(k + 1) for k in range(n)]            # names the bond
    nl = mknl(e, 2, 2, qi, pi, [[0, a, 0] for a in x], w)
    r = nl.sort(by_distance=by)
    e.check(r is nl, 'sort returns the list itself')
    bs = bonds(e, nl)
    e.check(len(bs) == n, 'no bond is lost')
    ids = [e.conc(t[3]) for t in bs]
    e.check(sorted(ids) == w, 'sorting permutes the bonds')
    for t, i in zip(bs, ids):
        k = int(i) - 1
        e.check(e.AND(t[0] == qi[k], t[1] == pi[k], t[2] == x[k], t[4][0] == 0, t[4][1] == x[k], t[4][2] == 0), 'all data of a bond moves together')
    for s, t in zip(bs, bs[1:]):
        a, b = (s[0], t[0]), ((s[2], t[2]), (s[1], t[1]))
        if not by:
            b = b[::-1]
        e.check(e.OR(a[0] < a[1], e.AND(a[0] == a[1], e.OR(b[0][0] < b[0][1], e.AND(b[0][0] == b[0][1], b[1][0] <= b[1][1])))), 'bonds are in the requested order')
    check_index(e, nl, 2, [t[0] for t in bs])


@scen('N06')
def sorted_query_results(e):
    """both orders of a query result hold the same bonds"""
    b = SQ
    pts = fixedpts(b, 3) + [cellpoint(e, 'p', b, 8)]
    nq = mkq(e, 'AABBQuery', b, pts)
    r = nq.query(nq.points, {'r_max': rmax(b), 'exclude_ii': True})
    ref = pairs_within(e, b, pts, pts, rmax(b), 0.0, True)
    for by in (True, False):
        bs = bonds(e, r.toNeighborList(sort_by_distance=by))
        check_bonds(e, bs, ref)
        for s, t in zip(bs, bs[1:]):
            e.check(s[0] <= t[0], 'bonds are sorted by query point')
            if s[0] == t[0]:
                e.check(s[2] <= t[2] if by else s[1] < t[1], 'bonds of a query point are in the requested order')


# ------------------------------------------------------------------------------------------- N07
prop('N07', bounds='0 to 5 bonds with symbolic indices, lengths and mask bits; r_max and r_min symbolic around the lengths; one or two successive filters', assumptions=('bond lengths on a quarter lattice',))


@scen('N07', [0, 3], [0, 1, 2, 3, 4, 5])
def filter_mask(e):
    n = e.case
    qi, pi = sympair(e, n, 3, 2)
    x = [e.grid(f'x{k}', 0.25, 1, 0.25) for k in range(n)]
    nl = mknl(e, 3, 2, qi, pi, [[a, 0, 0] for a in x], [float(k) for k in range(n)])
    if e.choice('touch', [True, False]):
        nl.neighbor_counts                              # the cached index must be renewed
    cp = nl.copy()
    mask = [e.bool(f'm{k}') for k in range(n)]
    r = nl.filter(e.array(mask, bool))
    e.check(r is nl, 'filter returns the list itself')
    bs = bonds(e, nl)
    keep = [k for k in range(n) if e.conc(mask[k])]
    e.check(len(bs) == len(keep) == len(nl), 'exactly the marked bonds remain')
    for t, k in zip(bs, keep):
        e.check(e.AND(t[0] == qi[k], t[1] == pi[k], t[2] == x[k], t[3] == k, t[4][0] == x[k], t[4][1] == 0), 'the remaining bonds keep their order and data')
    e.check(nl.num_query_points == 3 and nl.num_points == 2, 'the system sizes stay')
    check_index(e, nl, 3, [qi[k] for k in keep], 'after filtering: ')
    e.check(len(cp) == n, 'a copy is independent')
    check_index(e, cp, 3, qi, 'copy: ')
    e.check(e.AND(*[e.AND(t[0] == qi[k], t[1] == pi[k], t[2] == x[k], t[3] == k) for k, t in enumerate(bonds(e, cp))]), 'a copy keeps all bonds')
    other = e.freud.locality.NeighborList()
    other.copy(nl)
    e.check(len(other) == len(keep) and other.num_points == 2 and other.num_query_points == 3, 'copying into a list takes over everything')


@scen('N07', [2], [2, 3])
def copy_then_sort(e):
    """reordering a list leaves its copy as it was, and the other way round; so does a write to the weights a list hands out"""
    n = e.case
    qi, pi = [0, 0, 1][:n], [2, 1, 0][:n]
    x = [e.grid(f'x{k}', 0.25, 1, 0.25) for k in range(n)]
    nl = mknl(e, 2, 3, qi, pi, [[0, a, 0] for a in x], [k + 2.0 for k in range(n)])
    cp = e.freud.locality.NeighborList()
    if e.choice('into', [True, False]):
        cp.copy(nl)
    else:
        cp = nl.copy()
    ones = [nl, cp]
    if e.choice('which', ['original', 'copy']) == 'copy':
        ones = [cp, nl]
    if e.choice('change', ['sort', 'weights']) == 'sort':
        ones[0].sort(by_distance=e.choice('by distance', [True, False]))
    else:
        try:
            ones[0].weights[0] = 7.0
        except ValueError:
            pass                                        # read-only is as good
    bs = bonds(e, ones[1])
    e.check(len(bs) == n, 'the other list keeps its bonds')
    for k, t in enumerate(bs):
        e.check(e.AND(t[0] == qi[k], t[1] == pi[k], t[2] == x[k], t[3] == k + 2, t[4][1] == x[k]), 'the other list is as it was')
    check_index(e, ones[1], 2, qi, 'the other list: ')


@scen('N07')
def mask_length(e):
    """masks that do not have one value per bond"""
    n, m = e.choice('bonds', [0, 1, 3]), e.choice('mask', [0, 1, 2, 3, 4])
    v = [[0.5, 0.25, 0.0]] * n
    nl = mknl(e, 3, 3, list(range(n)), [1] * n, v)
    mask = e.choice('values', [True, False])
    _, err = outcome(lambda: nl.filter(e.array([mask] * m, bool)))
    e.check((err is None) == (n == m), 'masks of another length than the list are refused')
    if n != m:
        e.check(len(nl) == n and bonds(e, nl) == [(k, 1) + t[2:] for k, t in enumerate(bonds(e, nl))], 'a refused filter leaves the list as it was')


@scen('N07', [1, 3], [1, 2, 3, 4])
def filter_distance(e):
    n = e.case
    x = [e.grid(f'x{k}', 0.25, 1, 0.25) for k in range(n)]
    rm, rn = e.grid('r_max', -0.25, 1.25, 0.25), e.grid('r_min', -0.25, 1.25, 0.25)
    nl = mknl(e, 3, 2, [min(k, 2) for k in range(n)], [k % 2 for k in range(n)], [[0, 0, -a] for a in x], [float(k) for k in range(n)])
    bad = e.OR(rm <= 0, rn < 0, rm <= rn)
    _, err = outcome(lambda: nl.filter_r(rm, rn))
    if err is not None:
        e.check(bad, 'a valid range is accepted')
        e.check(err == 'ValueError', 'an empty or negative range is refused with a ValueError')
        e.check(len(nl) == n, 'a refused filter leaves the list as it was')
        return
    e.check(e.NOT(bad), 'an empty or negative range is refused')
    got = [e.conc(t[3]) for t in bonds(e, nl)]
    e.check(got == sorted(got), 'the remaining bonds keep their order')
    for k in range(n):
        ins = e.AND(x[k] >= rn, x[k] < rm)
        e.check(ins if float(k) in got else e.NOT(ins), 'exactly the bonds with r_min <= distance < r_max remain')
    for t in bonds(e, nl):
        e.check(e.AND(t[2] == x[int(e.conc(t[3]))], t[4][2] == -x[int(e.conc(t[3]))]), 'the remaining bonds keep their data')
    check_index(e, nl, 3, [t[0] for t in bonds(e, nl)], 'after filtering: ')


@scen('N07')
def filter_query_result(e):
    """filtering a query result by distance equals querying with the smaller range"""
    b = e.choice('box', [SQ, TRIC])
    pts = fixedpts(b, 2) + [cellpoint(e, 'p', b, 4)]
    nq = mkq(e, 'AABBQuery', b, pts)
    nl = nq.query(nq.points, {'r_max': rmax(b), 'exclude_ii': True}).toNeighborList()
    rm, rn = offlattice(rmax(b) * 0.8), offlattice(rmax(b) * 0.3)
    nl.filter_r(rm, rn)
    check_bonds(e, bonds(e, nl), pairs_within(e, b, pts, pts, rm, rn, True))
    e.check(nl.num_query_points == 3 and nl.num_points == 3, 'the system sizes stay')


# ------------------------------------------------------------------------------------------- N08
prop('N08', bounds='1 to 4 points and query points, one of them on every position of the 1/8 (3D: 1/4) fractional lattice; with and without self-exclusion; 4 boxes', assumptions=('points lie in the box cell',))


@scen('N08', [(SQ, 8), (TIL2B, 8), (ORTHO, 4), (TRIC2, 4)], [(b, 8) for b in NBOX])
def all_pairs(e):
    b, div = e.case
    n, m = e.choice('n', [1, 3, 4]), e.choice('m', [None, 1, 2, 4])
    pts = fixedpts(b, n)
    pts[0] = cellpoint(e, 'p', b, div)
    ex = e.choice('exclude_ii', [True, False])
    qs = pts if m is None else fixedpts(b, m, 7)
    system = (mkbox(e, b), e.array(pts, np.float32))
    nl = e.freud.locality.NeighborList.all_pairs(system, None if m is None else e.array(qs, np.float32), exclude_ii=ex)
    bs = bonds(e, nl)
    want = [(i, j) for i in range(len(qs)) for j in range(n) if not (ex and i == j)]
    e.check([t[:2] for t in bs] == want, 'every pair occurs once, sorted by query point and point')
    e.check(nl.num_query_points == len(qs) and nl.num_points == n, 'sizes')
    for i, j, d, w, v in bs:
        r = wrapv(e, b, sub(pts[j], qs[i]))
        f = frac(b, r)
        tie = e.OR(*[x == -0.5 for x in f])
        e.check(e.OR(tie, e.AND(*[v[c] == r[c] for c in range(3)])), 'the bond vector is the wrapped displacement from query point to point')
        e.check(samelen(e, d, e.f32(e.sqrt(dot(v, v)))), 'the distance is the length of the vector')
        e.check(w == 1, 'weights are 1')
        back = wrapv(e, b, v)
        e.check(e.AND(*[back[c] == r[c] for c in range(3)]), 'the bond vector connects the points up to whole box vectors')
    check_index(e, nl, len(qs), [t[0] for t in bs])


# ------------------------------------------------------------------------------------------- N09
prop('N09', bounds='iteration, conversion and re-use of query results in histories of up to four operations with two cutoffs and symbolic query positions on the 1/8 (3D: 1/4) lattice; the three query classes and raw systems, 2D and 3D; results consumed step by step while another query runs',
     assumptions=('points and query points lie in the box cell',))


def any_nq(e, cls, b, pts):
    if cls == 'raw':
        return e.freud.locality.NeighborQuery.from_system((mkbox(e, b), e.array(pts)))
    return mkq(e, cls, b, pts, **({'cell_width': min(planes(b)) / 2} if cls == 'LinkCell' else {}))


def check_triples(e, got, ref, tag=''):
    seen = {}
    for i, j, d in got:
        seen.setdefault((e.conc(i), e.conc(j)), []).append(d)
    for k, (w, s, ins) in ref.items():
        x = seen.pop(k, [])
        e.check(e.NOT(ins) if not x else ins, f'{tag}exactly the pairs within the cutoff are yielded')
        e.check(len(x) <= 1, f'{tag}a pair is yielded once')
        for d in x:
            e.check(samelen(e, d, e.f32(e.sqrt(s))), f'{tag}the distance is the periodic distance')
    e.check(not seen, f'{tag}nothing else is yielded')


N9 = [(c, b, d) for c in QCLS + ['raw'] for b, d in ((RECT, 4), (TRIC2, 2))]
N9T = [(c, b, d) for c in QCLS + ['raw'] for b, d in ((RECT, 8), (TIL2B, 8), (TRIC2, 4))]


@scen('N09', N9, N9T, conc_ftoi=True)
def iterate_and_convert(e):
    """iterating over a result, again, and converting it give the same bonds"""
    cls, b, div = e.case
    pts = fixedpts(b, 3)
    qs = [fixedpts(b, 1, 5)[0], cellpoint(e, 'q', b, div)]
    r = rmax(b)
    nq = any_nq(e, cls, b, pts)
    qa = e.array(qs, np.float32)
    res = nq.query(qa, {'r_max': r})
    qa[:] = 0                                           # the result keeps its own copy of the query points
    ref = pairs_within(e, b, pts, qs, r)
    for op in e.choice('order', ['il', 'li', 'ii']):
        if op == 'i':
            check_triples(e, list(res), ref, 'iterating: ')
        else:
            check_bonds(e, bonds(e, res.toNeighborList()), ref, 'converting: ')


@scen('N09', N9, N9T, conc_ftoi=True)
def histories(e):
    """the answer of a query does not depend on the queries made before it"""
    cls, b, div = e.case
    src = e.array(fixedpts(b, 3) + [cellpoint(e, 'p', b, div)], np.float32)
    pts = e.el(src)
    nq = any_nq(e, cls, b, src)
    src[:] = 0                                          # the query object keeps its own copy of the points
    rs = [rmax(b), rmax(b, 0.5)]
    qs = fixedpts(b, 2, 5)
    for k in range(3):
        r = e.choice(f'r{k}', rs)
        check_bonds(e, bonds(e, nq.query(e.array(qs), {'r_max': r}).toNeighborList()), pairs_within(e, b, pts, qs, r), f'query {k}: ')
    got = e.el(nq.points)
    e.check(e.AND(*[got[i][c] == pts[i][c] for i in range(4) for c in range(3)]), 'the points of a query object stay')
    e.check(e.AND(nq.box.Lx == b[0], nq.box.Ly == b[1], nq.box.xy == b[3]), 'the box of a query object is the given one')


def interleave(e, r2):
    cls, b, div = e.case
    pts = fixedpts(b, 4)
    q1, q2 = [fixedpts(b, 1, 5)[0], cellpoint(e, 'q', b, div)], [fixedpts(b, 2, 6)[1]]
    r1 = rmax(b)
    r2 = e.choice('r2', [rmax(b, f) for f in r2])
    nq = any_nq(e, cls, b, pts)
    its = [iter(nq.query(e.array(q1), {'r_max': r1})), iter(nq.query(e.array(q2), {'r_max': r2}))]
    out = [[], []]
    first = e.choice('first', [0, 1])
    live = [0, 1]
    k = first
    while live:
        try:
            out[k].append(next(its[k]))
        except StopIteration:
            live.remove(k)
        k = 1 - k if 1 - k in live else (live[0] if live else 0)
    check_triples(e, out[0], pairs_within(e, b, pts, q1, r1), 'interleaved: ')
    check_triples(e, out[1], pairs_within(e, b, pts, q2, r2), 'interleaved: ')


@scen('N09', N9, N9T, conc_ftoi=True)
def interleaved(e):
    """two results consumed alternately each yield their own bonds"""
    interleave(e, [1] if e.case[0] == 'CellQuery' else [1, 0.5])


@scen('N09', [('CellQuery', RECT, 4)], [('CellQuery', RECT, 8), ('CellQuery', TRIC2, 4)], conc_ftoi=True)
def interleaved_other_cutoff(e):
    """the same for CellQuery with two cutoffs (known finding: the second query replaces the grid the first one is walking)"""
    interleave(e, [0.5])


@scen('N09', [(c, b) for c in QCLS + ['raw'] for b in (SQ, CUBE)], conc_ftoi=True)
def no_query_points(e):
    cls, b = e.case
    nq = any_nq(e, cls, b, fixedpts(b, 2))
    res = nq.query(np.empty((0, 3), np.float32), {'r_max': 1.0})
    e.check(list(res) == [], 'no query points yield no bonds')
    nl = res.toNeighborList()
    e.check(len(nl) == 0 and nl.num_query_points == 0 and nl.num_points == 2, 'no query points give an empty list')


# ------------------------------------------------------------------------------------- N10, N11
prop('N10', bounds='up to 6 neighbours per query point with symbolic lengths (every tie) for one or two query points, given as a NeighborList; all-pairs and query-argument forms on a symbolic point; incomplete shells allowed and refused',
     assumptions=('lengths are quarters, so that the sums of the rule are exact', 'the order of equally distant neighbours is by point index'))


def sann_ref(e, d):
    """number of neighbours kept among ascending distances d, and whether the shell is complete"""
    n = len(d)
    m = min(3, n)
    s = sum(d[:m], 0)
    while m < n and e.conc(s > (m - 2) * d[m]):
        s = s + d[m]
        m += 1
    return m, m < n


@scen('N10', [4, 5], [2, 3, 4, 5, 6])
def sann_list(e):
    """the solid angle rule on a given list"""
    n = e.case
    b = (8, 8, 8, 0, 0, 0, False)
    x = [e.grid(f'x{k}', 0.5, 2.5 if n > 4 else 3.5, 0.5) for k in range(n)]
    for s, t in zip(x[1:], x[2:]):
        e.assume(s <= t)                                # the first bond is anywhere, the others ascend
    allow = e.choice('allow', [True, False])
    nl = mknl(e, 2, n, [1] * n, list(range(n)), [[0, a, 0] for a in x], [float(k + 1) for k in range(n)])
    pts = fixedpts(b, n)
    f = e.freud.locality.FilterSANN(allow_incomplete_shell=allow)
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(pts)), nl, query_points=e.array(fixedpts(b, 2, 3))))
    order = sorted(range(n), key=lambda k: (k == 0, k))
    pos = 0
    while pos < n - 1 and e.conc(x[0] > x[1 + pos]):
        pos += 1
    order = list(range(1, 1 + pos)) + [0] + list(range(1 + pos, n))
    m, full = sann_ref(e, [x[k] for k in order])
    # query point 0 has no neighbours at all: its shell is never full
    if not allow:
        e.check(err == 'RuntimeError', 'an incomplete shell is refused unless allowed')
        return
    e.check(err is None, 'an incomplete shell is accepted if allowed')
    fl, ul = f.filtered_nlist, f.unfiltered_nlist
    bs = bonds(e, fl)
    e.check([e.conc(t[3]) for t in bs] == [float(k + 1) for k in order[:m]], 'the closest neighbours satisfying the solid angle rule are kept')
    for t, k in zip(bs, order):
        e.check(e.AND(t[0] == 1, t[1] == k, t[2] == x[k], t[4][1] == x[k], t[4][0] == 0), 'the kept bonds keep their data')
    e.check(fl.num_query_points == 2 and fl.num_points == n, 'the filtered list keeps the system sizes')
    check_index(e, fl, 2, [1] * m)
    e.check(len(ul) == n and e.AND(*[t[3] == k + 1 for k, t in enumerate(bonds(e, ul))]), 'the unfiltered list is the given one')
    e.reach('full' if full else 'incomplete')


@scen('N10', [1, 2, 3, 4], [1, 2, 3, 4, 5])
def sann_complete(e):
    """a single query point: the shell is complete exactly if the rule stops before the last neighbour"""
    n = e.case
    b = (8, 8, 8, 0, 0, 0, False)
    x = [e.grid(f'x{k}', 0.5, 3.5, 0.5) for k in range(n)]
    for s, t in zip(x, x[1:]):
        e.assume(s <= t)
    nl = mknl(e, 1, n, [0] * n, list(range(n)), [[0, 0, a] for a in x])
    f = e.freud.locality.FilterSANN()
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, n))), nl, query_points=e.array(fixedpts(b, 1, 3))))
    m, full = sann_ref(e, x)
    e.check((err is None) == full, 'a shell that no neighbour closes is refused')
    if err is None:
        e.check(len(f.filtered_nlist) == m, 'the closest neighbours satisfying the solid angle rule are kept')


def line_dist(e, b, q, p):
    w = wrapv(e, b, sub(p, q))
    return w, e.f32(e.sqrt(dot(w, w)))


@scen('N10', [SQ], [SQ, CUBE])
def filter_systems(e):
    """without neighbours all pairs are filtered; with query arguments the query result is; the filtered list is a subset"""
    b = e.case
    pts = fixedpts(b, 3) + [cellpoint(e, 'p', b, 4)]
    cls = e.choice('filter', ['FilterSANN', 'FilterRAD'])
    f = getattr(e.freud.locality, cls)(allow_incomplete_shell=True)
    how = e.choice('neighbors', ['none', 'args', 'list'])
    system = (mkbox(e, b), e.array(pts))
    r = rmax(b)
    if how == 'none':
        f.compute(system)
        want = e.freud.locality.NeighborList.all_pairs(system)
    else:
        nl = e.freud.locality.AABBQuery(*system).query(system[1], {'r_max': r, 'exclude_ii': True}).toNeighborList()
        want = nl
        f.compute(system, {'r_max': r} if how == 'args' else nl)
    ub, wb, fb = bonds(e, f.unfiltered_nlist), bonds(e, want), bonds(e, f.filtered_nlist)
    e.check([t[:2] for t in ub] == [t[:2] for t in wb], 'the unfiltered list is the full list')
    d = {t[:2]: t for t in wb}
    e.check(len(set(t[:2] for t in fb)) == len(fb), 'no bond is repeated')
    e.check(f.filtered_nlist.num_query_points == 4 and f.filtered_nlist.num_points == 4, 'the filtered list keeps the system sizes')
    for t in fb:
        u = d.get(t[:2])
        e.check(u is not None, 'the filtered bonds are among the unfiltered ones')
        tie = e.OR(*[e.OR(c == -L / 2, c == L / 2) for c, L in zip(u[4], b[:3]) if L])
        e.check(e.AND(t[2] == u[2], t[3] == u[3], e.OR(tie, e.AND(*[t[4][c] == u[4][c] for c in range(3)]))), 'the kept bonds keep their data')
    for s, t in zip(fb, fb[1:]):
        e.check(e.OR(s[0] < t[0], e.AND(s[0] == t[0], s[2] <= t[2])), 'the filtered list is sorted by query point and distance')
    if cls == 'FilterSANN':
        for i in range(4):
            mine = sorted([t for t in wb if t[0] == i], key=lambda t: 0)
            got = [t for t in fb if t[0] == i]
            e.check(len(got) >= min(3, len(mine)), 'at least three neighbours are kept if there are that many')
            for t in mine:
                if t[1] not in [g[1] for g in got]:
                    e.check(e.AND(*[g[2] <= t[2] for g in got]), 'no removed neighbour is closer than a kept one')


prop('N11', bounds='up to 4 neighbours of one query point, one of them on every position of a 9x9 lattice, the others fixed, symbolic weights, open and closed rule, incomplete shells allowed and refused; also with two query points',
     assumptions=('neighbours closer than half the box', 'the blocking inequality is decided exactly except where float32 rounding could tip it (equality within 1e-5 is left open)'))


def rad_blocked(e, vj, vk, rj=1.0, rk=1.0):
    """k blocks j: (rj/dj)^2 < cos(angle) (rk/dk)^2"""
    dj2, dk2 = dot(vj, vj), dot(vk, vk)
    dj, dk = e.f32(e.sqrt(dj2)), e.f32(e.sqrt(dk2))
    lhs = rj * rj * (dk2 * dj * dk)
    rhs = rk * rk * (dot(vj, vk) * dj2)
    return lhs, rhs


@scen('N11', [(2, 'first'), (3, 'last')], [(2, 'first'), (3, 'first'), (3, 'last'), (4, 'last')])
def rad_rule(e):
    n, which = e.case
    b = (16, 16, 0, 0, 0, 0, True)
    step = 0.5
    fixed = [[1.0, 0.25, 0.0], [-0.5, 1.5, 0.0], [2.0, -1.0, 0.0], [0.25, -1.75, 0.0]][:n - 1]
    sym = [e.grid('x', -2, 2, step), e.grid('y', -2, 2, step), 0.0]
    e.assume(e.OR(sym[0] != 0, sym[1] != 0))
    pts = [sym] + fixed if which == 'first' else fixed + [sym]
    closed = e.choice('terminate_after_blocked', [True, False])
    allow = e.choice('allow', [True, False])
    w = [float(k + 1) for k in range(n)]
    o = [7.5, -7.75, 0.0]                               # the neighbours lie across the boundary
    q = [o, [0.0, 0.0, 0.0]]
    abspts = [wrapv(e, b, add(o, p)) for p in pts]
    rad = e.choice('radii', [None, [2.0, 1.0, 0.5, 1.0][:n], [1.0, 3.0, 1.5, 0.5][:n]])
    nl = mknl(e, 2, n, [0] * n, list(range(n)), pts, w)
    f = e.freud.locality.FilterRAD(allow_incomplete_shell=allow, terminate_after_blocked=closed)
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(abspts)), nl, query_points=e.array(q), points_radii=None if rad is None else np.array(rad, np.float32)))
    rad = rad or [1.0] * n
    # reference: ascending distance, ties by index
    d2 = [dot(p, p) for p in pts]
    order = []
    for k in range(n):
        pos = 0
        while pos < len(order) and e.conc(d2[order[pos]] <= d2[k]):
            pos += 1
        order.insert(pos, k)
    kept = []
    good = True
    for a, j in enumerate(order):
        good = True
        for k in order[:a]:
            l, r = rad_blocked(e, pts[j], pts[k], rad[j], rad[k])
            e.assume(e.OR(l - r > 1e-5, r - l > 1e-5))
            if e.conc(l < r):
                good = False
                break
        if good:
            kept.append(j)
        elif closed:
            break
    if closed and not allow:
        # the second query point has no neighbours, so its shell is never closed
        e.check(err == 'RuntimeError', 'an open shell is refused unless allowed')
        return
    e.check(err is None, 'the filter accepts the list')
    bs = bonds(e, f.filtered_nlist)
    e.check([e.conc(t[1]) for t in bs] == kept, 'exactly the neighbours not blocked by a closer one are kept' + (' up to the first blocked one' if closed else ''))
    for t in bs:
        e.check(e.AND(t[0] == 0, t[3] == w[t[1]], samelen(e, t[2], e.f32(e.sqrt(d2[t[1]]))), *[t[4][c] == pts[t[1]][c] for c in range(3)]), 'the kept bonds keep direction, length and weight')
    e.check(f.filtered_nlist.num_query_points == 2 and f.filtered_nlist.num_points == n, 'the filtered list keeps the system sizes')
    e.reach('kept%d' % len(kept))


@scen('N11')
def rad_shell(e):
    """one query point: the closed rule needs a blocked neighbour, the open one never complains"""
    b = (16, 16, 0, 0, 0, 0, True)
    pts = [[1.0, 0.25, 0.0], [e.grid('x', -2, 2, 0.5), e.grid('y', 1.5, 2.5, 0.5), 0.0]]
    closed = e.choice('terminate_after_blocked', [True, False])
    nl = mknl(e, 1, 2, [0, 0], [0, 1], pts)
    f = e.freud.locality.FilterRAD(terminate_after_blocked=closed)
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(pts)), nl, query_points=np.zeros((1, 3), np.float32)))
    l, r = rad_blocked(e, pts[1], pts[0])
    e.assume(e.OR(l - r > 1e-5, r - l > 1e-5))
    blocked = e.conc(l < r)
    e.check((err is None) == (blocked or not closed), 'the closed rule refuses a shell without a blocked neighbour')


# ------------------------------------------------------------------------------------------- N12
prop('N12', bounds='one symbolic point on the 1/8 fractional lattice (2D) or 1/4 (3D) and one fixed point; buffer distances per axis from five values, image counts 0 to 2; 6 boxes; with and without the input points',
     assumptions=('points lie in the box cell', 'no image of a point lies exactly on the boundary of the buffer box'))


@scen('N12', [(RECT, 8), (TIL2B, 8), (ORTHO, 2), (ORTHO2, 2), (TRIC, 4)], [(ORTHO2, 4), (TRIC3, 4), (SQ, 8), (RECT, 8), (TIL2, 8), (TIL2B, 8), (CUBE, 4), (ORTHO, 4), (TRIC, 4), (TRIC2, 4)])
def buffer_distance(e):
    """all images inside the enlarged box, each once, with the index of its original"""
    b, div = e.case
    pts = [cellpoint(e, 'p', b, div), fixedpts(b, 1)[0]]
    far = [[1.25 * b[a] + 0.0625 if a == c else 0.0 for a in range(3)] for c in range(2 if b[6] else 3)]
    B = e.choice('buffer', far + ([0.3125, 1.3125, [0.0, 0.3125, 1.0625], [2.5625, 0.0, 0.8125], 4.3125] if b[6] else [0.3125, [0.0, 0.3125, 1.0625], 2.5625]))
    inc = e.choice('include_input_points', [True, False])
    pb = e.freud.locality.PeriodicBuffer()
    pb.compute((mkbox(e, b), e.array(pts)), B, include_input_points=inc)
    Bv = [B] * 3 if not isinstance(B, list) else B
    bb = pb.buffer_box
    e.check([bb.Lx, bb.Ly] == [b[0] + 2 * Bv[0], b[1] + 2 * Bv[1]] and (b[6] or bb.Lz == b[2] + 2 * Bv[2]), 'the buffer box is longer by twice the distance')
    e.check([bb.xy, bb.xz, bb.yz] == list(b[3:6]) and bb.is2D == b[6], 'the buffer box keeps tilts and dimension')
    ids = [e.conc(i) for i in e.el(pb.buffer_ids)]
    out = e.el(pb.buffer_points)
    e.check(len(ids) == len(out), 'one index per buffer point')
    big = (b[0] + 2 * Bv[0], b[1] + 2 * Bv[1], 0 if b[6] else b[2] + 2 * Bv[2]) + tuple(b[3:])
    R = 3
    todo = list(zip(ids, out))
    for k, p in enumerate(pts):
        for n0 in range(-R, R + 1):
            for n1 in range(-R, R + 1):
                for n2 in ([0] if b[6] else range(-R, R + 1)):
                    if not any((n0, n1, n2)) and not inc:
                        continue
                    im = add(p, lattice(b, (n0, n1, n2)))
                    f = frac(big, im)[:2 if b[6] else 3]
                    if any(e.conc(e.OR(x <= -0.5, x >= 0.5)) for x in f):
                        if any(e.conc(e.AND(x >= -0.5, x <= 0.5)) and e.conc(e.OR(x == -0.5, x == 0.5)) for x in f):
                            # exactly on the boundary: left open
                            for t in todo:
                                if t[0] == k and e.conc(e.AND(*[t[1][c] == im[c] for c in range(3)])):
                                    todo.remove(t)
                                    break
                        continue
                    hit = [t for t in todo if t[0] == k and e.conc(e.AND(*[t[1][c] == im[c] for c in range(3)]))]
                    e.check(len(hit) == 1, 'every image inside the buffer box occurs once')
                    if hit:
                        todo.remove(hit[0])
    e.check(not todo, 'nothing else is in the buffer')
    e.reach('n%d' % len(ids))


@scen('N12', [(RECT, 8), (TIL2B, 8), (ORTHO, 2), (ORTHO2, 2), (TRIC, 2)], [(ORTHO2, 4), (TRIC3, 4), (SQ, 8), (RECT, 8), (TIL2, 8), (TIL2B, 8), (CUBE, 4), (ORTHO, 4), (TRIC, 4), (TRIC2, 4)])
def buffer_images(e):
    """a number of images per axis: all of them, wrapped into the enlarged box"""
    b, div = e.case
    pts = [cellpoint(e, 'p', b, div), fixedpts(b, 1)[0]]
    n = e.choice('images', [0, 1, 2, [0, 1, 2], [1, 0, 0]] if b[6] else [0, 1, [0, 1, 1], [2, 0, 0]])
    nv = n if isinstance(n, list) else [n] * 3
    inc = e.choice('include_input_points', [True, False])
    pb = e.freud.locality.PeriodicBuffer()
    pb.compute((mkbox(e, b), e.array(pts)), n, images=True, include_input_points=inc)
    bb = pb.buffer_box
    big = (b[0] * (1 + nv[0]), b[1] * (1 + nv[1]), 0 if b[6] else b[2] * (1 + nv[2])) + tuple(b[3:])
    e.check([bb.Lx, bb.Ly] == list(big[:2]) and (b[6] or bb.Lz == big[2]) and [bb.xy, bb.xz, bb.yz] == list(b[3:6]), 'the buffer box has one more box length per image')
    ids = [e.conc(i) for i in e.el(pb.buffer_ids)]
    out = e.el(pb.buffer_points)
    want = []
    for k, p in enumerate(pts):
        for a in range(nv[0] + 1):
            for c in range(nv[1] + 1):
                for d in ([0] if b[6] else range(nv[2] + 1)):
                    if inc or a or c or d:
                        want.append((k, wrapv(e, big, add(p, lattice(b, (a, c, d))))))
    e.check(len(ids) == len(want), 'every image is present')
    todo = list(zip(ids, out))
    for k, im in want:
        hit = [t for t in todo if t[0] == k and e.conc(e.AND(*[e.AND(x < 1e-5, x > -1e-5) for x in wrapv(e, big, sub(t[1], im))]))]
        e.check(len(hit) >= 1, 'every image is present, with the index of its original')
        if hit:
            todo.remove(hit[0])
            e.check(e.AND(*[e.AND(x >= -0.50001, x <= 0.50001) for x in frac(big, hit[0][1])]), 'images lie inside the buffer box')


@scen('N12')
def buffer_errors(e):
    b = e.choice('box', [SQ, CUBE])
    B = [e.pick(f'b{c}', [-1.0, 0.0, 0.5]) for c in 'xyz']
    pb = e.freud.locality.PeriodicBuffer()
    _, err = outcome(lambda: pb.compute((mkbox(e, b), e.array(fixedpts(b, 1))), B))
    bad = e.OR(*[x < 0 for x in B])
    e.check(bad if err else e.NOT(bad), 'negative distances and only those are refused')
