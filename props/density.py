import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax, mkq, any_nq

DB = [CUBE, ORTHO, ORTHO2, TRIC, TRIC2, TRIC3, SQ, RECT, TIL2, TIL2B]


def rel(e, got, want, tol=2e-5):
    """equality up to a relative rounding error"""
    d = got - want
    lim = tol * abs(want) if not isinstance(want, float) else max(tol * abs(want), 1e-9)
    return e.AND(d <= lim + 1e-9, -d <= lim + 1e-9)


def count(e, conds):
    n = 0
    for c in conds:
        n = n + e.ite(c, 1, 0)
    return n


def edges_of(r_min, r_max, bins):
    return [r_min + (r_max - r_min) * k / bins for k in range(bins + 1)]


def bin_conds(e, d, r_min, r_max, bins):
    """for every bin whether d lies in it: lower edge included, upper edge excluded"""
    ed = edges_of(r_min, r_max, bins)
    return [e.AND(d >= ed[k], d < ed[k + 1]) for k in range(bins)]


def one(x):
    """one-dimensional histograms may report a list per axis or the axis itself"""
    while len(x) == 1 and not np.isscalar(x[0]):
        x = x[0]
    return x


# ------------------------------------------------------------------------------------------- D01
prop('D01', ['_density'], bounds='up to 3 bonds with lengths on a 1/8 (thorough 1/16) grid from below the range to above it, query point indices and bin numbers 1 to 7, ranges with exactly representable bin edges (values on an edge included) and ranges whose edges fall between the grid values; RDF and correlation function histograms',
     assumptions=('no length lies within rounding error of a bin edge that is not exactly representable',))
# (bins, r_min, r_max): dyadic widths, so edges are exact
RANGES = [(1, 0.0, 1.0), (4, 0.0, 2.0), (6, 0.5, 2.0), (2, 0.75, 1.25), (7, 0.0, 1.8 + 1 / 999.), (5, 0.3 + 1 / 999., 1.7), (3, 0.0, 2.5 + 1 / 999.)]


def clear_edges(step, r_min, r_max, bins):
    """every grid value is either away from all edges or the edges are exact"""
    ed = edges_of(r_min, r_max, bins)
    dy = all((x * 1024).is_integer() for x in ed)
    return dy or all(x == 0 or abs(k * step - x) > 1e-5 for x in ed for k in range(64))


@scen('D01', [(2, r) for r in RANGES], [(3, r) for r in RANGES])
def rdf_bins(e):
    n, (bins, r_min, r_max) = e.case
    step = 0.125
    assert clear_edges(step, r_min, r_max, bins)
    x = [e.grid(f'x{k}', 0, 3, step) for k in range(n)]
    ax = e.choice('axis', [0, 2])
    nl = mknl(e, 2, 2, [0] * (n - 1) + [1], [k % 2 for k in range(n)], [[a, 0, 0] if ax == 0 else [0, 0, -a] for a in x])
    f = e.freud.density.RDF(bins, r_max, r_min)
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, 2))), neighbors=nl)
    c = e.el(f.bin_counts)
    e.check(len(c) == bins, 'one count per bin')
    for k in range(bins):
        e.check(c[k] == count(e, [bin_conds(e, a, r_min, r_max, bins)[k] for a in x]), 'a bin counts exactly the lengths from its lower edge up to its upper edge')
    ed = edges_of(r_min, r_max, bins)
    be, bc, bb = e.el(one(f.bin_edges)), e.el(one(f.bin_centers)), f.bounds
    bb = bb[0] if len(bb) == 1 else bb
    e.check(len(be) == bins + 1 and len(bc) == bins and (f.nbins == bins or f.nbins == [bins] or list(f.nbins) == [bins]), 'edges, centers and number of bins have the right length')
    e.check(e.AND(*[e.close(a, w) for a, w in zip(be, ed)]), 'the edges divide the range evenly')
    e.check(e.AND(*[e.close(a, (ed[k] + ed[k + 1]) / 2) for k, a in enumerate(bc)]), 'the centers lie in the middle of the bins')
    e.check(e.AND(e.close(bb[0], r_min), e.close(bb[1], r_max)), 'the bounds are the requested range')


@scen('D01', [(2, r) for r in RANGES if r[1] == 0], [(3, r) for r in RANGES if r[1] == 0])
def cf_bins(e):
    n, (bins, _, r_max) = e.case
    x = [e.grid(f'x{k}', 0, 3, 0.125) for k in range(n)]
    nl = mknl(e, 2, 2, [0] * (n - 1) + [1], [k % 2 for k in range(n)], [[0, a, 0] for a in x])
    f = e.freud.density.CorrelationFunction(bins, r_max)
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, 2))), [1.0, 1.0], neighbors=nl)
    c, v = e.el(f.bin_counts), e.el(f.correlation)
    e.check(len(c) == len(v) == bins, 'one value per bin')
    for k in range(bins):
        m = count(e, [bin_conds(e, a, 0.0, r_max, bins)[k] for a in x])
        e.check(c[k] == m, 'a bin counts exactly the lengths from its lower edge up to its upper edge')
        e.check(v[k] == e.ite(m > 0, 1, 0), 'the average of ones is one in every bin with bonds and zero in empty ones')


LASTS = [(5, 0.1, 1.0), (10, 0.1, 1.0), (7, 0.0, 1.3), (12, 0.0, 1.7), (5, 0.0, 2.3), (7, 0.0, 3.1), (10, 0.0, 0.9), (9, 0.1, 0.9), (3, 0.0, 1.3), (6, 0.0, 1.0), (8, 0.5, 2.0)]


@scen('D01')
def last_edge(e):
    """single precision lengths around the upper limit: dividing by the bin width rounds some of them up to the number of bins"""
    f4 = np.float32
    bins, r_min, r_max = e.choice('range', LASTS)
    hi = f4(r_max)
    down = [np.nextafter(hi, f4(0))]
    for _ in range(3):
        down.append(np.nextafter(down[-1], f4(0)))
    up = np.nextafter(hi, f4(99))
    k = e.pickint("k", list(range(7)))
    x = e.lookup(k, [float(v) for v in down + [hi, up, f4(r_max + 1)]])
    inside = k < 4
    nl = mknl(e, 2, 2, [0, 1], [1, 0], [[x, 0, 0], [0, r_max + 2, 0]])
    which = e.choice('which', ['RDF', 'CorrelationFunction'])
    if which == 'CorrelationFunction' and r_min:
        return
    f = e.freud.density.RDF(bins, r_max, r_min) if which == 'RDF' else e.freud.density.CorrelationFunction(bins, r_max)
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, 2))), *([] if which == 'RDF' else [[1.0, 1.0]]), neighbors=nl)
    c = e.el(f.bin_counts)
    e.check(len(c) == bins, 'one count per bin')
    e.check(e.AND(c[-1] == e.ite(inside, 1, 0), *[v == 0 for v in c[:-1]]), 'a length just below the upper limit is counted in the last bin, one that reaches it nowhere')


@scen('D01')
def bad_ranges(e):
    bins = e.pickint('bins', [0, 1, 3])
    rm, rn = e.grid('r_max', -0.5, 1.5, 0.5), e.grid('r_min', -0.5, 1.5, 0.5)
    which = e.choice('which', ['RDF', 'CorrelationFunction'])
    if which == 'RDF':
        _, err = outcome(lambda: e.freud.density.RDF(bins, rm, rn))
        bad = e.OR(bins == 0, rm <= 0, rn < 0, rm <= rn)
    else:
        _, err = outcome(lambda: e.freud.density.CorrelationFunction(bins, rm))
        bad = e.OR(bins == 0, rm <= 0)
    e.check(bad if err else e.NOT(bad), 'histograms without bins, with a negative range or an empty one, and only those, are refused')
    if err:
        e.check(err == 'ValueError', 'refused with a ValueError')


# ------------------------------------------------------------------------------------------- D02
prop('D02', ['_density'], bounds='2 to 4 points, one on every position of the 1/4 (2D 1/8) fractional lattice, points as their own or separate query points, one or two frames, both normalisation modes, 5 quick (10 thorough) boxes; custom neighbour lists',
     assumptions=('points lie in the box cell', 'no pair distance lies on a bin edge', 'all frames have the same box and numbers of points'))


def rdf_reference(e, b, dists_frames, n, nqp, bins, r_min, r_max, mode):
    """counts, g(r) and n(r) from lists of (distance, used) per frame; squared distances are compared with squared edges"""
    ed = edges_of(r_min, r_max, bins)
    nf = len(dists_frames)
    vol = b[0] * b[1] * (1 if b[6] else b[2])
    rho = nqp / vol
    if mode == 'finite_size':
        rho = rho * (nqp - 1) / nqp
    counts, g, nr = [], [], []
    tot = 0
    for k in range(bins):
        lo, hi = ed[k], ed[k + 1]
        c = sum(1 for fr in dists_frames for s in fr if e.conc(e.AND(s >= lo * lo, s < hi * hi)))
        shell = math.pi * (hi * hi - lo * lo) if b[6] else 4 / 3 * math.pi * (hi ** 3 - lo ** 3)
        counts.append(c)
        g.append(c * (1 / (n * rho * nf * shell)))
        tot = tot + c
        nr.append(tot * (1 / (nqp * nf)))
    return counts, g, nr


def rdf_check(e, f, ref, tag=''):
    c, g, nr = ref
    gc, gg, gn = e.el(f.bin_counts), e.el(f.rdf), e.el(f.n_r)
    e.check(len(gc) == len(gg) == len(gn) == len(c), tag + 'one value per bin')
    for k in range(len(c)):
        e.check(gc[k] == c[k], tag + 'a bin counts the pairs of all frames at its distances')
        e.check(rel(e, gg[k], g[k]), tag + 'g(r) is the count over the expected count of an ideal gas')
        e.check(rel(e, gn[k], nr[k]), tag + 'n(r) is the running mean number of neighbours')


@scen('D02', [(ORTHO2, 2), (TRIC, 4), (TIL2B, 4), (RECT, 8)], [(b, 4 if not b[6] else 8) for b in DB])
def rdf_system(e):
    """the default query: all pairs up to r_max, a point is not its own neighbour"""
    b, div = e.case
    r_max = rmax(b)
    bins, r_min = e.choice('bins', [(3, 0.0), (2, offlattice(r_max / 3))])
    mode = e.choice('mode', ['exact', 'finite_size'])
    sep = e.choice('query', ['self', 'other', 'same given'])
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    qs = fixedpts(b, 2, 9) if sep == 'other' else pts
    f = e.freud.density.RDF(bins, r_max, r_min, normalization_mode=mode)
    f.compute((mkbox(e, b), e.array(pts)), query_points=None if sep == 'self' else e.array(qs))
    ref = pairs_within(e, b, pts, qs, r_max, 0.0, sep == 'self')
    rdf_check(e, f, rdf_reference(e, b, [[s for _, s, _ in ref.values()]], len(pts), len(qs), bins, r_min, r_max, mode))
    bx = f.box
    e.check([bx.Lx, bx.Ly, bx.Lz, bx.xy, bx.xz, bx.yz, bx.is2D] == list(b), 'the box is kept')


@scen('D02', [(ORTHO2, 2), (TIL2B, 4)], [(b, 4) for b in DB])
def rdf_frames(e):
    """accumulating frames, reading in between, resetting"""
    b, div = e.case
    r_max = rmax(b)
    bins = 3
    a = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div)]
    c = fixedpts(b, 2, 4)
    read = e.choice('read', [True, False])
    reset = e.choice('reset', [True, False])
    mode = e.choice('mode', ['exact', 'finite_size'])
    f = e.freud.density.RDF(bins, r_max, normalization_mode=mode)
    box = mkbox(e, b)
    f.compute((box, e.array(a)))
    d1 = [s for _, s, _ in pairs_within(e, b, a, a, r_max, 0.0, True).values()]
    d2 = [s for _, s, _ in pairs_within(e, b, c, c, r_max, 0.0, True).values()]
    if read:
        rdf_check(e, f, rdf_reference(e, b, [d1], 2, 2, bins, 0.0, r_max, mode), 'first frame: ')
        kept = f.rdf
    f.compute((box, e.array(c)), reset=reset)
    rdf_check(e, f, rdf_reference(e, b, [d2] if reset else [d1, d2], 2, 2, bins, 0.0, r_max, mode))
    f.compute((box, e.array(a)), reset=False)
    rdf_check(e, f, rdf_reference(e, b, [d2, d1] if reset else [d1, d2, d1], 2, 2, bins, 0.0, r_max, mode), 'third frame: ')


@scen('D02', [2], [2, 3])
def rdf_list(e):
    """a custom list decides which pairs are counted; neighbour numbers per query point average out"""
    n = e.case
    b = e.choice('box', [ORTHO, RECT])
    x = [e.grid(f'x{k}', 0.25, 2, 0.25) for k in range(n)]
    qi = [0] + [e.conc(e.pickint('q1', [0, 1, 2]))] + [2] * (n - 2)
    nl = mknl(e, 3, 2, qi, [k % 2 for k in range(n)], [[a, 0, 0] for a in x], [2.0 + k for k in range(n)])
    f = e.freud.density.RDF(4, 1.6, 0.2)
    f.compute((mkbox(e, b), e.array(fixedpts(b, 2))), query_points=e.array(fixedpts(b, 3, 5)), neighbors=nl)
    rdf_check(e, f, rdf_reference(e, b, [[a * a for a in x]], 2, 3, 4, 0.2, 1.6, 'exact'))


# ------------------------------------------------------------------------------------------- D03
prop('D03', ['_density'], bounds='2 or 3 bonds with symbolic lengths and real or complex values on a grid; one or two frames; default queries with one symbolic point',
     assumptions=('no distance lies on a bin edge',))


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


@scen('D03', [2], [2, 3])
def cf_list(e):
    n = e.case
    b = (16, 16, 16, 0, 0, 0, False)
    x = [e.grid(f'x{k}', 0.25, 2, 0.25) for k in range(n)]
    cplx = e.choice('complex', ['no', 'values', 'query', 'both'])
    one_, two = e.grid('v', -1, 1, 0.5), 0.5
    vals = [(one_, 0.25 if cplx in ('values', 'both') else 0.0), (1.5, 0.0)]
    qv = [(2.0, 0.0), (-1.25, -0.75 if cplx in ('query', 'both') else 0.0), (0.5, 0.0)]

    def arr(v, c):
        return e.array([a + 1j * i for a, i in v], complex) if c else e.array([a for a, _ in v])
    qi, pi = [0, 1, 1, 2][:n], [0, 1, 0, 1][:n]
    nl = mknl(e, 3, 2, qi, pi, [[0, 0, a] for a in x])
    f = e.freud.density.CorrelationFunction(3, 1.9)
    f.compute((mkbox(e, b), e.array(fixedpts(CUBE, 2))), arr(vals, cplx in ('values', 'both')),
              query_points=e.array(fixedpts(CUBE, 3, 3)), query_values=arr(qv, cplx in ('query', 'both')), neighbors=nl)
    cf_check(e, f, [(x[k] * x[k], cmul((vals[pi[k]][0], -vals[pi[k]][1]), qv[qi[k]])) for k in range(n)], 3, 1.9, cplx != 'no')


def parts(z, cplx):
    if not cplx:
        return z, 0.0
    return z.real, z.imag


def cf_check(e, f, terms, bins, r_max, cplx, tag=''):
    """terms: (squared distance, (re, im))"""
    out, cnt = e.el(f.correlation), e.el(f.bin_counts)
    ed = edges_of(0.0, r_max, bins)
    for k in range(bins):
        inside = [e.conc(e.AND(s >= ed[k] * ed[k], s < ed[k + 1] * ed[k + 1])) for s, _ in terms]
        m = sum(inside)
        e.check(cnt[k] == m, tag + 'a bin counts the pairs at its distances')
        re, im = parts(out[k], cplx)
        wr = wi = 0.0
        for t, (s, v) in zip(inside, terms):
            if t:
                wr, wi = wr + v[0], wi + v[1]
        if m:
            wr, wi = wr * (1 / m), wi * (1 / m)
        e.check(e.AND(e.close(re, wr), e.close(im, wi)), tag + 'the correlation is the mean over pairs of conj(value of the point) * (value of the query point)')


@scen('D03', [(ORTHO2, 2), (TIL2B, 4)], [(b, 4) for b in (CUBE, TRIC, RECT, TIL2B, ORTHO2)])
def cf_system(e):
    """default query, values of the points used for query points, two frames"""
    b, div = e.case
    r_max = rmax(b)
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    v1, v2 = [0.5, 1.25, -2.0], [1.0, -0.75, 3.0]
    reset = e.choice('reset', [True, False])
    cplx = e.choice('complex', [False, True])
    z1 = [a + (0.5j if cplx else 0) for a in v1]
    f = e.freud.density.CorrelationFunction(2, r_max)
    ref = pairs_within(e, b, pts, pts, r_max, 0.0, True)
    f.compute((mkbox(e, b), e.array(pts)), np.array(z1))
    t1 = [(s, cmul((v1[j], -0.5 if cplx else 0.0), (v1[i], 0.5 if cplx else 0.0))) for (i, j), (_, s, _) in ref.items()]
    t2 = [(s, (v1[j] * v2[i], 0.0)) for (i, j), (_, s, _) in ref.items()]
    cf_check(e, f, t1, 2, r_max, cplx, 'first frame: ')
    f.compute((mkbox(e, b), e.array(pts)), np.array(v1), query_values=np.array(v2), reset=reset)
    cf_check(e, f, t2 if reset else t1 + t2, 2, r_max, cplx and not reset)


# ------------------------------------------------------------------------------------------- D04
prop('D04', ['_density'], bounds='one symbolic point (1/8 lattice) among two fixed ones and up to 3 bonds with symbolic lengths in a custom list, diameters 0 to 1, 2D and 3D boxes',
     assumptions=('no distance lies within rounding error of r_max +- diameter/2 in the default query',))


def weight_of(e, d, r, D):
    """1 inside, 0 outside, linear in between"""
    if D == 0:
        return e.ite(d < r, 1.0, 0.0)
    return e.ite(d < r - D / 2, 1.0, e.ite(d < r + D / 2, (r + D / 2 - d) * (1 / D), 0.0))


def dens(b, r):
    return 1 / (math.pi * r * r if b[6] else 4 / 3 * math.pi * r ** 3)


@scen('D04', [1, 2], [1, 2, 3])
def density_list(e):
    n = e.case
    b = e.choice('box', [(16, 16, 16, 0, 0, 0, False), (16, 16, 0, 0, 0, 0, True)])
    D = e.choice('diameter', [0.0, 0.5, 1.0])
    x = [e.grid(f'x{k}', 0, 3, 0.125) for k in range(n)]
    qi = sorted([0, 0, 2][:n])
    nl = mknl(e, 3, 2, qi, [k % 2 for k in range(n)], [[a, 0, 0] for a in x])
    f = e.freud.density.LocalDensity(1.5, D)
    f.compute((mkbox(e, b), e.array(fixedpts(b, 2))), query_points=e.array(fixedpts(b, 3, 3)), neighbors=nl)
    num, den = e.el(f.num_neighbors), e.el(f.density)
    e.check(len(num) == len(den) == 3, 'one value per query point')
    for i in range(3):
        w = 0.0
        for k in range(n):
            if qi[k] == i:
                w = w + weight_of(e, x[k], 1.5, D)
        e.check(e.close(num[i], w, 1e-5), 'a neighbour counts 1 when fully inside r_max, 0 when fully outside and linearly in between')
        e.check(e.close(den[i], num[i] * dens(b, 1.5), 1e-6), 'the density is the number of neighbours over the area or volume of the sphere')


@scen('D04', [(ORTHO2, 2), (TIL2B, 4), (RECT, 8)], [(b, 4) for b in DB])
def density_system(e):
    b, div = e.case
    R = rmax(b)
    D = e.choice('diameter', [0.25, 0.5])
    r = R - D / 2
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    other = e.choice('query', [False, True])
    qs = fixedpts(b, 1, 9) + [[0.0, 0.0, 0.0]] if other else pts
    f = e.freud.density.LocalDensity(r, D)
    f.compute((mkbox(e, b), e.array(pts)), query_points=e.array(qs) if other else None)
    ref = pairs_within(e, b, pts, qs, R, 0.0, not other)
    num, den = e.el(f.num_neighbors), e.el(f.density)
    e.check(len(num) == len(den) == len(qs), 'one value per query point')
    for i in range(len(qs)):
        w = 0.0
        for (a, j), (_, s, ins) in ref.items():
            if a == i and e.conc(ins):
                w = w + weight_of(e, e.f32(e.sqrt(s)), r, D)
        e.check(e.close(num[i], w, 1e-4), 'neighbours count up to r_max + diameter/2, partially from r_max - diameter/2')
        e.check(e.close(den[i], num[i] * dens(b, r), 1e-5), 'the density is the number of neighbours over the area or volume of the sphere')


# ------------------------------------------------------------------------------------------- D05, D06
prop('D05', ['_density'], bounds='one symbolic point on the 1/8 fractional lattice (3D 1/4) and one fixed point; grids of 1 to 5 bins per axis (different per axis); r_max from less than a grid spacing to more than the shorter sides of the box; orthorhombic boxes; with and without values; partly periodic boxes',
     assumptions=('orthorhombic boxes (the grid of skewed boxes is not defined by the documentation)', 'points lie in the box', 'no voxel centre lies at distance r_max'))
prop('D06', ['_density'], bounds='as D05, for the voxelisation', assumptions=('orthorhombic boxes', 'points lie in the box', 'no voxel centre lies at distance r_max'))
OR2 = (4, 8, 2, 0, 0, 0, False)
GRIDS = [(RECT, [4, 3], 8), (RECT, [3, 5], 8), (SQ, 4, 8), (OR2, [2, 4, 2], 4)]
# sides shorter than the range
FLAT2, FLAT3 = (3, 12, 0, 0, 0, 0, True), (12, 6, 3, 0, 0, 0, False)
GRIDS += [(CUBE, [3, 2, 1], 4), (FLAT2, [3, 6], 8, 'far'), (FLAT3, [3, 3, 3], (2, 2, 4), 'far')]
GRIDST = GRIDS + [((6, 3, 12, 0, 0, 0, False), [3, 3, 6], 4, 'far'), (RECT, [8, 5], 8, 'far'),
                  (OR2, [4, 3, 1], 4), (ORTHO, [3, 2, 5], 4), (CUBE, 3, 8), (SQ, [5, 1], 8), (SQ, 5, 16), (RECT, [8, 4], 8)]


def grid_setup(e):
    b, width, div, *far = e.case
    dim = 2 if b[6] else 3
    w = list(width) if isinstance(width, list) else [width] * dim
    half = min(b[:dim]) / 2
    g = [b[c] / w[c] for c in range(dim)]
    # below one spacing, between half and full spacings, up to half the box
    r = None if far else e.choice('r_max', sorted({min(half - 0.005, round(x * 128) / 128 + 0.0013) for x in (0.3 * g[0], 0.7 * g[1], 1.2 * g[0], 1.7 * min(g), half)}))
    if far:
        r = e.choice('r_max', [2.0013 * half, 2.7013 * half] + ([max(b[:2]) + 0.1013] if b[6] else []))
    pts = [cellpoint(e, 'p', b, div), fixedpts(b, 1, 3)[0]]
    return b, dim, w, g, r, pts


def voxels(e, b, dim, w, g, pts, per=PPP):
    """(index, [(squared distance of the closest image in the periodic directions) per point])"""
    import itertools
    for idx in itertools.product(*[range(k) for k in w]):
        c = [-b[k] / 2 + (idx[k] + 0.5) * g[k] for k in range(dim)]
        ds = []
        for p in pts:
            s = 0.0
            for k in range(dim):
                d = c[k] - p[k]
                if per[k]:
                    d = d - b[k] * e.floor(d / b[k] + 0.5)
                s = s + d * d
            ds.append(s)
        yield idx, ds


def at(a, idx, dim):
    for k in idx:
        a = a[k]
    return a


def shape(a):
    s = []
    while isinstance(a, (list, tuple)):
        s.append(len(a))
        a = a[0]
    return s


def squeeze(w, b):
    return [k for k in w if k != 1] if b[6] else w


def vox_check(e, per):
    b, dim, w, g, r, pts = grid_setup(e)
    width = e.case[1]
    f = e.freud.density.SphereVoxelization(width if not isinstance(width, list) else tuple(width), r)
    f.compute((mkbox(e, b, per), e.array(pts)))
    out = e.el(f.voxels)
    e.check(shape(out) == squeeze(w, b), 'the grid has the requested shape')
    for idx, ds in voxels(e, b, dim, w, g, pts, per):
        v = at(out, [i for i, k in zip(idx, w) if not (b[6] and k == 1)], dim)
        inside = e.OR(*[s < r * r for s in ds])
        e.check(v == e.ite(inside, 1, 0), 'a voxel is 1 exactly when its centre lies within r_max of a point')


@scen('D06', GRIDS, GRIDST)
def voxelization(e):
    vox_check(e, PPP)


@scen('D06', [(RECT, [4, 3], 8)], [(RECT, [4, 3], 8), (OR2, [2, 4, 2], 4)])
def voxelization_aperiodic(e):
    vox_check(e, e.choice('per', [(False, True, True), (True, False, True), (False, False, False), (True, True, False)]))


def gauss_check(e, per, vals=True):
    b, dim, w, g, r, pts = grid_setup(e)
    width = e.case[1]
    sig = e.choice('sigma', [0.5, 1.25])
    val = e.choice('values', [None, [2.0, -0.5]]) if vals else None
    f = e.freud.density.GaussianDensity(width if not isinstance(width, list) else tuple(width), r, sig)
    f.compute((mkbox(e, b, per), e.array(pts)), *([np.array(val)] if val else []))
    out = e.el(f.density)
    e.check(shape(out) == squeeze(w, b), 'the grid has the requested shape')
    norm = (2 * math.pi * sig * sig) ** (-dim / 2)
    for idx, ds in voxels(e, b, dim, w, g, pts, per):
        v = at(out, [i for i, k in zip(idx, w) if not (b[6] and k == 1)], dim)
        want = 0.0
        for k, s in enumerate(ds):
            if e.conc(s < r * r):
                want = want + e.fn('exp', -s / (2 * sig * sig)) * (norm * (val[k] if val else 1.0))
        e.check(e.close(v, want, 2e-5), 'a grid value is the sum of the Gaussians of the points within r_max')


@scen('D05', GRIDS, GRIDST)
def gaussian(e):
    gauss_check(e, PPP)


@scen('D05', [(RECT, [4, 3], 8)], [(RECT, [4, 3], 8), (OR2, [2, 4, 2], 4)])
def gaussian_aperiodic(e):
    gauss_check(e, e.choice('per', [(False, True, True), (True, False, True), (False, False, False), (True, True, False)]), False)


@scen('D05')
def gaussian_errors(e):
    """the dimension is fixed by the first use; ranges must be positive"""
    which = e.choice('which', ['GaussianDensity', 'SphereVoxelization'])
    rm = e.grid('r_max', -0.5, 0.5, 0.5)
    mk = getattr(e.freud.density, which)
    _, err = outcome(lambda: mk(3, rm, 1.0) if which == 'GaussianDensity' else mk(3, rm))
    e.check((err == 'ValueError') == e.conc(rm <= 0), 'a range that is not positive is refused')
    f = mk(3, 0.75, 1.0) if which == 'GaussianDensity' else mk(3, 0.75)
    seq = [e.choice(f's{k}', [SQ, RECT, CUBE]) for k in range(2)]
    _, e1 = outcome(lambda: f.compute((mkbox(e, seq[0]), e.array(fixedpts(seq[0], 1)))))
    _, e2 = outcome(lambda: f.compute((mkbox(e, seq[1]), e.array(fixedpts(seq[1], 1)))))
    e.check(e1 is None, 'the first use is accepted')
    e.check((e2 is None) == (seq[0][6] == seq[1][6]), 'a later use with another dimension, and only that, is refused')


@scen('D06')
def voxelization_errors(e):
    gaussian_errors(e)
