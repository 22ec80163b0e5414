import itertools
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax
from props.order import sum_

# ------------------------------------------------------------------------------------------- M01
prop('M01', [], bounds='1 to 4 frames of 1 to 2 particles: one (windows: thorough two) coordinates of every real number in [-8, 8]; 3 boxes with one position on a 1/4 lattice of the cell and images of one particle in -2..2; up to three calls with and without reset',
     assumptions=('tolerance 1e-4 relative to the squared size of the coordinates', 'the discrete Fourier transform is computed exactly: errors of the FFT libraries are not considered'))


def d2(a, b):
    w = sub(a, b)
    return dot(w, w)


def windows(tr):
    """tr[t][i]: unwrapped positions -> expected particle_msd[m][i]"""
    n = len(tr)
    return [[sum_(d2(tr[k + m][i], tr[k][i]) for k in range(n - m)) * (1 / (n - m)) for i in range(len(tr[0]))] for m in range(n)]


def direct(tr):
    return [[d2(tr[m][i], tr[0][i]) for i in range(len(tr[0]))] for m in range(len(tr))]


def right_msd(e, f, exp, tol, tag=''):
    """exp: list of expected [frame][particle] of each call since the reset"""
    a, m = e.el(f.particle_msd), e.el(f.msd)
    n = len(exp[0])
    np_ = sum(len(x[0]) for x in exp)
    e.check(len(a) == len(m) == n and all(len(r) == np_ for r in a), tag + 'one row per frame and one column per particle')
    for t in range(n):
        w = [v for x in exp for v in x[t]]
        for i in range(np_):
            e.check(e.close(a[t][i], w[i], tol), tag + 'the squared displacement of a particle is that of its unwrapped positions')
        e.check(e.close(m[t] * np_, sum_(w), tol * np_), tag + 'the mean is over all particles')


def path(n, np_, seed=3):
    s = seed
    out = []
    for t in range(n):
        row = []
        for i in range(np_):
            v = []
            for c in range(3):
                s = (s * 1103515245 + 12345) % 2147483648
                v.append(((s >> 8) % 17 - 8) / 4)
            row.append(v)
        out.append(row)
    return out


@scen('M01', [3], [1, 2, 3, 4], real=True)
def direct_any(e):
    n = e.case
    tr = path(n, 2)
    i, t, c = e.choice('which', [(0, 0, 0), (1, n - 1, 2)])
    tr[t][i][c] = e.real('x', -8, 8)
    tr[t][i][1] = e.real('y', -8, 8)
    f = e.freud.msd.MSD(mode='direct')
    f.compute(e.array(tr))
    right_msd(e, f, [direct(tr)], 1e-3)


@scen('M01', [1, 3, 4], [1, 2, 3, 4, 5], real=True)
def window_any(e):
    n = e.case
    tr = path(n, 2)
    i, t, c = e.choice('which', [(0, 0, 0), (1, n - 1, 2), (0, n // 2, 1)])
    tr[t][i][c] = e.real('x', -8, 8)
    f = e.freud.msd.MSD()
    f.compute(e.array(tr))
    right_msd(e, f, [windows(tr)], 1e-3)


def moved(b, p, im):
    vs = [lattice(b, [1.0 if k == c else 0.0 for k in range(3)]) for c in range(3)]
    return [p[c] + sum_(vs[k][c] * im[k] for k in range(3)) for c in range(3)]


@scen('M01', [ORTHO2, TRIC], [ORTHO2, TRIC, TRIC3, TIL2B])
def unwrapped(e):
    """images, with and without a box"""
    b = e.case
    mode = e.choice('mode', ['window', 'direct'])
    boxed, imaged = e.choice('given', [(True, True), (True, False), (False, False)])
    n, np_ = 3, 2
    pos = [oddpts(b, np_, 5 + t) for t in range(n)]
    t, i = e.choice('which', [(0, 1), (2, 0)])
    pos[t][i] = cellpoint(e, 'p', b, 4)
    im = [[[(t * 2 + i + c) % 3 - 1 if not (b[6] and c == 2) else 0 for c in range(3)] for i in range(np_)] for t in range(n)]
    if e.choice('excursion', [False, True]):
        im[2] = [list(x) for x in im[0]]
    im[1][1] = [e.pickint('ix', list(range(-2, 3))), -2, 0 if b[6] else 1]
    kw = dict(box=mkbox(e, b)) if boxed else {}
    f = e.freud.msd.MSD(mode=mode, **kw)
    arr, ima = e.array(pos), e.array(im, np.int32)
    f.compute(arr, **(dict(images=ima) if imaged else {}))
    tr = [[moved(b, pos[t][i], im[t][i]) if imaged else pos[t][i] for i in range(np_)] for t in range(n)]
    big = max(b[:3]) * 6
    right_msd(e, f, [(windows if mode == 'window' else direct)(tr)], 1e-5 * big * big)
    for x, y in zip((u for r in e.el(arr) for v in r for u in v), (u for r in pos for v in r for u in v)):
        e.check(x == y, 'the positions passed in are left as they are')


@scen('M01')
def accumulated(e):
    """calls without reset add particles"""
    mode = e.choice('mode', ['window', 'direct'])
    resets = e.choice('resets', [(False, False, False), (True, False, True), (False, True, False)])
    look = e.choice('look', [False, True])
    g = windows if mode == 'window' else direct
    f = e.freud.msd.MSD(None, mode)
    exp = []
    for k, r in enumerate(resets):
        tr = path(3, 1 + k % 2, 7 + k)
        tr[1][0][0] = e.grid(f'x{k}', -2.0, 2.0, 0.5)
        f.compute(e.array(tr), reset=r)
        exp = ([] if r else exp) + [g(tr)]
        if look:
            right_msd(e, f, exp, 1e-3, 'in between: ')
    right_msd(e, f, exp, 1e-3)


@scen('M01')
def refused_arrays(e):
    mode = e.choice('mode', ['window', 'direct', 'other', ''])
    f, err = outcome(lambda: e.freud.msd.MSD(mkbox(e, ORTHO2), mode))
    e.check((err == 'ValueError') == (mode not in ('window', 'direct')), 'unknown modes, and only these, are refused')
    if err:
        return
    e.check(f.mode == mode, 'the mode is kept')
    shape, ish = e.choice('shape', [(2, 2, 3), (2, 2, 2), (2, 3), (3, 1, 3)]), e.choice('images', [(2, 2, 3), (2, 1, 3), (3, 1, 3), (2, 3)])
    _, err = outcome(lambda: f.compute(np.zeros(shape, np.float32), np.zeros(ish, np.int32)))
    e.check((err is not None) == (len(shape) != 3 or shape[2] != 3 or ish != shape), 'positions and images of other shapes, and only these, are refused')


# ------------------------------------------------------------------------------------------- I01
prop('I01', [], bounds='3 points and 3 query points, one of them on every position of a 1/4 (2D 1/8, thorough 1/8 and 1/16) fractional lattice of 2 (thorough 4) boxes, ball and nearest queries; every list of up to 4 bonds (some of zero length, weights of any sign) between 3 points and 4 query points',
     assumptions=('no pair exactly at the cutoff',))


@scen('I01', [(ORTHO2, 4), (TIL2B, 8)], [(ORTHO2, 8), (TRIC3, 8), (RECT, 16), (TIL2B, 16)])
def interface_query(e):
    b, div = e.case
    R = rmax(b)
    pts, qs = oddpts(b, 3, 2), oddpts(b, 3, 3)
    who = e.choice('who', ['point', 'query point'])
    (pts if who == 'point' else qs)[1] = cellpoint(e, 'p', b, div)
    ref = pairs_within(e, b, pts, qs, R, 0.0, False)
    f = e.freud.interface.Interface()
    f.compute((mkbox(e, b), e.array(pts)), e.array(qs), neighbors=dict(mode='ball', r_max=R))
    hit = {k for k, (w, s, ins) in ref.items() if e.conc(ins)}
    right_interface(e, f, sorted({j for i, j in hit}), sorted({i for i, j in hit}))


def right_interface(e, f, ps, qs):
    e.check([int(x) for x in e.el(f.point_ids)] == ps and [int(x) for x in e.el(f.query_point_ids)] == qs, 'the ids are those of the points and query points with bonds, each once, in order')
    e.check(f.point_count == len(ps) and f.query_point_count == len(qs), 'the counts are the numbers of ids')


@scen('I01', [3], [3, 4])
def interface_list(e):
    n = e.choice('n', list(range(e.case + 1)))
    b = ORTHO2
    pairs = [(e.conc(e.pickint(f'i{k}', [0, 1, 2, 3])), e.conc(e.pickint(f'j{k}', [0, 1, 2]))) for k in range(n)]
    e.assume(all(pairs[k] <= pairs[k + 1] for k in range(n - 1)))
    f = e.freud.interface.Interface()
    if n:
        nl = mknl(e, 4, 3, [i for i, j in pairs], [j for i, j in pairs], [[0.5, 0.25, 0.125], [0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, -2.0]][:n], [1.0, 2.0, 0.0, -1.0][:n])      # points on top of each other and weights of any sign count as well
    else:
        nl = mknl(e, 4, 3, [0], [0], [[0.5, 0.25, 0.125]])
        nl.filter(np.array([False]))
    f.compute((mkbox(e, b), e.array(fixedpts(b, 3))), e.array(fixedpts(b, 4, 4)), neighbors=nl)
    right_interface(e, f, sorted({j for i, j in pairs}), sorted({i for i, j in pairs}))
    g = e.freud.interface.Interface()
    for name in ('point_ids', 'query_point_ids', 'point_count', 'query_point_count'):
        try:
            getattr(g, name)
            ok = False
        except AttributeError:
            ok = True
        e.check(ok, 'results are not available before compute')


# ------------------------------------------------------------------------------------------- U01
prop('U01', [], bounds='basis of 1 to 3 points, one on every position of a 1/4 fractional lattice from -1/2 to 5/4, in 2 (thorough 5) cells; eight (2D: five) numbers of replicas up to 3 per direction, three scales; noise of two sizes and seeds; the nine structures with three scales; invalid numbers of replicas',
     assumptions=('systems are compared up to a translation of all points', 'tolerance 1e-4', 'CIF files are not covered: parsing them is left to another package'))
UB = [ORTHO2, TRIC, TRIC3, RECT, TIL2B]
REP3 = [1, 2, 3, (1, 1, 2), (2, 1, 1), (1, 3, 2), (3, 2, 1), (2, 2, 3)]
REP2 = [1, 3, (1, 2, 1), (3, 1, 1), (2, 3, 1)]


def same_box(e, got, b, tol=1e-5):
    w = [got.Lx, got.Ly, got.Lz, got.xy, got.xz, got.yz]
    return e.AND(got.is2D == b[6], *[e.close(x, y, tol * max(1, abs(y) if isinstance(y, float) else 1)) for x, y in zip(w, b[:6])])


def structure(e, pos, b, n, scale, basis):
    """every basis point has exactly one translate in every cell, in the order of the basis; all inside the box"""
    N = n[0] * n[1] * n[2]
    e.check(len(pos) == N * len(basis), 'one point per basis point and cell')
    if len(pos) != N * len(basis):
        return
    dims = 2 if b[6] else 3
    un = [[x * (1 / scale) for x in p] for p in pos]
    for p in un:
        f = frac(b, p)
        e.check(e.AND(*[e.AND(f[c] >= -0.5 * n[c] - 1e-5, f[c] <= 0.5 * n[c] + 1e-5) for c in range(dims)], *([p[2] == 0] if b[6] else [])), 'the points lie in the box')
    for k, q in enumerate(basis):
        cells = []
        for i in range(N):
            f = frac(b, sub(un[k * N + i], un[0]))
            u = [f[c] - (q[c] - basis[0][c]) for c in range(dims)]
            r = [e.floor(x + 0.5) for x in u]
            e.check(e.AND(*[e.close(x, y, 1e-4) for x, y in zip(u, r)]), 'the points are translates of the basis points by lattice vectors, in the order of the basis')
            cells.append(tuple(int(e.conc(y)) % n[c] for c, y in enumerate(r)))
        e.check(len(set(cells)) == N, 'a basis point has one translate in every cell')


def reps(r, b):
    return r if isinstance(r, tuple) else (r, r, 1 if b[6] else r)


@scen('U01', [TRIC, TIL2B], UB)
def replicated(e):
    b = e.case
    r = e.choice('replicas', REP2 if b[6] else REP3)
    n = reps(r, b)
    scale = e.choice('scale', [1.0, 0.5, 3.0])
    basis = [[0.25, 0.5, 0.0 if b[6] else 0.75], [e.grid('x', -0.5, 1.25, 0.25), e.grid('y', 0.0, 0.75, 0.25), 0.0 if b[6] else 0.5], [0.375, 0.125, 0.0]][:e.choice('basis', [2, 3, 1])]
    uc = e.freud.data.UnitCell(mkbox(e, b), e.array(basis))
    for again in (False, True):
        box, pos = uc.generate_system(r, scale=scale)
        sb = (b[0] * n[0] * scale, b[1] * n[1] * scale, b[2] * n[2] * scale) + b[3:]
        e.check(same_box(e, box, sb), 'the box is the unit cell times the number of replicas and the scale')
        structure(e, e.el(pos), b, n, scale, basis)
        if len(basis) > 1:
            e.check(e.AND(*[x == y for p, q in zip(e.el(uc.basis_positions), basis) for x, y in zip(p, q)], same_box(e, uc.box, b)), 'the unit cell is left as it is')
    vs = [lattice(b, [1.0 if k == c else 0.0 for k in range(3)]) for c in range(3)]
    for c, a in enumerate((uc.a1, uc.a2, uc.a3)[:uc.dimensions]):
        e.check(e.AND(*[e.close(x, y, 1e-5) for x, y in zip(e.el(a), vs[c])]), 'the lattice vectors are those of the box')


@scen('U01')
def bad_replicas(e):
    b = e.choice('box', [ORTHO2, RECT])
    n = [e.choice(c, [1, 2, 0, -1, 1.5, 2.0]) for c in ('nx', 'ny', 'nz')]
    if e.choice('single', [False, True]):
        e.assume(n[0] == n[1] == n[2])
        r = n[0]
        bad = r not in (1, 2)
    else:
        r = tuple(n)
        bad = any(x not in (1, 2) for x in n) or (b[6] and n[2] != 1)
    _, err = outcome(lambda: e.freud.data.UnitCell(mkbox(e, b)).generate_system(r if not isinstance(r, float) or r != 2.0 else 2))
    e.check((err is not None) == bad or 2.0 in n, 'numbers of replicas that are not positive integers, and more than one in z in 2D, and only these, are refused')
    e.check(err in (None, 'ValueError') or 2.0 in n, 'the error is a ValueError')


@scen('U01', [ORTHO2, TIL2B], UB)
def noise(e):
    b = e.case
    r = e.choice('replicas', [2, 1])
    n = reps(r, b)
    sigma, seed, scale = e.choice('sigma', [0.0625, 0.5]), e.choice('seed', [1, 7]), e.choice('scale', [1.0, 2.0])
    basis = [[e.grid('x', 0.0, 0.75, 0.25), 0.5, 0.0]]
    uc = e.freud.data.UnitCell(mkbox(e, b), e.array(basis))
    box, p0 = uc.generate_system(r, scale=scale)
    _, p1 = uc.generate_system(r, scale=scale, sigma_noise=sigma, seed=seed)
    _, p2 = uc.generate_system(r, scale=scale, sigma_noise=sigma, seed=seed)
    _, p3 = uc.generate_system(r, scale=scale, sigma_noise=sigma, seed=seed + 1)
    a0, a1, a2, a3 = e.el(p0), e.el(p1), e.el(p2), e.el(p3)
    big = (b[0] * n[0] * scale, b[1] * n[1] * scale, b[2] * n[2] * scale) + b[3:]
    s1 = 0.0
    for x, y, z, w in zip(a0, a1, a2, a3):
        e.check(e.AND(*[y[c] == z[c] for c in range(3)]), 'the same seed gives the same system')
        e.check(e.OR(*[y[c] != w[c] for c in range(3)]), 'another seed gives another system')
        d = wrapv(e, big, sub(y, x))
        e.check(e.AND(*[abs(d[c]) <= 5 * sigma for c in range(3)]), 'points move by the size of the noise')
        e.check(e.AND(*[e.OR(b[6] and c == 2, abs(d[c]) > 0) for c in range(3)]), 'points move in all directions')
        f = frac(big, y)
        e.check(e.AND(*[e.AND(f[c] >= -0.50001, f[c] <= 0.50001) for c in range(3)]), 'the points lie in the box')
        e.check(not b[6] or y[2] == 0, 'points stay in the plane')
        s1 = s1 + dot(d, d)
    k = len(a0) * (2 if b[6] else 3)
    e.check(e.AND(s1 >= 0.02 * k * sigma * sigma, s1 <= 6 * k * sigma * sigma), 'the noise has the size asked for')


S3 = math.sqrt(3)
LAT = {'sc': ((1, 1, 1), 1, 6, 1.0), 'bcc': ((1, 1, 1), 2, 8, S3 / 2), 'fcc': ((1, 1, 1), 4, 12, math.sqrt(0.5)), 'square': ((1, 1, 0), 1, 4, 1.0), 'hex': ((1, S3, 0), 2, 6, 1.0),
       'graphene': ((1, S3, 0), 4, 3, 1 / S3), 'hcp': ((1, S3 / 2, math.sqrt(8 / 3)), 2, 12, 1.0)}


@scen('U01')
def structures(e):
    """number and distance of nearest neighbours of every point"""
    name = e.choice('name', list(LAT))
    L, nb, z, d = LAT[name]
    s = e.choice('scale', [1.0, 0.5, 4.0])
    uc = getattr(e.freud.data.UnitCell, name)()
    e.check(e.AND(*[e.close(x, y, 1e-5) for x, y in zip(e.el(uc.box.L), L)]), 'the cell has the documented size')
    e.check(uc.dimensions == (2 if L[2] == 0 else 3) and len(uc.basis_positions) == nb, 'the cell has the documented points')
    box, pos = uc.generate_system(3 if L[2] == 0 else 2 if name != 'sc' else 3, scale=s)
    b = tuple(e.conc(x) for x in (box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz)) + (box.is2D,)
    p = [[e.conc(x) for x in r] for r in e.el(pos)]
    for i in range(len(p)):
        near = 0
        for j in range(len(p)):
            for im in itertools.product((-1, 0, 1), repeat=3) if b[6] is False else [(x, y, 0) for x in (-1, 0, 1) for y in (-1, 0, 1)]:
                if i == j and im == (0, 0, 0):
                    continue
                v = add(sub(p[j], p[i]), lattice(b, im))
                r = math.sqrt(dot(v, v)) / s
                e.check(r > d - 1e-3, 'no points are closer than the nearest neighbours')
                near += r < d + 1e-3
        e.check(near == z, 'every point has the documented number of nearest neighbours')


@scen('U01')
def two_parameters(e):
    asp = e.choice('aspect', [2.0, 0.5, 1.0, 3])
    for cen in (False, True):
        uc = e.freud.data.UnitCell.rectangular(asp, cen)
        e.check(same_box(e, uc.box, (1.0, float(asp), 0.0, 0.0, 0.0, 0.0, True)), 'the rectangular cell has sides 1 and aspect')
        want = [[0, 0, 0], [0.5, 0.5, 0]][:1 + cen]
        got = [[float(x) for x in p] for p in uc.basis_positions]
        e.check(got == want, 'the rectangular cell has a point at its corner and, if centered, in its middle')
    th = e.choice('theta', [45.0, 60.0, 90.0, 120.0, 30])
    uc = e.freud.data.UnitCell.oblique(asp, th)
    a, b = e.el(uc.a1), e.el(uc.a2)
    la, lb = e.sqrt(dot(a, a)), e.sqrt(dot(b, b))
    e.check(e.AND(uc.box.is2D, e.close(la, 1.0, 1e-5), e.close(lb, float(asp), 1e-5), e.close(dot(a, b), float(asp) * math.cos(math.radians(th)), 1e-5)), 'the oblique cell has sides 1 and aspect at the angle theta')


@scen('U01')
def random_systems(e):
    n, L, flat, seed = e.choice('n', [0, 1, 5]), e.choice('L', [1.0, 10.0]), e.choice('is2D', [False, True]), e.choice('seed', [0, 1, 12])
    state = np.random.get_state()[1].tolist()
    box, p = e.freud.data.make_random_system(L, n, flat, seed)
    _, q = e.freud.data.make_random_system(L, n, flat, seed)
    _, r = e.freud.data.make_random_system(L, n, flat, seed + 100)
    e.check(same_box(e, box, (L, L, 0.0 if flat else L, 0.0, 0.0, 0.0, flat)), 'the box is a cube or square of the given size')
    a, b, c = e.el(p), e.el(q), e.el(r)
    e.check(len(a) == n and (n == 0 or a == b) and (n == 0 or a != c), 'a seed always gives the same points, of the number asked for, and another seed others')
    e.check(all(abs(x) <= L / 2 for u in a for x in u) and (not flat or all(u[2] == 0 for u in a)), 'the points lie in the box')
    e.check(np.random.get_state()[1].tolist() == state, 'the random state of the user is left as it is')
