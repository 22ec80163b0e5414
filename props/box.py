import math
import numpy as np
from sym.registry import prop, scen
from props.common import *

BOXES = [CUBE, TRIC, TRIC2, SQ, TIL2, TIL2B]
PERS = [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]

# ---------------------------------------------------------------------------------------- B01
prop('B01', bounds='boxes: cube, two triclinic, square, two tilted 2D (dyadic lengths and tilts), all 8 periodicity settings; coordinates on a lattice of spacing 1/8..1/4 reaching three box lengths in every direction; three further boxes with non-dyadic lengths and exact float32 rounding (one coordinate varied at a time)')


def chk_wrap(e, b, per, v, w, tag=''):
    d = sub(v, w)
    f = frac(b, d)
    fw = frac(b, w)
    if not any(per):
        for c in range(3):
            e.check(w[c] == v[c], f'{tag}aperiodic box leaves the vector alone')
        return
    for c in range(3):
        if b[6] and c == 2:
            e.check(w[2] == 0, f'{tag}2D: z stays 0')
            continue
        e.check(e.floor(f[c]) == f[c], f'{tag}displacement is a whole number of box vectors ({c})')
        if per[c]:
            e.check(e.AND(fw[c] >= -0.5, fw[c] < 0.5), f'{tag}result inside the cell ({c})')
        else:
            e.check(f[c] == 0, f'{tag}no shift along a non-periodic direction ({c})')


@scen('B01', [(b, p) for b in (CUBE, TRIC, TRIC2) for p in PERS] + [(b, p) for b in (SQ, TIL2, TIL2B) for p in PERS if p[2]])
def wrap_into_cell(e):
    b, per = e.case
    box = mkbox(e, b, per)
    v = [e.grid('x', -12, 12, 0.125), e.grid('y', -12, 12, 0.125), 0.0 if b[6] else e.grid('z', -12, 12, 0.125)]
    w = e.el(box.wrap(e.array([v])))[0]
    chk_wrap(e, b, per, v, w)
    e.reach('checked')


@scen('B01', [(b, PPP) for b in (CUBE, TRIC, TRIC2, SQ, TIL2B)] + [(TRIC, (True, False, True))])
def wrap_idempotent_and_translation_invariant(e):
    b, per = e.case
    box = mkbox(e, b, per)
    v = [e.grid('x', -6, 6, 0.25), e.grid('y', -6, 6, 0.25), 0.0 if b[6] else e.grid('z', -6, 6, 0.25)]
    n = [e.pickint('n%d' % i, [-3, -2, -1, 0, 1, 2, 3]) if per[i] and not (b[6] and i == 2) else 0 for i in range(3)]
    w = e.el(box.wrap(e.array([v])))[0]
    w2 = e.el(box.wrap(e.array([w])))[0]
    w3 = e.el(box.wrap(e.array([add(v, lattice(b, n))])))[0]
    for c in range(3):
        e.check(w2[c] == w[c], 'wrapping twice changes nothing')
        e.check(w3[c] == w[c], 'a lattice translation does not change the result')


@scen('B01', [CUBE, TRIC, TIL2])
def wrap_rows_and_out(e):
    b = e.case
    box = mkbox(e, b)
    vs = [[e.grid(f'{c}{i}', -8, 8, 1 if i else 0.25) if not (b[6] and c == 'z') else 0.0 for c in 'xyz'] for i in range(3)]
    arr = e.array(vs)
    w = e.el(box.wrap(arr))
    for i in range(3):
        chk_wrap(e, b, PPP, vs[i], w[i], f'row {i}: ')
    one = box.wrap(e.array(vs[1]))
    e.check(one.shape == (3,), 'one vector in, one vector out')
    one = e.el(one)
    out = e.array([[7.0, 7.0, 7.0]] * 3, 'f4')
    r = box.wrap(arr, out=out)
    e.check(r is out, 'the given output array is returned')
    out = e.el(out)
    a2 = e.el(arr)
    for c in range(3):
        e.check(one[c] == w[1][c], 'a single vector wraps like the same row')
        for i in range(3):
            e.check(out[i][c] == w[i][c], 'out receives the result')
            e.check(a2[i][c] == vs[i][c], 'the input is not modified')


@scen('B01', [((L, L, L, 0, 0, 0, False), c) for L in (3, 10, 0.7) for c in range(3)] + [((3, 5, 0, 0, 0, 0, True), c) for c in range(2)])
def wrap_rounding(e):
    """float32 rounding in full: one coordinate at a time over fine values, including ones next to the faces"""
    b, c = e.case
    box = mkbox(e, b)
    L = b[c]
    h = L / 2
    vals = []
    for k in range(-3, 4):
        for base in (k * h,):
            for dlt in (0, 1e-6, -1e-6, 1e-4, -1e-4, 3e-7, -3e-7, 0.01, -0.01, L / 7, -L / 11):
                vals.append(base + dlt)
    vals += [100.3 * L, -100.3 * L, 1e-30, -1e-30, -1e-9, 1e-9]
    x = e.pick('x', sorted(set(vals)))
    v = [0.0, 0.0, 0.0]
    v[c] = x
    w = e.el(box.wrap(e.array([v])))[0]
    e.check(e.AND(w[c] >= -h * (1 + 1e-6), w[c] <= h * (1 + 1e-6)), 'result inside the cell up to rounding')
    k = (x - w[c]) / L
    e.check(abs(k - e.floor(k + 0.5)) <= 1e-4, 'displacement is a whole number of box lengths up to rounding')
    for o in range(3):
        if o != c:
            e.check(abs(w[o]) <= 1e-6 * b[0], 'other coordinates stay')


# ---------------------------------------------------------------------------------------- B02
prop('B02', bounds='boxes as in B01 (dyadic); coordinates on a lattice of spacing 1/8 within three box lengths; images -3..3, also up to 35000 cells away')


@scen('B02', BOXES)
def fractional_and_back(e):
    b = e.case
    box = mkbox(e, b)
    v = [e.grid('x', -8, 8, 0.25), e.grid('y', -8, 8, 0.25), 0.0 if b[6] else e.grid('z', -8, 8, 0.25)]
    f = e.el(box.make_fractional(e.array([v, v])))
    ref = frac(b, v)
    for c in range(3):
        if b[6] and c == 2:
            e.check(f[0][c] == 0, '2D: third fractional coordinate is 0')
            continue
        e.check(f[0][c] == ref[c] + 0.5, 'fractional coordinate: box-vector coefficient measured from the lower corner')
        e.check(f[1][c] == f[0][c], 'every row is converted alike')
    a = e.el(box.make_absolute(e.array(f)))
    for c in range(3):
        e.check(a[0][c] == v[c], 'make_absolute inverts make_fractional')
        e.check(a[1][c] == v[c], 'make_absolute inverts make_fractional (row 1)')
    out = e.array([[9.0] * 3] * 2, 'f4')
    r = box.make_fractional(e.array([v, v]), out=out)
    e.check(r is out, 'out is returned')
    for c in range(3):
        e.check(e.el(out)[1][c] == f[1][c], 'out is filled')
    s = box.make_fractional(e.array(v))
    e.check(s.shape == (3,), 'vector in, vector out')


@scen('B02', BOXES)
def absolute_formula(e):
    b = e.case
    box = mkbox(e, b)
    f = [e.grid('fx', -2, 2, 0.125), e.grid('fy', -2, 2, 0.125), 0.0 if b[6] else e.grid('fz', -2, 2, 0.125)]
    a = e.el(box.make_absolute(e.array([[0.5, 0.5, 0.5], f])))
    ref = lattice(b, [x - 0.5 for x in f])
    for c in range(3):
        e.check(a[1][c] == ref[c], 'absolute = lower corner + sum f_i v_i')
        e.check(a[0][c] == 0, 'the middle of the box is the origin')
    back = e.el(box.make_fractional(e.array([a[1]])))[0]
    for c in range(2 if b[6] else 3):
        e.check(back[c] == f[c], 'make_fractional inverts make_absolute')


@scen('B02', BOXES)
def images_and_unwrap(e):
    b = e.case
    box = mkbox(e, b)
    u = [e.grid('x', -8, 8, 0.25), e.grid('y', -8, 8, 0.25), 0.0 if b[6] else e.grid('z', -8, 8, 0.25)]
    im = e.el(box.get_images(e.array([[0.0, 0.0, 0.0], u])))
    for c in range(3):
        e.check(im[0][c] == 0, 'the origin is in image 0')
    im = im[1]
    rest = frac(b, sub(u, lattice(b, im)))
    f = frac(b, u)
    for c in range(2 if b[6] else 3):
        e.check(e.AND(rest[c] >= -0.5, rest[c] <= 0.5), 'removing the image brings the vector into the cell')
    if b[6]:
        e.check(im[2] == 0, '2D: no image along z')
    w = e.el(box.wrap(e.array([u])))[0]
    back = e.el(box.unwrap(e.array([w]), e.array([im], 'i4')))[0]
    fw = frac(b, w)
    inner = e.AND(*[fw[c] != -0.5 for c in range(2 if b[6] else 3)])
    for c in range(3):
        e.check(e.OR(e.NOT(inner), back[c] == u[c]), 'unwrap(wrap(u), get_images(u)) == u away from the faces')


@scen('B02', BOXES)
def unwrap_formula(e):
    b = e.case
    box = mkbox(e, b, e.choice('per', [PPP, (True, True, False), (False, True, True)]))
    u = [e.grid('x', -2, 2, 0.25), e.grid('y', -2, 2, 0.25), 0.0 if b[6] else e.grid('z', -2, 2, 0.25)]
    u2 = [1.0, -1.0, 0.0]
    far = e.choice('far', [0, 1, -1])                  # images of particles that have diffused through many cells
    n = [e.pickint(f'n{i}', range(-3, 4)) + far * k for i, k in enumerate((33000, 256, -35000))]
    m = [2 + 256 * far, -1 + 34000 * far, 1 - 512 * far]
    r = e.el(box.unwrap(e.array([u, u2]), e.array([n, m], 'i4')))
    ex = [add(u, lattice(b, n)), add(u2, lattice(b, m))]
    r1 = e.el(box.unwrap(e.array(u), e.array(n, 'i4')))
    rb = e.el(box.unwrap(e.array([u, u2]), e.array([n], 'i4')))
    rc = e.el(box.unwrap(e.array([u]), e.array([n, m], 'i4')))
    out = e.array([[5.0] * 3] * 2, 'f4')
    e.check(box.unwrap(e.array([u, u2]), e.array([n, m], 'i4'), out=out) is out, 'out is returned')
    out = e.el(out)
    exb = add(u2, lattice(b, n))
    exc = add(u, lattice(b, m))
    for c in range(3):
        e.check(r[0][c] == ex[0][c], 'unwrap adds the image times the box vectors')
        e.check(r[1][c] == ex[1][c], 'unwrap adds the image times the box vectors (second row)')
        e.check(r1[c] == ex[0][c], 'single vector')
        e.check(rb[0][c] == ex[0][c], 'one image for all vectors')
        e.check(rb[1][c] == exb[c], 'one image for all vectors (second row)')
        e.check(rc[1][c] == exc[c], 'one vector for all images')
        e.check(out[1][c] == ex[1][c], 'out is filled')


# ---------------------------------------------------------------------------------------- B03
prop('B03', bounds='displacements along x at several heights in skewed boxes; boxes as in B01; two points on lattices of spacing 1/4..1/2 over the whole box and its neighbours; 2x3 matrices')


@scen('B03', [(b, PPP) for b in BOXES] + [(CUBE, (True, False, True)), (TRIC, (False, True, True)), (CUBE, (False, False, False)), (TIL2, (False, True, True))])
def distance_is_wrapped_displacement(e):
    b, per = e.case
    box = mkbox(e, b, per)
    d = [e.grid('x', -6, 6, 0.25), e.grid('y', -6, 6, 0.25), 0.0 if b[6] else e.grid('z', -6, 6, 0.25)]
    o = [0.5, -1.0, 0.0 if b[6] else 1.5]
    p = add(o, d)
    r = e.el(box.compute_distances(e.array([o, p]), e.array([p, o])))
    ww = e.el(box.wrap(e.array([d, [-x for x in d]])))
    for k, sg in ((0, 1), (1, -1)):
        w = wrapv(e, b, [sg * x for x in d], per)
        for c in range(3):
            e.check(ww[k][c] == w[c], 'the displacement is wrapped by whole box vectors along periodic directions')
        e.check(samelen(e, r[k], e.f32(e.sqrt(dot(ww[k], ww[k])))), 'distance = length of the wrapped displacement')
    e.reach('d')


@scen('B03', [TRIC, TIL2], [TRIC, TRIC2, TRIC3, TIL2, TIL2B])
def distance_in_a_row(e):
    """skewed boxes: every displacement along x at several heights (fewer unknowns for the solver)"""
    b = e.case
    box = mkbox(e, b)
    y, z = e.choice('y', [-0.4375, 0.375, 0.8125]), 0.0 if b[6] else e.choice('z', [0.4375, -0.3125, 1.25])
    d = [e.grid('x', -6, 6, 0.25), y * b[1], z * b[2]]
    o = [0.5, -1.0, 0.0 if b[6] else 1.5]
    r = e.el(box.compute_distances(e.array([o]), e.array([add(o, d)])))[0]
    m = e.el(box.compute_all_distances(e.array([add(o, d)]), e.array([o])).reshape(-1))[0]
    w, v = wrapv(e, b, d), wrapv(e, b, [-x for x in d])
    e.check(samelen(e, r, e.f32(e.sqrt(dot(w, w)))), 'distance = length of the wrapped displacement')
    e.check(samelen(e, m, e.f32(e.sqrt(dot(v, v)))), 'all-pairs distance = length of the wrapped displacement')


@scen('B03', [CUBE, ORTHO, SQ, RECT])
def minimum_image(e):
    """in an orthorhombic box the distance is the least over all periodic images, and symmetric"""
    b = e.case
    box = mkbox(e, b)
    d = [e.grid('x', -6, 6, 0.25), e.grid('y', -6, 6, 0.25), 0.0 if b[6] else e.grid('z', -6, 6, 0.25)]
    o = [0.5, -1.0, 0.0]
    p = add(o, d)
    r = e.el(box.compute_distances(e.array([o]), e.array([p])))[0]
    rr = e.el(box.compute_distances(e.array([p]), e.array([o])))[0]
    e.check(r == rr, 'distance is symmetric')
    w = wrapv(e, b, d)
    sq = dot(w, w)
    for n in [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in ((0,) if b[6] else (-1, 0, 1))]:
        v = add(w, lattice(b, n))
        e.check(sq <= dot(v, v), 'reference displacement is a nearest image')


@scen('B03', [CUBE, TRIC, TIL2])
def all_distances(e):
    b = e.case
    box = mkbox(e, b)
    qs = [[e.grid('qx', -2, 2, 0.5), 0.5, 0.0], [-1.0, e.grid('qy', -1, 1, 0.25), 0.0]]
    ps = [[0.5, 0.5, 0.0], [e.grid('px', -2, 2, 0.5), -0.5, 0.0], [1.5, 0.25, 0.0]]
    m = e.el(box.compute_all_distances(e.array(qs), e.array(ps)))
    e.check(len(m) == 2 and len(m[0]) == 3, 'shape (n_query_points, n_points)')
    for i in range(2):
        for j in range(3):
            d = sub(ps[j], qs[i])
            w = e.el(box.wrap(e.array(d)))
            wr = wrapv(e, b, d)
            for c in range(3):
                e.check(w[c] == wr[c], 'wrapped displacement')
            e.check(samelen(e, m[i][j], e.f32(e.sqrt(dot(w, w)))), f'entry ({i},{j}) is the distance of query point {i} and point {j}')
    ok = False
    try:
        box.compute_distances(e.array(qs), e.array(ps))
    except ValueError:
        ok = True
    e.check(ok, 'row-wise distances need equally many points')


# ---------------------------------------------------------------------------------------- B04
prop('B04', bounds='boxes as in B01; three points on lattices of spacing 1/8 within three box lengths; points exactly on a face excluded')


@scen('B04', BOXES + [ORTHO, RECT])
def contains_mask(e):
    b = e.case
    box = mkbox(e, b)
    v = [e.grid('x', -8, 8, 0.125), e.grid('y', -8, 8, 0.125), 0.0 if b[6] else e.grid('z', -8, 8, 0.125)]
    c = [[0.0, 0.0, 0.0], v, [50.0, 0.0, 0.0]]
    m = e.el(box.contains(e.array(c)))
    f = frac(b, v)
    k = range(2 if b[6] else 3)
    inside = e.AND(*[e.AND(f[i] > -0.5, f[i] < 0.5) for i in k])
    outside = e.OR(*[e.OR(f[i] < -0.5, f[i] > 0.5) for i in k])
    e.check(m[0] == True, 'origin is inside')
    e.check(m[2] == False, 'far point is outside')
    e.check(e.OR(e.NOT(inside), m[1] == True), 'a point strictly inside is contained')
    e.check(e.OR(e.NOT(outside), m[1] == False), 'a point strictly outside is not contained')
    per = e.choice('per', [PPP, (False, True, False)])
    box.periodic = list(per)
    m2 = e.el(box.contains(e.array([v])))
    e.check(m2[0] == m[1], 'periodicity does not matter')


# ---------------------------------------------------------------------------------------- B05
prop('B05', bounds='cube, two triclinic, square and tilted 2D boxes; 1-3 particles, coordinates on 8-16 values per axis with all cross combinations on one axis; masses among 1..3 and 0; particle clouds whose mean resultant length is at least 0.1; tolerance 1e-4 box lengths')


def circ(e, fs, ms):
    """mass-weighted circular mean of fractional coordinates: (resultant^2 of the normalised weights, mean)"""
    c = s = tot = 0.0
    for f, m in zip(fs, ms):
        c = c + m * e.fn('cos', 2 * math.pi * f)
        s = s + m * e.fn('sin', 2 * math.pi * f)
        tot = tot + m
    return c, s, tot


def samefrac(e, f, c, s, tot):
    """f is the angle of (c, s): compare by cross and dot product"""
    cf, sf = e.fn('cos', 2 * math.pi * f), e.fn('sin', 2 * math.pi * f)
    cross = cf * s - sf * c
    dt = cf * c + sf * s
    return e.AND(abs(cross) <= 3e-4 * tot, dt > 0)


@scen('B05', [(b, a, k) for b in (CUBE, TRIC, SQ, TIL2) for a in (0, 1, 2) for k in (0, 1) if not (b[6] and a == 2)])
def centre_of_mass_is_circular_mean(e):
    b, a, k = e.case
    box = mkbox(e, b)
    n = 8
    fs = [[0.5] * 3, [0.5] * 3]
    fi = [e.pick('f0', [i / 16 for i in range(16)]), e.pick('f1', [i / n for i in range(n)])]
    ms = [e.pick('m0', [1, 2, 3]), 1.0] if k else [1.0, 1.0]
    for i in range(2):
        fs[i][a] = fi[i]
    if b[6]:
        fs[0][2] = fs[1][2] = 0.5
    vs = [lattice(b, [x - 0.5 for x in f]) for f in fs]
    c, s, tot = circ(e, fi, ms)
    e.assume(c * c + s * s >= 0.01 * tot * tot)
    r = box.center_of_mass(e.array(vs), e.array(ms) if k else None)
    com = e.el(r)
    g = frac(b, com)
    for ax in range(2 if b[6] else 3):
        if ax == a:
            e.check(samefrac(e, g[ax] + 0.5, c, s, tot), 'centre of mass = mass-weighted circular mean along the axis')
        else:
            e.check(abs(g[ax]) <= 1e-5, 'other axes: common coordinate')
    if b[6]:
        e.check(com[2] == 0, '2D: z is 0')
    e.reach('com')


@scen('B05', [CUBE, TRIC, SQ, TIL2])
def single_particle(e):
    b = e.case
    box = mkbox(e, b)
    v = [e.grid('x', -4, 4, 0.5), e.choice('y', [-0.75, 0.25, 2.0]), 0.0 if b[6] else e.choice('z', [-3.0, 0.5])]
    w = wrapv(e, b, v)
    m = e.choice('mass', [None, 1.0, 2.5])
    com = e.el(box.center_of_mass(e.array([v]), None if m is None else e.array([m])))
    d = wrapv(e, b, [com[i] - w[i] + 1e-3 for i in range(3)]) if not e.case[6] else wrapv(e, b, [com[0] - w[0] + 1e-3, com[1] - w[1] + 1e-3, 0.0])
    for c in range(3):
        e.check(abs(d[c] - (1e-3 if not (b[6] and c == 2) else 0)) <= 2e-4, 'the centre of mass of one particle is the particle (modulo box vectors)')
    g = frac(b, com)
    for c in range(2 if b[6] else 3):
        e.check(e.AND(g[c] >= -0.5001, g[c] <= 0.5001), 'the centre of mass lies in the box')


@scen('B05', [CUBE, TRIC, SQ])
def mass_weighting_and_centering(e):
    b = e.case
    box = mkbox(e, b)
    x = [e.pick(f'x{i}', [-1.5, -1.0, -0.5, 0.0, 0.5, 1.0]) for i in range(2)]
    vs = [[x[0], 0.25, 0.0], [x[1], 0.25, 0.0], [0.5, 0.25, 0.0]]
    heavy = e.choice('only', [0, 1, 2])
    ms = [1.0 if i == heavy else 0.0 for i in range(3)]
    com = e.el(box.center_of_mass(e.array(vs), e.array(ms)))
    for c in range(3):
        e.check(abs(com[c] - vs[heavy][c]) <= 1e-4, 'massless particles do not count')
    arr = e.array(vs)
    cen = e.el(box.center(arr, e.array(ms)))
    un = e.el(arr)
    for i in range(3):
        d = sub(vs[i], vs[heavy])
        g = frac(b, sub(cen[i], d))
        for c in range(2 if b[6] else 3):
            e.check(abs(g[c] - e.floor(g[c] + 0.5)) <= 1e-4, 'centering subtracts the centre of mass and wraps')
            e.check(un[i][c] == vs[i][c], 'the input array is not modified')
        gc = frac(b, cen[i])
        for c in range(2 if b[6] else 3):
            e.check(e.AND(gc[c] >= -0.5001, gc[c] <= 0.5001), 'centered vectors are wrapped')


# ---------------------------------------------------------------------------------------- B06
prop('B06', bounds='lengths among 5-6 values, tilts among 4-5 values per factor (all combinations), 2D and 3D, all input forms; every sequence of two (thorough three) setters or copies, with one coordinate of the vectors used on it on a lattice')

LS = [0.5, 1, 2, 3, 8]
TS = [-1.5, -0.25, 0, 0.5, 1]


def same(e, a, b, tol=0.0):
    c = True
    for n in ('Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz'):
        x, y = getattr(a, n), getattr(b, n)
        c = e.AND(c, abs(x - y) <= tol)
    return e.AND(c, a.is2D == b.is2D)


@scen('B06', [2, 3])
def forms_agree(e):
    """every box-like form describes the same box"""
    dim = e.case
    B = e.freud.box.Box
    Lx, Ly = e.pick('Lx', LS), e.pick('Ly', LS)
    Lz = e.pick('Lz', LS) if dim == 3 else 0.0
    xy = e.pick('xy', TS)
    xz = e.pick('xz', TS) if dim == 3 else 0.0
    yz = e.pick('yz', TS) if dim == 3 else 0.0
    box = B(Lx, Ly, Lz, xy, xz, yz)
    e.check(box.dimensions == dim, 'dimension inferred from Lz')
    for n, v in (('Lx', Lx), ('Ly', Ly), ('Lz', Lz), ('xy', xy), ('xz', xz), ('yz', yz)):
        e.check(getattr(box, n) == v, f'{n} is kept')
    L = e.el(box.L)
    e.check(e.AND(L[0] == Lx, L[1] == Ly, L[2] == Lz), 'L')
    e.check(box.volume == (Lx * Ly if dim == 2 else Lx * Ly * Lz), 'volume')
    per = tuple(e.choice(n, [True, False]) for n in ('px', 'py')) + (True,)
    box.periodic = per
    c = B.from_box(box)
    e.check(e.AND(same(e, c, box), [bool(x) for x in c.periodic] == list(per), c == box), 'from_box(box) is an equal box')
    box.periodic = True
    d = box.to_dict()
    e.check(d['dimensions'] == dim, 'to_dict dimensions')
    e.check(same(e, B.from_box(d), box), 'dictionary form')
    e.check(same(e, B.from_box(box.to_box_params()), box), 'list form of length 6')
    m = e.el(box.to_matrix())
    ref = [[Lx, xy * Ly, xz * Lz], [0, Ly, yz * Lz], [0, 0, Lz]]
    for i in range(3):
        for j in range(3):
            e.check(m[i][j] == ref[i][j], 'matrix columns are the box vectors')
    if xy == 0 and xz == 0 and yz == 0:
        e.check(same(e, B.from_box([Lx, Ly, Lz] if dim == 3 else [Lx, Ly]), box), 'short list form')
    class Obj:
        pass
    o = Obj()
    for n in ('Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz'):
        setattr(o, n, getattr(box, n))
    e.check(same(e, B.from_box(o), box), 'object form')
    e.check(box == B.from_box(d), 'equal boxes compare equal')


@scen('B06', [(2, 0), (3, 0), (3, 1), (3, 2)])
def matrix_and_angles_round_trip(e):
    dim, k = e.case
    B = e.freud.box.Box
    Lx, Ly = e.choice('Lx', [0.5, 3, 8]), e.choice('Ly', [1, 5])
    Lz = e.choice('Lz', [2, 7]) if dim == 3 else 0.0
    t = [0.0, 0.0, 0.0]
    t[k] = e.pick('t', [-1.5, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 1.5])
    if dim == 3:
        t[(k + 1) % 3] = e.choice('t2', [0.0, -0.5, 1.25])
    box = B(Lx, Ly, Lz, *t)
    e.check(same(e, B.from_matrix(box.to_matrix()), box, 2e-5), 'from_matrix inverts to_matrix')
    e.check(same(e, B.from_box(box.to_matrix()), box, 2e-5), 'from_box accepts the matrix')
    la = box.to_box_lengths_and_angles()
    if dim == 3:
        e.check(same(e, B.from_box_lengths_and_angles(*la), box, 1e-4), 'from_box_lengths_and_angles inverts to_box_lengths_and_angles')
        v3 = e.el(box.v3)
        e.check(abs(la[2] * la[2] - dot(v3, v3)) <= 1e-3, 'third length')
    v1, v2 = e.el(box.v1), e.el(box.v2)
    e.check(abs(la[0] * la[0] - dot(v1, v1)) <= 1e-3, 'first length')
    e.check(abs(la[1] * la[1] - dot(v2, v2)) <= 1e-3, 'second length')
    e.check(abs(e.fn('cos', la[5]) * la[0] * la[1] - dot(v1, v2)) <= 1e-3, 'gamma is the angle of the first two box vectors')


@scen('B06', [None])
def validity(e):
    B = e.freud.box.Box
    Lx, Ly, Lz = (e.pick(n, [0, 1, 2.5]) for n in ('Lx', 'Ly', 'Lz'))
    two = e.choice('is2D', [None, True, False])

    def ok(f):
        try:
            f()
            return True
        except ValueError:
            return False
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        good = ok(lambda: B(Lx, Ly, Lz, is2D=two))
        flat = (Lz == 0) if two is None else two
        want = e.AND(Lx != 0, Ly != 0, e.OR(flat, Lz != 0))
        e.check(good == want, 'a box is accepted exactly when the lengths it needs are nonzero')
        if good:
            b = B(Lx, Ly, Lz, is2D=two)
            e.check(b.is2D == flat, 'dimensionality')
            e.check(b.dimensions == (2 if b.is2D else 3), 'dimensions')
            if b.is2D:
                e.check(b.Lz == 0, '2D boxes have Lz = 0')
    e.check(not ok(lambda: B.from_box([1, 2, 3, 4])), 'lists of length 4 are rejected')
    e.check(not ok(lambda: B.from_box([1])), 'lists of length 1 are rejected')
    e.check(not ok(lambda: B.from_box({'Lx': 1, 'Ly': 1, 'Lz': 1, 'dimensions': 3}, dimensions=2)), 'contradicting dimensions are rejected')
    e.check(not ok(lambda: B.from_box(B(1, 1, 1), dimensions=2)), 'contradicting dimensions are rejected (box)')


@scen('B06', [None])
def equality_and_setters(e):
    B = e.freud.box.Box
    which = e.choice('which', ['Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz', 'periodic_x', 'periodic_y', 'periodic_z', 'none'])
    a = B(2, 3, 4, 0.5, 0.25, -0.5)
    b = B(2, 3, 4, 0.5, 0.25, -0.5)
    old = {n: getattr(a, n) for n in ('Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz')}
    pv = [True, True, True]
    ppx, ppy, ppz = (e.choice(n, [True, False]) for n in ('px', 'py', 'pz'))
    a.periodic = [ppx, ppy, ppz]
    b.periodic = (ppx, ppy, ppz)
    e.check([bool(x) for x in a.periodic] == [ppx, ppy, ppz], 'periodicity is kept per direction')
    e.check(a == b, 'boxes with the same parameters and periodicity are equal')
    if which.startswith('periodic'):
        setattr(a, which, not getattr(a, which))
        e.check(a != b, 'periodicity is part of equality')
        i = 'xyz'.index(which[-1])
        want = [ppx, ppy, ppz]
        want[i] = not want[i]
        e.check([a.periodic_x, a.periodic_y, a.periodic_z] == want, 'setting one direction leaves the others')
    elif which != 'none':
        v = e.pick('v', [1, 1.5, 7])
        setattr(a, which, v)
        e.check(a != b, 'different parameters are unequal')
        for n in old:
            e.check(getattr(a, n) == (v if n == which else old[n]), 'a setter changes its own parameter only')
    s = e.pick('s', [0.5, 2, 4])
    c = b * s
    e.check(e.AND(c.Lx == 2 * s, c.Ly == 3 * s, c.Lz == 4 * s, c.xy == 0.5, c.xz == 0.25, c.yz == -0.5), 'scaling multiplies the lengths and keeps the tilts')
    e.check([c.periodic_x, c.periodic_y, c.periodic_z] == [b.periodic_x, b.periodic_y, b.periodic_z], 'scaling keeps the periodicity')
    c = 2.0 * b
    e.check(e.AND(c.Lx == 4, c.Ly == 6, c.Lz == 8), 'scaling from the left')
    q = B.cube(s)
    e.check(e.AND(q.Lx == s, q.Ly == s, q.Lz == s, q.xy == 0, q.is2D == False), 'cube')
    e.check(q.cubic, 'a cube is cubic')
    q = B.square(s)
    e.check(e.AND(q.Lx == s, q.Ly == s, q.Lz == 0, q.is2D == True), 'square')
    q.L = s * 2
    e.check(e.AND(q.Lx == 2 * s, q.Ly == 2 * s, q.Lz == 0), 'scalar length')
    li = e.el(c.L_inv)
    e.check(e.AND(abs(li[0] * c.Lx - 1) < 1e-6, abs(li[1] * c.Ly - 1) < 1e-6, abs(li[2] * c.Lz - 1) < 1e-6), 'inverse lengths')


SET = ['L', 'scalar L', 'Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz', 'to 2D', 'to 3D', 'periodic', 'periodic_y', 'array', 'copied']


@scen('B06', [0, 1], [0, 1, 2])
def set_then_used(e):
    """a box changed by any two setters behaves like one made with the resulting parameters"""
    B = e.freud.box.Box
    b = B(2, 3, 4, 0.5, 0.25, -0.5)
    par = dict(Lx=2, Ly=3, Lz=4, xy=0.5, xz=0.25, yz=-0.5, is2D=False)
    per = [True, True, True]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for step in range(2 if e.case != 2 else 3):
            w = e.choice(f'set{step}', SET)
            if w == 'L':
                v = [e.conc(e.pick(f'v{step}', [1, 2.5])), 8, 5]
                b.L = v
                par.update(Lx=v[0], Ly=8, Lz=5)
            elif w == 'scalar L':
                b.L = 6
                par.update(Lx=6, Ly=6, Lz=6)
            elif w in par:
                v = e.conc(e.pick(f'v{step}', [1, 2.5]))
                setattr(b, w, v)
                par[w] = v
            elif w == 'to 2D':
                b.dimensions = 2
                par['is2D'] = True
            elif w == 'to 3D':
                if par['is2D']:
                    b.dimensions = 3
                    b.Lz = 3.5
                    par.update(is2D=False, Lz=3.5)
                else:
                    b.dimensions = 3
            elif w == 'periodic':
                per = [False, True, True]
                b.periodic = per
            elif w == 'array':
                per = [True, False, True]
                o = B.cube(3)
                o.periodic = per
                b.periodic = o.periodic
            elif w == 'periodic_y':
                b.periodic_y = np.bool_(False)
                per = [per[0], False, per[2]]
            else:
                b = B.from_box(b)
            if par['is2D']:
                par['Lz'] = 0
    f = B(**par)
    f.periodic = per
    e.check(e.AND(b == f, f == b), 'a box changed by setters equals one made with its parameters')
    e.check(b.is2D == par['is2D'] and [b.periodic_x, b.periodic_y, b.periodic_z] == per, 'dimensions and periodicity are those set')
    for n in ('Lx', 'Ly', 'Lz', 'xy', 'xz', 'yz'):
        e.check(getattr(b, n) == par[n], 'a setter changes its own parameter only')
    e.check(b.volume == f.volume, 'volume')
    v = e.array([[e.grid('x', -4, 4, 0.25 if e.case else 1.0), 1.25, 0.0 if par['is2D'] else -3.25], [0.5, e.grid('y', -5, 5, 1.0) if e.case == 0 else 2.5, 0.0]])
    m = [[0, 1, -1], [2, 0, 1]]
    for n, x, y in (('wrap', b.wrap(v), f.wrap(v)), ('make_fractional', b.make_fractional(v), f.make_fractional(v)), ('make_absolute', b.make_absolute(v), f.make_absolute(v)), ('get_images', b.get_images(v), f.get_images(v)),
                    ('unwrap', b.unwrap(v, m), f.unwrap(v, m)), ('distances', b.compute_distances(v, v[::-1]), f.compute_distances(v, v[::-1])), ('contains', b.contains(v), f.contains(v)),
                    ('inverse lengths', [b.L_inv], [f.L_inv]), ('vectors', b.to_matrix(), f.to_matrix())):
        for r, t in zip(e.el(x), e.el(y)):
            if not isinstance(r, (list, tuple, np.ndarray)):
                r, t = [r], [t]
            for i, k in zip(r, t):
                e.check(i == k, n + ' is that of a box made with the same parameters')
