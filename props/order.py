import itertools
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax
from props.pmft import atan2, qrot, qconj, QS

HB = [SQ, RECT, TIL2, TIL2B]

# ------------------------------------------------------------------------------------------- O01
prop('O01', ['_order'], bounds='3 to 4 points, one on every position of a 1/8 (thorough 1/16) fractional lattice of 2 (thorough 4) boxes; k in 1..7; custom weights, one of them negative; default, ball and custom neighbours',
     assumptions=('no displacement is half a box vector long', 'no two neighbours at the same distance where the count is limited', 'no pair at distance zero', 'tolerance 1e-4'))


def psi(e, k, bonds):
    """bonds: [(vector, weight)]"""
    re, im, t = 0.0, 0.0, 0.0
    for v, w in bonds:
        a = atan2(e, v[1], v[0]) * k
        re, im, t = re + e.fn('cos', a) * w, im + e.fn('sin', a) * w, t + w
    return re, im, t


def parts(e, z):
    """real and imaginary parts of one element of a complex array"""
    z = e.conc(z) if not e.native else z
    return float(z.real), float(z.imag)


def same_psi(e, got, k, bonds, tag=''):
    if not bonds:
        return
    re, im, t = psi(e, k, bonds)
    e.check(e.AND(e.close(got.real * t, re, 1e-4), e.close(got.imag * t, im, 1e-4)), tag + 'the order of a point is the weighted mean of exp(i k theta) over its bonds')


def inside_halves(e, b, w):
    f = frac(b, w)
    return e.AND(abs(f[0]) < 0.5, abs(f[1]) < 0.5)


@scen('O01', [(RECT, 8), (TIL2B, 8)], [(b, 16) for b in HB])
def hex_list(e):
    b, div = e.case
    k = e.choice('k', [1, 4, 6, 7])
    weighted = e.choice('weighted', [False, True])
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1]]
    pairs = [(0, 1), (0, 2), (1, 0), (2, 1)]
    ws = [e.pick('w0', [0.5, 1.0, 3.0, -0.75]), 2.0, 0.75, 1.5]
    vec = [wrapv(e, b, sub(pts[j], pts[i])) for i, j in pairs]
    for v in vec:
        e.assume(e.AND(inside_halves(e, b, v), e.OR(v[0] != 0, v[1] != 0)))
    f = e.freud.order.Hexatic(k, weighted)
    f.compute((mkbox(e, b), e.array(pts)), neighbors=mknl(e, 3, 3, [i for i, j in pairs], [j for i, j in pairs], vec, ws))
    z = e.el(f.particle_order)
    e.check(len(z) == 3 and f.k == k and f.weighted == weighted, 'one value per point, and the parameters are kept')
    for n in range(3):
        same_psi(e, z[n], k, [(v, w if weighted else 1.0) for (i, j), v, w in zip(pairs, vec, ws) if i == n])


@scen('O01', [(SQ, 8), (TIL2, 8)], [(b, 8) for b in HB])
def hex_query(e):
    """default: the k nearest neighbours; ball queries"""
    b, div = e.case
    k = e.choice('k', [2, 3])
    R = rmax(b)
    mode = e.choice('mode', ['default', 'ball'])
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1], fixedpts(b, 3)[2]]
    ref = {}
    for i in range(4):
        for j in range(4):
            if i != j:
                w = wrapv(e, b, sub(pts[j], pts[i]))
                ref[i, j] = (w, dot(w, w))
    sel = {}
    for i in range(4):
        o = []
        for j in range(4):
            if j == i:
                continue
            w, s = ref[i, j]
            e.assume(s > 0)
            if mode == 'ball':
                if e.conc(s < R * R):
                    o.append(j)
            else:
                # the rank of j among the neighbours
                closer = sum(1 for m in range(4) if m not in (i, j) and e.conc(ref[i, m][1] < s))
                tie = e.OR(*[ref[i, m][1] == s for m in range(4) if m not in (i, j)])
                e.assume(e.NOT(tie))
                if closer < k:
                    o.append(j)
        for j in o:
            e.assume(inside_halves(e, b, ref[i, j][0]))
            if mode != 'ball':
                # the nearest image is unique and within the default search range
                e.assume(ref[i, j][1] < R * R)
        sel[i] = o
    f = e.freud.order.Hexatic(k)
    kw = {} if mode == 'default' else dict(neighbors={'mode': 'ball', 'r_max': R, 'exclude_ii': True})
    f.compute((mkbox(e, b), e.array(pts)), **kw)
    z = e.el(f.particle_order)
    for i in range(4):
        same_psi(e, z[i], k, [(ref[i, j][0], 1.0) for j in sel[i]])


@scen('O01')
def hex_box(e):
    b = e.choice('box', [CUBE, SQ, TRIC, RECT])
    f = e.freud.order.Hexatic(e.choice('k', [1, 6]))
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, 3))), neighbors={'r_max': rmax(b), 'exclude_ii': True}))
    e.check((err is not None) == (not b[6]), '3D boxes, and only these, are refused')
    d = e.freud.order.Hexatic()
    e.check(d.k == 6 and not d.weighted and d.default_query_args['num_neighbors'] == 6, 'six neighbours by default')


# ------------------------------------------------------------------------------------------- O03
prop('O03', ['_order'], bounds='l = 2 (thorough also 4) for all real quaternions with components in [-1, 1]; l = 0..16 for 1 to 3 pairs of quaternions from 24 unit ones',
     assumptions=('tolerance 1e-4 relative to the size of the value', 'orientations are unit quaternions, except where all real ones are quantified over'))


def cheb(l, s, n=1.0):
    """n^l U_l(s / sqrt(n))... for n = squared norm: homogeneous Chebyshev polynomial of the second kind"""
    a, c = 1.0, 2 * s
    if l == 0:
        return a
    for _ in range(l - 1):
        a, c = c, 2 * s * c - n * a
    return c


UNITS = None


def unitq():
    global UNITS
    if UNITS is None:
        out = [[1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, 0.6, 0.8], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [-1.0, 0, 0, 0], [0.8, 0, -0.6, 0]]
        s = 12345
        while len(out) < 24:
            v = []
            for _ in range(4):
                s = (s * 1103515245 + 12345) % 2147483648
                v.append(((s >> 8) % 2001 - 1000) / 1000)
            m = math.sqrt(sum(x * x for x in v))
            if m > 0.1:
                out.append([float(np.float32(x / m)) for x in v])
        UNITS = out
    return UNITS


def symq(e, name, n=24):
    """a quaternion ranging over the list"""
    ix = e.pickint(name, list(range(n)))
    return ix, [e.lookup(ix, [q[c] for q in unitq()[:n]]) for c in range(4)]


@scen('O03', [2, 6, 8, 12], [0, 2, 4, 6, 8, 10, 12, 14, 16])
def pairs_of_units(e):
    l = e.case
    n = e.choice('n', [1, 2])
    fix = unitq()
    a = [symq(e, 'a')[1], fix[9]][:n]
    q = [symq(e, 'q')[1], fix[11]][:n]
    f = e.freud.order.RotationalAutocorrelation(l)
    f.compute(e.array(a, np.float32), e.array(q, np.float32))
    z = e.el(f.particle_order)
    e.check(len(z) == n and f.l == l, 'one value per orientation')
    tot = 0.0
    for k in range(n):
        s = sum_(x * y for x, y in zip(a[k], q[k]))
        w = cheb(l, s) * (1 / (l + 1))
        e.check(e.AND(e.close(z[k].real, w, 1e-4), e.close(z[k].imag, 0.0, 1e-4)), 'the value of a pair is the character of its relative rotation over l + 1')
        tot = tot + z[k].real
    e.check(e.close(f.order, tot * (1 / n), 1e-5), 'the order is the mean over the orientations')


def sum_(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


@scen('O03', [2], [2, 4], real=True)
def all_quaternions(e):
    l = e.case
    q = [e.real(c, -1, 1) for c in 'wxyz']
    f = e.freud.order.RotationalAutocorrelation(l)
    f.compute(e.array([[1.0, 0, 0, 0]], np.float32), e.array([q], np.float32))
    z = e.el(f.particle_order)[0]
    n = sum_(x * x for x in q)
    e.check(e.AND(e.close(z.real, cheb(l, q[0], n) * (1 / (l + 1)), 1e-4), e.close(z.imag, 0.0, 1e-4)), 'the value of a pair is the character of its relative rotation over l + 1')


@scen('O03')
def bad_orders(e):
    l = e.pickint('l', [-4, -2, -1, 0, 1, 2, 3, 7])
    f, err = outcome(lambda: e.freud.order.RotationalAutocorrelation(e.conc(l)))
    e.check((err == 'ValueError') == e.conc(e.OR(l < 0, l % 2 == 1)), 'odd and negative orders, and only these, are refused')
    if err:
        return
    n, m = e.choice('n', [1, 2]), e.choice('m', [1, 2, 3])
    _, err = outcome(lambda: f.compute(e.array(unitq()[:n], np.float32), e.array(unitq()[:m], np.float32)))
    e.check((err is not None) == (n != m), 'sets of orientations of different sizes, and only these, are refused')


# ------------------------------------------------------------------------------------------- O04
prop('O04', ['_order'], bounds='1 to 3 unit quaternions, one (thorough two) of 24; annealing with 0 to 2 accepted steps, 1 to 3 replicates, 2 (thorough 4) seeds; three divisions of the replicates into parallel chunks; parameters around their limits',
     assumptions=('tolerance 1e-4 (order parameters) and 1e-5 (tensors)', 'the temperatures are low (at most 2e-4), so that accepted steps do not lower the order by more than 2e-3', 'random numbers are those of the seeds used'))
KD = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
IDX4 = list(itertools.product(range(3), repeat=4))
R4 = {t: 0.4 * (KD[t[0]][t[1]] * KD[t[2]][t[3]] + KD[t[0]][t[2]] * KD[t[1]][t[3]] + KD[t[0]][t[3]] * KD[t[1]][t[2]]) for t in IDX4}
MULT = {}
for _t in IDX4:
    MULT.setdefault(tuple(sorted(_t)), []).append(_t)


def homog(q):
    """2 sum over axes of v v v v minus the isotropic part, the components with sorted indices"""
    vs = [qrot(q, a) for a in KD]
    return {t: 2.0 * sum_(v[t[0]] * v[t[1]] * v[t[2]] * v[t[3]] for v in vs) - R4[t] for t in MULT}


def order_of(c, g):
    d = sum_(len(MULT[t]) * (g[t] - c[t]) * (g[t] - c[t]) for t in MULT)
    n = sum_(len(MULT[t]) * c[t] * c[t] for t in MULT)
    return 1.0 - d / n


def tens(x):
    return {t: x[t[0]][t[1]][t[2]][t[3]] for t in IDX4}


def cubatic(e, qs, n=1, seed=1, t0=2e-5, t1=1e-5, scale=0.1):
    f = e.freud.order.Cubatic(t0, t1, scale, n, seed)
    f.compute(e.array(qs, np.float32))
    return f


@scen('O04', [1], [1, 2])
def tensors(e):
    qs = [symq(e, f'q{k}', 24)[1] for k in range(e.case)] + e.choice('others', [[], [unitq()[12]], [unitq()[3], unitq()[13]]])
    steps = e.choice('steps', [0, 1])
    n = e.choice('replicates', [1, 2])
    f = cubatic(e, qs, n, e.choice('seed', [1, 7]), t0=2e-5 if steps else 1e-5)
    g, c = tens(e.el(f.global_tensor)), tens(e.el(f.cubatic_tensor))
    hs = [homog(q) for q in qs]
    gm = {t: sum_(h[t] for h in hs) * (1 / len(qs)) for t in MULT}
    for t in IDX4:
        e.check(e.close(g[t], gm[tuple(sorted(t))], 1e-5), 'the global tensor is the mean of the tensors of the particles')
    po = e.el(f.particle_order)
    e.check(len(po) == len(qs), 'one order per particle')
    for x, h in zip(po, hs):
        e.check(e.close(x, order_of(h, gm), 1e-4), 'the order of a particle is that of its own orientation')
    q = e.el(f.orientation)
    e.check(e.close(sum_(x * x for x in q), 1.0, 1e-4), 'the global orientation is a unit quaternion')
    h = homog(q)
    for t in IDX4:
        e.check(e.close(c[t], h[tuple(sorted(t))], 1e-4), 'the cubatic tensor belongs to the global orientation')
    e.check(e.close(f.order, order_of(h, gm), 1e-4), 'the order belongs to the global orientation')
    e.check(f.order <= 1 + 1e-5, 'the order is at most 1')


@scen('O04', [[1, 7]], [[1, 7, 0, 123456]])
def annealing(e):
    """the same seed with lower final temperatures continues the same run"""
    qs = [symq(e, 'q')[1], unitq()[12]]
    seed = e.choice('seed', e.case)
    a = [cubatic(e, qs, 1, seed, 2e-4, t1).order for t1 in (2e-4, 1e-4, 1e-5)]
    e.check(e.AND(a[1] >= a[0] - 2e-3, a[2] >= a[1] - 2e-3), 'cooling at low temperature does not lower the order')
    e.check(e.AND(e.OR(a[0] != a[1], a[0] > 1 - 1e-3), e.OR(a[1] != a[2], a[1] > 1 - 1e-3)), 'the orientation moves while the temperature is above the final one')


@scen('O04', [[1]], [[1, 7, 123456]])
def replicates(e):
    """the division of work among threads has no influence, and more replicates are never worse"""
    qs = [symq(e, 'q', 8)[1], unitq()[12]]
    seed = e.choice('seed', e.case)
    n = e.choice('n', [2, 3])
    out = []
    for mode in ('one', 'two', 'each'):
        e.schedule(mode)
        if e.native:
            with e.freud.parallel.NumThreads({'one': 1, 'two': 2, 'each': 8}[mode]):
                r = [cubatic(e, qs, k, seed) for k in (n - 1, n, 400, 1000, 3000)]
        else:
            r = [cubatic(e, qs, k, seed) for k in (n - 1, n)]
        out.append([(f.order, *e.el(f.orientation)) for f in r])
    e.schedule('two')
    for r in out:
        for x, y in zip(r, out[0]):
            e.check(e.AND(*[u == v for u, v in zip(x, y)]), 'the result for a seed does not depend on the number of threads')
        for x, y in zip(r, r[1:]):
            e.check(y[0] >= x[0], 'the best of more replicates is at least the best of fewer ones')


@scen('O04', [8], [8, 12, 20])
def every_replicate(e):
    """each of the replicates takes part: some seed finds its best order in the first, second and third"""
    k = e.choice('q', [0, 7])
    qs = [unitq()[k], unitq()[12]]
    better, worse = set(), set()
    for seed in range(e.case, e.case + 8):
        o = [cubatic(e, qs, n, seed, t0=1e-5, t1=1e-5).order for n in (1, 2, 3)]
        e.check(e.AND(o[1] >= o[0], o[2] >= o[1]), 'the best of more replicates is at least the best of fewer ones')
        for n in (1, 2):
            (better if e.conc(o[n] > o[n - 1]) else worse).add(n)
    e.check(better == {1, 2} and worse == {1, 2}, 'the best replicate is not always the same one')


@scen('O04')
def cubatic_parameters(e):
    t0, t1 = e.pick('t0', [1e-7, 1e-6, 0.5, 1.0]), e.pick('t1', [1e-7, 1e-6, 0.5, 1.0])
    sc = e.pick('scale', [-0.5, 0.0, 0.25, 0.999, 1.0, 1.5])
    f, err = outcome(lambda: e.freud.order.Cubatic(t0, t1, sc, 2, 3))
    bad = e.OR(t0 < t1, t1 < 9e-7, sc <= 0, sc >= 1)
    e.check(bad if err else e.NOT(bad), 'temperatures that rise or end below 1e-6 and scales outside (0, 1), and only these, are refused')
    if not err:
        e.check(e.AND(e.close(f.t_initial, t0, 1e-6), e.close(f.t_final, t1, 1e-6), e.close(f.scale, sc, 1e-6), f.n_replicates == 2, f.seed == 3), 'the parameters are kept')
