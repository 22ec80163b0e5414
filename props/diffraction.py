import itertools
import math
import numpy as np
from sym.registry import prop, scen
from props.common import *
from props.locality import outcome
from props.order import sum_

FB = [ORTHO2, TRIC3, RECT, TIL2B, TRIC]

# ------------------------------------------------------------------------------------------- F01
prop('F01', ['_diffraction'], bounds='2 to 3 points and up to 2 query points, one on every position of a 1/4 (2D 1/8, thorough 1/8 and 1/16) fractional lattice of 2 (thorough 5) boxes; 2 to 5 k values, three ranges of k; up to three accumulated frames with different boxes; three divisions of the k values among threads; parameters around their limits',
     assumptions=('more than one k value', 'tolerance 1e-4 relative to the number of pairs', 'no displacement is half a box vector long in the inner directions, where the image, but not the distance of a minimum image, would be ambiguous'))


def form(e, d2, k, twod):
    """sinc(k r) or J_0(k r)"""
    r = e.sqrt(d2)
    if twod:
        return e.fn('j0', r * k)
    if k == 0:
        return 1.0
    x = r * k
    zero = d2 == 0
    safe = e.ite(zero, 1.0, x)
    return e.ite(zero, 1.0, e.fn('sin', safe) / safe)


def table(e, b, pts, qs):
    """squared minimum image distances of all pairs, equal indices included"""
    out = []
    for q in qs:
        for p in pts:
            w = wrapv(e, b, sub(p, q))
            f = frac(b, w)
            e.assume(e.AND(*[abs(f[c]) < 0.5 for c in range(2 if b[6] else 3)]))
            out.append(dot(w, w))
    return out


def kvals(n, k0, k1):
    return [k0 + (k1 - k0) * i / (n - 1) for i in range(n)]


def verify(e, f, ks, frames, tag=''):
    """frames: (box, squared distances, number of points in the normalisation)"""
    s = e.el(f.S_k)
    e.check(len(s) == len(ks), tag + 'one value per k')
    for k, v in zip(ks, s):
        w, m = 0.0, 0
        for b, ds, n in frames:
            w = w + sum_(form(e, d, k, b[6]) for d in ds) * (1 / n)
            m += len(ds) / n
        e.check(e.close(v, w * (1 / len(frames)), 1e-4 * m), tag + 'S(k) is the mean over the frames of the sum over all pairs of sinc(k r) (2D: J0(k r)) per point')
    mn = min(4 * math.pi / min(b[:2] if b[6] else b[:3]) for b, *_ in frames)
    e.check(e.close(f.min_valid_k, mn, 1e-5), tag + 'the smallest valid k is that of the largest of the smallest box lengths')


def values(e, f, n, k0, k1):
    ks = kvals(n, k0, k1)
    got = e.el(f.k_values)
    e.check(f.num_k_values == n and len(got) == n, 'as many k values as asked for')
    e.check(e.AND(*[e.close(x, y, 1e-5) for x, y in zip(got, ks)]), 'the k values are evenly spaced from k_min to k_max')
    e.check(e.AND(e.close(f.k_min, k0, 1e-5), e.close(f.k_max, k1, 1e-5), e.close(f.bounds[0], k0, 1e-5), e.close(f.bounds[1], k1, 1e-5)), 'the bounds are the first and last k value')
    return ks


RANGES = [(5, 0.0, 6.0), (3, 0.5, 2.0), (4, 0.0, 0.7), (2, 3.0, 11.0)]


@scen('F01', [(TRIC3, 4), (RECT, 8)], [(b, 8 if not b[6] else 16) for b in FB])
def debye(e):
    b, div = e.case
    n, k0, k1 = e.choice('k', RANGES)
    e.schedule(e.choice('threads', ['one', 'two', 'each']))
    f = e.freud.diffraction.StaticStructureFactorDebye(n, k1, k0)
    ks = values(e, f, n, k0, k1)
    fix = oddpts(b, 4)
    pts = [fix[0], cellpoint(e, 'p', b, div), fix[1]]
    sep = e.choice('query', [False, True])
    if sep:
        qs = fix[2:]
        nt = e.choice('total', [5, 9])
        f.compute((mkbox(e, b), e.array(pts)), query_points=e.array(qs), N_total=nt)
    else:
        qs, nt = pts, len(pts)
        f.compute((mkbox(e, b), e.array(pts)))
    verify(e, f, ks, [(b, table(e, b, pts, qs), nt)])


@scen('F01', [(ORTHO2, TRIC, 4), (RECT, TIL2B, 8)], [(ORTHO2, TRIC, 8), (TRIC3, ORTHO2, 8), (RECT, TIL2B, 16), (TIL2B, SQ, 16)])
def frames(e):
    """accumulation, with or without looking at results in between"""
    b1, b2, div = e.case
    n, k0, k1 = e.choice('k', RANGES[:2])
    f = e.freud.diffraction.StaticStructureFactorDebye(n, k1, k0)
    ks = kvals(n, k0, k1)
    look = e.choice('look', [False, True])
    resets = e.choice('resets', [(True, False, False), (False, False, True), (False, True, False)])
    first = [oddpts(b1, 1)[0], cellpoint(e, 'p', b1, div)]
    second = oddpts(b2, 5)
    third = oddpts(b1, 3)
    sets = [(b1, first, first, 2), (b2, second[:2], second[2:], 6), (b1, third, third, 3)]
    acc = []
    for (b, pts, qs, nt), r in zip(sets, resets):
        kw = dict(query_points=e.array(qs), N_total=nt) if qs is not pts else {}
        f.compute((mkbox(e, b), e.array(pts)), reset=r, **kw)
        acc = ([] if r else acc) + [(b, table(e, b, pts, qs), nt)]
        if look:
            verify(e, f, ks, acc, 'in between: ')
    verify(e, f, ks, acc)


@scen('F01')
def spacing(e):
    """small k: values start at exactly k_min also where rounding would make them negative"""
    n = e.choice('n', [2, 3, 7, 10])
    k1 = e.pick('kmax', [0.1, 0.3, 0.7, 1.1, 3.3, 5.7, 10.0, 12.1])
    b = e.choice('box', [SQ, CUBE])
    f = e.freud.diffraction.StaticStructureFactorDebye(n, k1, 0.0)
    pts = fixedpts(b, 2)
    f.compute((mkbox(e, b), e.array(pts)))
    e.check(e.close(e.el(f.S_k)[0], 2.0, 1e-4), 'S(0) is the number of points')
    got = e.el(f.k_values)
    e.check(e.AND(*[e.close(x, k1 * (i / (n - 1)), 1e-5) for i, x in enumerate(got)]), 'the k values are evenly spaced from k_min to k_max')


@scen('F01')
def refused(e):
    n = e.conc(e.pickint('n', [0, 2, 3]))
    k0, k1 = e.pick('kmin', [-1.0, -0.25, 0.0, 1.0, 2.0, 3.0]), e.pick('kmax', [-2.0, 0.0, 1.0, 2.0, 2.5])
    f, err = outcome(lambda: e.freud.diffraction.StaticStructureFactorDebye(n, k1, k0))
    bad = e.OR(n == 0, k0 < 0, k1 <= 0, k1 <= k0)
    e.check(bad if err else e.NOT(bad), 'no k values, negative k and empty ranges, and only these, are refused')
    if err:
        return
    b = e.choice('box', [ORTHO2, RECT])
    q, t = e.choice('query', [False, True]), e.choice('total', [False, True])
    kw = {}
    if q:
        kw['query_points'] = e.array(fixedpts(b, 1))
    if t:
        kw['N_total'] = 4
    for name in ('S_k', 'min_valid_k'):
        try:
            getattr(f, name)
            ok = False
        except AttributeError:
            ok = True
        e.check(ok, 'results are not available before compute')
    _, err = outcome(lambda: f.compute((mkbox(e, b), e.array(fixedpts(b, 2))), **kw))
    e.check((err == 'ValueError') == (q != t) and (err in (None, 'ValueError')), 'query points without the total number and vice versa, and only these, are refused')


@scen('F01', [CUBE, SQ], [CUBE, SQ, ORTHO2, RECT], real=True)
def any_distance(e):
    """two points at any distance (functions of real numbers are left uninterpreted)"""
    b = e.case
    p = [e.real('x', -b[0] / 4, b[0] / 4), e.real('y', -b[1] / 4, b[1] / 4), 0.0 if b[6] else 0.25]
    k1 = e.choice('k', [2.0, 3.5])
    f = e.freud.diffraction.StaticStructureFactorDebye(2, k1, 1.0)
    f.compute((mkbox(e, b), e.array([p])), query_points=e.array([[0.0, 0.0, 0.0]]), N_total=2)
    s = e.el(f.S_k)
    ks = e.el(f.k_values)
    d2 = dot(p, p)
    for v, k in zip(s, ks):
        e.check(e.close(v * 2, form(e, d2, float(k), b[6]), 1e-4), 'S(k) is sinc(k r) or J0(k r) for a pair of points at any distance')


# ------------------------------------------------------------------------------------------- F02
prop('F02', ['_diffraction', '_density'], bounds='2 to 3 points, one on every position of a fractional lattice or anywhere in the cell, another on one of a few, symbolic weights; grids of 3 to 6 and images of 3 to 5 pixels, zoom 1 to 2, several peak widths; cubic boxes of several sizes seen along 6 directions; up to three accumulated frames',
     assumptions=('no point lies on the edge of a grid cell', 'image pixels beyond the computed grid are zero', 'tolerance 1e-6 relative to the number of points'))


def qrot(q, v):
    """rotation matrix product, from the definition"""
    w, x, y, z = q
    m = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return [sum_(m[r][c] * v[c] for c in range(3)) for r in range(3)]


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


VIEWS = [[1.0, 0.0, 0.0, 0.0], [0.8, 0.0, 0.0, 0.6], [0.8, 0.6, 0.0, 0.0], [0.8, 0.0, 0.6, 0.0], [0.5, 0.5, 0.5, 0.5], [0.8, 0.2, -0.4, 0.4], [0.7, 0.1, -0.5, 0.5]]


def image(e, L, pts, wts, view, grid, out, zoom, width):
    """S(k) at the wave vectors of the image, linearly interpolated between those of the grid"""
    rb = [qrot(conj(view), [L if i == j else 0.0 for i in range(3)]) for j in range(3)]   # box vectors as seen
    face = [abs(rb[(j + 1) % 3][0] * rb[(j + 2) % 3][1] - rb[(j + 1) % 3][1] * rb[(j + 2) % 3][0]) for j in range(3)]
    j = max(range(3), key=lambda t: face[t])
    assert all(t == j or face[t] < face[j] - 1e-6 for t in range(3)), 'two faces are seen equally large'
    a, b = rb[(j + 1) % 3][:2], rb[(j + 2) % 3][:2]
    det = a[0] * b[1] - a[1] * b[0]
    cells = []
    for p in pts:
        r = qrot(conj(view), p)
        f = [(r[0] * b[1] - r[1] * b[0]) / det, (r[1] * a[0] - r[0] * a[1]) / det]
        ix = []
        for x in f:
            y = (x + 0.5) * grid
            c = e.floor(y)
            e.assume(e.AND(y - c > 1e-4, y - c < 1 - 1e-4))
            ix.append(c)
        cells.append(ix)
    n = len(pts)
    tot = sum_(wts)
    S = {}
    memo = {}

    def ph(t, k, m, l):
        key = (t, k % grid, l % grid)
        return memo[key]
    for t, c in enumerate(cells):
        oh = [[e.conc(e.AND(c[ax] - grid * e.floor(c[ax] * (1 / grid) + 1e-9) > v - 0.5, c[ax] - grid * e.floor(c[ax] * (1 / grid) + 1e-9) < v + 0.5)) for v in range(grid)] for ax in range(2)]
        cells[t] = (oh[0].index(True), oh[1].index(True))
    for k in range(grid):
        for l in range(grid):
            re = im = 0.0
            for c, w in zip(cells, wts):
                q = 2 * math.pi * (((k - grid // 2) * c[0] + (l - grid // 2) * c[1]) % grid) / grid
                re, im = re + w * math.cos(q), im + w * math.sin(q)
            g = math.exp(-4 * math.pi ** 2 * (width / zoom) ** 2 * ((k - grid // 2) ** 2 + (l - grid // 2) ** 2) / grid ** 2)
            S[k, l] = (re * re + im * im) * g
    scale = 2 * math.pi * out / (L * zoom)
    vals = []
    for r in range(out):
        for c in range(out):
            k = [(r - out // 2) / out * scale, (c - out // 2) / out * scale]
            m = [(k[0] * a[0] + k[1] * a[1]) / (2 * math.pi), (k[0] * b[0] + k[1] * b[1]) / (2 * math.pi)]
            u = [x + grid // 2 for x in m]
            lo = [math.floor(x + 1e-9) for x in u]
            fr = [max(x - y, 0.0) for x, y in zip(u, lo)]
            v = 0.0
            ok = all(-1e-9 <= x <= grid - 1 + 1e-9 for x in u)
            edge = any(abs(x) < 1e-6 or abs(x - grid + 1) < 1e-6 for x in u)
            if ok:
                for i in (0, 1):
                    for h in (0, 1):
                        w = (fr[0] if i else 1 - fr[0]) * (fr[1] if h else 1 - fr[1])
                        if w > 1e-9:
                            v = v + S[lo[0] + i, lo[1] + h] * w
            vals.append((None if edge and not all(abs(x - round(x)) < 1e-12 for x in u) or edge and view != VIEWS[0] else v))
    return [v if v is None else v * (n / (tot * tot)) for v in vals]


def dp_check(e, d, imgs, L, view, out, zoom, n, tag=''):
    """imgs: one list of pixels per frame"""
    got = e.el(d.diffraction.reshape(-1))
    e.check(len(got) == out * out and tuple(d.diffraction.shape) == (out, out), tag + 'a square image of the output size')
    for k, v in enumerate(got):
        ws = [im[k] for im in imgs]
        if any(w is None for w in ws):
            continue
        e.check(e.close(v, sum_(ws) * (1 / len(ws)), 1e-6 * n), tag + 'a pixel is the mean over the frames of the intensity at its wave vector')
    mid = (out // 2) * out + out // 2
    e.check(e.close(got[mid], float(n), 1e-6 * n), tag + 'S(0) is the number of points and lies in the middle')
    scale = 2 * math.pi * out / (L * zoom)
    ks = [(i - out // 2) / out * scale for i in range(out)]
    kv = e.el(d.k_values)
    e.check(len(kv) == out and e.AND(*[e.close(x, y, 1e-6 * scale) for x, y in zip(kv, ks)]), tag + 'the k values are those of the pixels')
    vv = e.el(d.k_vectors.reshape(-1))
    e.check(len(vv) == 3 * out * out, tag + 'a wave vector per pixel')
    ok = []
    for r in range(out):
        for c in range(out):
            w = qrot(view, [ks[r], ks[c], 0.0])
            ok += [e.close(vv[3 * (r * out + c) + i], w[i], 1e-6 * scale) for i in range(3)]
    e.check(e.AND(*ok), tag + 'the wave vector of a pixel lies in the plane seen, in the coordinates of the points')


@scen('F02', [0, 1, 4, 5], [0, 1, 2, 3, 4, 5, 6])
def pattern(e):
    view = VIEWS[e.case]
    nrm = math.sqrt(sum(x * x for x in view))
    view = [x / nrm for x in view]
    grid, out, zoom, width, L = e.choice('sizes', [(4, 4, 1, 0.5, 4), (5, 3, 2, 1, 3), (4, 5, 1.5, 0, 4), (3, 4, 1, 0.25, 5)])
    pts = [[e.pick('x', [-1.37, -0.62, 0.11, 12.93]), e.pick('y', [-1.21, 0.43, 1.19]), e.pick('z', [-0.83, 0.71])], [0.31, -8.77, 0.52]]
    wts = [e.pick('w', [1.0, 3.0, -0.5]), 2.0]
    d = e.freud.diffraction.DiffractionPattern(grid_size=grid, output_size=out)
    d.compute((mkbox(e, (L, L, L, 0, 0, 0, False)), e.array(pts)), view_orientation=np.array(view), zoom=zoom, peak_width=width, weights=e.array(wts))
    dp_check(e, d, [image(e, L, pts, wts, view, grid, out, zoom, width)], L, view, out, zoom, 2)


def unit(q):
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


@scen('F02', [0, 5], [0, 1, 2, 5, 6], real=True)
def anywhere(e):
    """a point anywhere in the cell"""
    view = unit(VIEWS[e.case])
    grid, out, zoom, width, L = (3, 3, 1, 0.5, 4)
    x, y = e.real('x', -2, 2), e.real('y', -2, 2)
    pts = [[x, y, 0.25], [0.31, -0.77, 0.52]]
    im = image(e, L, pts, [1.0, 1.0], view, grid, out, zoom, width)
    d = e.freud.diffraction.DiffractionPattern(grid_size=grid, output_size=out)
    d.compute((mkbox(e, (L, L, L, 0, 0, 0, False)), e.array(pts)), view_orientation=np.array(view), zoom=zoom, peak_width=width)
    dp_check(e, d, [im], L, view, out, zoom, 2)


@scen('F02', [0, 1], [0, 1, 2, 3])
def averages(e):
    """accumulation over frames, with or without looking in between, and starting over"""
    grid, out = e.choice('sizes', [(4, 4), (3, 5)])
    d = e.freud.diffraction.DiffractionPattern(grid_size=grid, output_size=out)
    look = e.choice('look', [False, True])
    resets = e.choice('resets', [(True, False, False), (False, False, True), (False, True, False)])
    x = e.pick('x', [-1.37, 0.11, 0.93])
    runs = [(4, 0, 1, 0.5, None), (4 if e.case % 2 else 5, 5, 1.5, 1, [1.0, 3.0]), (3, e.case, 1, 0.25, [2.0, 2.0])]
    acc = []
    for k, ((L, v, zoom, width, wts), r) in enumerate(zip(runs, resets)):
        view = unit(VIEWS[v])
        pts = [[x, 0.43 - 0.5 * k, 0.71], [0.31, -0.77, 0.52]]
        kw = {} if wts is None else dict(weights=e.array(wts))
        if v or k:
            kw['view_orientation'] = np.array(view)
        d.compute((mkbox(e, (L, L, L, 0, 0, 0, False)), e.array(pts)), zoom=zoom, peak_width=width, reset=r, **kw)
        acc = ([] if r else acc) + [image(e, L, pts, wts or [1.0, 1.0], view, grid, out, zoom, width)]
        if wts is not None:
            e.check(list(e.el(kw['weights'])) == wts, 'the weights are left as they are')
        if look:
            dp_check(e, d, acc, L, view, out, zoom, 2, 'in between: ')
    dp_check(e, d, acc, L, view, out, zoom, 2)
    e.check(d.N_points == 2 and d.grid_size == grid and d.output_size == out, 'sizes are reported')


@scen('F02')
def cubic_only(e):
    b = e.choice('box', [CUBE, ORTHO2, SQ, RECT, TRIC, (4, 4, 4, 0.25, 0, 0, False), (4, 4, 4, 0, 0, -0.5, False), (4, 4, 8, 0, 0, 0, False), (3, 3, 3, 0, 0, 0, False)])
    d = e.freud.diffraction.DiffractionPattern(grid_size=3)
    for name in ('diffraction', 'k_values', 'k_vectors', 'N_points'):
        try:
            getattr(d, name)
            ok = False
        except AttributeError:
            ok = True
        e.check(ok, 'results are not available before compute')
    _, err = outcome(lambda: d.compute((mkbox(e, b), e.array(fixedpts(b, 2)))))
    cubic = not b[6] and b[0] == b[1] == b[2] and not any(b[3:6])
    e.check(err == (None if cubic else 'ValueError'), 'all boxes but cubes are refused')
    if cubic:
        e.check(d.output_size == 3 and d.grid_size == 3 and tuple(d.diffraction.shape) == (3, 3), 'the image is as large as the grid unless asked otherwise')
