"""boxes and exact geometry shared by the scenarios (works on symbolic and on concrete values)"""

# Lx, Ly, Lz, xy, xz, yz, is2D
CUBE = (4, 4, 4, 0, 0, 0, False)
ORTHO = (4, 2, 8, 0, 0, 0, False)
TRIC = (4, 2, 8, 0.5, -0.25, 0.5, False)
TRIC2 = (8, 4, 4, 1.5, 0.5, -1.0, False)
ORTHO2 = (8, 4, 2, 0, 0, 0, False)
FLAT = (4, 8, 2, 0, 0, 0, False)
TRIC3 = (4, 8, 2, -0.5, 0.5, 0.25, False)
SQ = (4, 4, 0, 0, 0, 0, True)
RECT = (8, 4, 0, 0, 0, 0, True)
TIL2 = (4, 2, 0, 0.5, 0, 0, True)
TIL2B = (4, 4, 0, -1.5, 0, 0, True)
PPP = (True, True, True)


def mkbox(e, b, per=PPP):
    Lx, Ly, Lz, xy, xz, yz, is2D = b
    box = e.freud.box.Box(Lx, Ly, Lz, xy, xz, yz, is2D)
    if per != PPP:
        box.periodic = list(per)
    return box


def frac(b, d):
    """coefficients of the displacement d in the box vectors"""
    Lx, Ly, Lz, xy, xz, yz, is2D = b
    if is2D:
        return [(d[0] - xy * d[1]) / Lx, d[1] / Ly, 0.0]
    return [(d[0] - xy * d[1] - (xz - yz * xy) * d[2]) / Lx, (d[1] - yz * d[2]) / Ly, d[2] / Lz]


def lattice(b, n):
    """n0 v1 + n1 v2 + n2 v3"""
    Lx, Ly, Lz, xy, xz, yz, is2D = b
    if is2D:
        return [n[0] * Lx + n[1] * (Ly * xy), n[1] * Ly, 0.0]
    return [n[0] * Lx + n[1] * (Ly * xy) + n[2] * (Lz * xz), n[1] * Ly + n[2] * (Lz * yz), n[2] * Lz]


def wrapv(e, b, d, per=PPP):
    """reference wrap: shift by whole box vectors until every periodic fractional coordinate is in [-1/2, 1/2)"""
    if not any(per):
        return list(d)
    if b[6]:
        d = [d[0], d[1], 0.0]
    f = frac(b, d)
    n = [e.floor(f[i] + 0.5) if per[i] and not (b[6] and i == 2) else 0.0 for i in range(3)]
    s = lattice(b, n)
    return [d[i] - s[i] for i in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def point(e, name, b, step=0.5, span=1.0, nz=None):
    """a symbolic point on a lattice covering `span` box lengths around the origin"""
    Lx, Ly, Lz = b[0], b[1], b[2]
    p = []
    for c, L in zip('xyz', (Lx, Ly, Lz)):
        if c == 'z' and b[6]:
            p.append(0.0)
        else:
            h = L * span / 2
            p.append(e.grid(f'{name}{c}', -h, h - (step if span <= 1 else 0), step))
    return p


def cellpoint(e, name, b, div=8, lo=-0.5, hi=None):
    """a symbolic point inside the box: fractional coordinates k/div in [lo, hi)"""
    if isinstance(div, int):
        div = (div,) * 3
    f = []
    for c, d in zip('xyz', div):
        if c == 'z' and b[6]:
            f.append(0.0)
        else:
            f.append(e.grid(f'{name}{c}', lo, (0.5 if hi is None else hi) - 1 / d, 1 / d))
    return lattice(b, f)


def bonds(e, nl):
    """[(i, j, distance, weight, vector)] of a neighbour list"""
    q, p = e.el(nl.query_point_indices), e.el(nl.point_indices)
    d, w, v = e.el(nl.distances), e.el(nl.weights), e.el(nl.vectors)
    return [(e.conc(q[k]), e.conc(p[k]), d[k], w[k], v[k]) for k in range(len(nl))]


def pairs_within(e, b, pts, qpts, r_max, r_min=0.0, exclude_ii=False, wrap=None):
    """{(i, j): (wrapped vector, squared distance, within?)} for all pairs"""
    out = {}
    for i, q in enumerate(qpts):
        for j, p in enumerate(pts):
            if exclude_ii and i == j:
                continue
            w = (wrap or (lambda d: wrapv(e, b, d)))(sub(p, q))
            s = dot(w, w)
            out[i, j] = (w, s, e.AND(s < r_max * r_max, s >= r_min * r_min))
    return out


def check_bonds(e, bs, ref, tag='', weight=True):
    """the bonds are exactly the pairs of ref that are within, each once, with the right vector, distance and weight"""
    seen = {}
    for i, j, d, w, v in bs:
        seen.setdefault((i, j), []).append((d, w, v))
    for k, (rw, rs, inside) in ref.items():
        got = seen.pop(k, [])
        if not got:
            e.check(e.NOT(inside), f'{tag}pair {k} within the cutoff is reported')
            continue
        e.check(len(got) == 1, f'{tag}pair {k} is reported once')
        d, w, v = got[0]
        e.check(inside, f'{tag}reported pair {k} is within the cutoff')
        for c in range(3):
            e.check(v[c] == rw[c], f'{tag}bond vector {k} is the wrapped displacement from query point to point')
        e.check(samelen(e, d, e.f32(e.sqrt(rs))), f'{tag}bond distance {k} is the length of the vector')
        if weight:
            e.check(w == 1, f'{tag}bond weight {k} is 1')
    e.check(not seen, f'{tag}no other pairs are reported')


def planes(b):
    """distances of opposite faces"""
    import math
    Lx, Ly, Lz, xy, xz, yz, is2D = b
    if is2D:
        return [Lx / math.sqrt(1 + xy * xy), Ly]
    v1, v2, v3 = [lattice(b, n) for n in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]

    def cr(a, c):
        return [a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]]
    vol = Lx * Ly * Lz
    return [vol / math.sqrt(dot(c, c)) for c in (cr(v2, v3), cr(v3, v1), cr(v1, v2))]


def fixedpts(b, n, seed=1, div=16):
    """n fixed, distinct, irregular points on the 1/div lattice of the cell"""
    out = []
    s = seed * 7919 + 13
    while len(out) < n:
        f = []
        for c in range(3):
            s = (s * 1103515245 + 12345) % 2147483648
            f.append(((s >> 8) % div) / div - 0.5 if not (b[6] and c == 2) else 0.0)
        p = lattice(b, f)
        if p not in out:
            out.append(p)
    return out


def offlattice(r):
    """a cutoff near r whose square no lattice distance equals"""
    return float(int(r * 64)) / 64 + 1 / 128 + 1 / 1024


def oddpts(b, n, seed=1, others=()):
    """n fixed, distinct points at odd 32nds of the cell, no two of them (or of the others) half a box vector apart in any direction"""
    dims = 2 if b[6] else 3
    s = seed * 7919 + 13
    fs = [frac(b, p) for p in others]
    out = []
    while len(out) < n:
        f = [0.0, 0.0, 0.0]
        for c in range(dims):
            s = (s * 1103515245 + 12345) % 2147483648
            f[c] = (2 * ((s >> 8) % 16) + 1) / 32 - 0.5
        if f in fs or any(abs(f[c] - g[c]) == 0.5 for g in fs for c in range(dims)):
            continue
        fs.append(f)
        out.append(lattice(b, f))
    return out


def samelen(e, a, b):
    """equal lengths up to the rounding of single precision"""
    return e.OR(a == b, e.close(a, b, 2e-6))
