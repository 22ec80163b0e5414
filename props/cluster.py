import math
from sym.registry import prop, scen
from props.common import *
from props.locality import mknl, outcome, rmax, mkq
from props.box import samefrac

CB = [CUBE, ORTHO2, TRIC, TRIC2, SQ, RECT, TIL2B]


def components(n, edges):
    """lists of members, largest component first, equal sizes by their smallest member"""
    comp = list(range(n))
    for a, b in edges:
        ca, cb = comp[a], comp[b]
        comp = [min(ca, cb) if c in (ca, cb) else c for c in comp]
    out = {}
    for i, c in enumerate(comp):
        out.setdefault(c, []).append(i)
    return sorted(out.values(), key=lambda m: (-len(m), m[0]))


def check_clusters(e, f, n, edges, keys=None, tag=''):
    want = components(n, edges)
    idx = [e.conc(x) for x in e.el(f.cluster_idx)]
    e.check(len(idx) == n, tag + 'one cluster index per point')
    e.check(f.num_clusters == len(want), tag + 'the number of clusters is the number of connected components')
    e.check([[i for i in range(n) if idx[i] == c] for c in range(len(want))] == want, tag + 'clusters are the connected components, largest first, equal sizes by smallest point')
    got = [[e.conc(k) for k in c] for c in f.cluster_keys]
    e.check(got == [[(keys[i] if keys else i) for i in m] for m in want], tag + 'the keys of a cluster are those of its points in order')


# ------------------------------------------------------------------------------------------- C01
prop('C01', ['_cluster'], bounds='neighbour lists of up to 4 (thorough 5) points with 3 (thorough 4) bonds of symbolic endpoints, self bonds and duplicates included, on 5 schedules of the loop; default ball queries with 2 symbolic points among 4 to 5 in 4 (thorough 7) boxes; keys',
     assumptions=('no pair distance equals the cutoff', 'chunks of the parallel loop run one after another, in any of the modelled orders'))


@scen('C01', [(4, 3)], [(4, 3), (5, 3), (4, 4)])
def components_of_lists(e):
    """every list of bonds"""
    n, m = e.case
    e.schedule(e.choice('schedule', ['rev', 'each'] if e.case == (4, 3) else ['two']))
    qi = [e.pickint(f'q{k}', range(n)) for k in range(m)]
    for k in range(m - 1):
        e.assume(qi[k] <= qi[k + 1])
    qi = [e.conc(x) for x in qi]
    pi = [e.conc(e.pickint(f'p{k}', range(n))) for k in range(m)]
    nl = mknl(e, n, n, qi, pi, [[1.0 + k, 0, 0] for k in range(m)])
    f = e.freud.cluster.Cluster()
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, n))), neighbors=nl)
    check_clusters(e, f, n, list(zip(qi, pi)))


@scen('C01')
def larger_lists(e):
    """chains, rings and stars of 9 points joined by two symbolic bonds; keys with repetitions"""
    n = 9
    e.schedule(e.choice('schedule', ['one', 'rev', 'each']))
    base = e.choice('base', [[(0, 8), (1, 7), (2, 6)], [(3, 4), (4, 5), (6, 5), (7, 8)], [(2, 0), (2, 1), (8, 7), (8, 6)], [(1, 2), (1, 3), (4, 0)]])
    extra = [(e.conc(e.pickint('a', [0, 3, 8])), e.conc(e.pickint('b', [1, 5, 6]))), (4, e.conc(e.pickint('c', [0, 4, 7])))]
    ed = sorted(base + extra)
    keyed = e.choice('keys', [False, True])
    keys = [7, 7, 0, 4000000000, 3, 3, 3, 1, 2] if keyed else None
    nl = mknl(e, n, n, [a for a, _ in ed], [c for _, c in ed], [[1.0 + k, 0, 0] for k in range(len(ed))])
    f = e.freud.cluster.Cluster()
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, n))), keys=keys, neighbors=nl)
    check_clusters(e, f, n, ed, keys)
    # a second computation starts afresh
    nl2 = mknl(e, n, n, [5], [2], [[1.0, 0, 0]])
    f.compute((mkbox(e, (16, 16, 16, 0, 0, 0, False)), e.array(fixedpts(CUBE, n))), neighbors=nl2)
    check_clusters(e, f, n, [(5, 2)], tag='second use: ')


@scen('C01', [(ORTHO2, 2), (TRIC2, 2), (TIL2B, 4), (RECT, 4)], [(b, 4) for b in CB])
def components_of_systems(e):
    """bonds from a ball query with a cutoff"""
    b, div = e.case
    r = e.choice('r_max', [rmax(b), offlattice(rmax(b) * 0.6)])
    pts = [fixedpts(b, 1)[0], cellpoint(e, 'p', b, div), fixedpts(b, 2)[1], cellpoint(e, 's', b, 2)]
    f = e.freud.cluster.Cluster()
    f.compute((mkbox(e, b), e.array(pts)), neighbors={'r_max': r})
    ref = pairs_within(e, b, pts, pts, r, 0.0, True)
    check_clusters(e, f, 4, [k for k, (_, _, ins) in ref.items() if k[0] < k[1] and e.conc(ins)])


# ------------------------------------------------------------------------------------------- C02
prop('C02', ['_cluster'], bounds='4 points with symbolic cluster ids 0 to 2 (every used id range without gaps) in any order, one symbolic coordinate on 16 values along each axis, distinct masses or none; 5 boxes (thorough 7)',
     assumptions=('every id up to the largest is used', 'mean resultant length of every cluster at least 0.1 (otherwise the centre is undefined)', 'tolerance 3e-4 box lengths for centres, 2e-3 relative to the squared box length for tensors'))


@scen('C02', [(ORTHO2, 0), (TRIC, 1), (TRIC2, 2), (RECT, 1), (TIL2B, 0)], [(b, a) for b in CB for a in range(3) if not (b[6] and a == 2)])
def properties(e):
    b, a = e.case
    box = mkbox(e, b)
    n = 4
    ids = [e.conc(e.pickint(f'c{k}', [0, 1, 2])) for k in range(n)]
    e.assume(sorted(set(ids)) == list(range(max(ids) + 1)))
    nc = max(ids) + 1
    fs = [[0.125, 0.3125, 0.4375], [0.25, 0.0625, 0.625], [0.0, 0.9375, 0.5], [0.1875, 0.25, 0.6875]]
    fs[2][a] = e.grid('f', 0, 15 / 16, 1 / 16)
    if b[6]:
        for f in fs:
            f[2] = 0.5
    pts = [lattice(b, [x - 0.5 for x in f]) for f in fs]
    masses = e.choice('masses', [None, [1.0, 2.0, 0.5, 3.0], [4.0, 0.0, 1.0, 1.0]])
    ms = masses or [1.0] * n
    if any(sum(ms[i] for i in range(n) if ids[i] == c) == 0 for c in range(nc)):
        e.assume(False)
    dims = range(2 if b[6] else 3)
    ok = True
    for c in range(nc):
        mem = [i for i in range(n) if ids[i] == c]
        for w in (ms, [1.0] * n):
            cc, ss, tt = circ_of(e, [fs[i][a] for i in mem], [w[i] for i in mem])
            ok = e.AND(ok, cc * cc + ss * ss >= 0.01 * tt * tt)
    e.assume(ok)
    f = e.freud.cluster.ClusterProperties()
    f.compute((box, e.array(pts)), ids, masses=masses)
    cen, com, gyr, ine = e.el(f.centers), e.el(f.centers_of_mass), e.el(f.gyrations), e.el(f.inertia_tensors)
    siz, mas, rog = e.el(f.sizes), e.el(f.cluster_masses), e.el(f.radii_of_gyration)
    e.check(len(cen) == len(com) == len(gyr) == len(ine) == len(siz) == len(mas) == len(rog) == nc, 'one entry per cluster')
    L2 = max(b[k] for k in dims) ** 2
    for c in range(nc):
        mem = [i for i in range(n) if ids[i] == c]
        M = sum(ms[i] for i in mem)
        e.check(siz[c] == len(mem), 'the size is the number of points')
        e.check(e.close(mas[c], M, 1e-5), 'the mass is the sum of the masses')
        for got, w, what in ((cen[c], [1.0] * n, 'centre'), (com[c], ms, 'centre of mass')):
            g = frac(b, got)
            for ax in dims:
                e.check(samefrac(e, g[ax] + 0.5, *circ_of(e, [fs[i][ax] for i in mem], [w[i] for i in mem])), f'the {what} of a cluster is the periodic mean of its points with their own weights')
            if b[6]:
                e.check(got[2] == 0, 'the centre lies in the plane')
        G = [[0.0] * 3 for _ in range(3)]
        I = [[0.0] * 3 for _ in range(3)]
        # points half a box away from the centre may be taken at either side
        clear = True
        for i in mem:
            for base, T, in ((cen[c], G), (com[c], I)):
                d0 = sub(pts[i], base)
                fd = frac(b, d0)
                for ax in dims:
                    u = fd[ax] + 0.5 - e.floor(fd[ax] + 0.5)
                    clear = e.AND(clear, u >= 2e-3, u <= 1 - 2e-3)
                d = wrapv(e, b, d0)
                for p in range(3):
                    for q in range(3):
                        if T is G:
                            T[p][q] = T[p][q] + d[p] * d[q] * (1 / len(mem))
                        else:
                            T[p][q] = T[p][q] - d[p] * d[q] * ms[i]
                if T is I:
                    s = dot(d, d) * ms[i]
                    for p in range(3):
                        T[p][p] = T[p][p] + s
        tr = 0.0
        for p in range(3):
            for q in range(3):
                e.check(e.OR(e.NOT(clear), e.close(gyr[c][p][q], G[p][q], 1e-4 * L2)), 'the gyration tensor is the mean product of the components about the geometric centre')
                e.check(e.OR(e.NOT(clear), e.close(ine[c][p][q], I[p][q], 1e-4 * L2 * n)), 'the inertia tensor is the mass-weighted tensor about the centre of mass')
            tr = tr + I[p][p]
        e.check(e.OR(e.NOT(clear), e.close(rog[c] * rog[c], tr * (1 / (2 * M)), 1e-3 * L2)), 'the radius of gyration is the root mean square distance from the centre of mass')


def circ_of(e, fs, ms):
    from props.box import circ
    return circ(e, fs, ms)


@scen('C02')
def wrong_lengths(e):
    """ids and masses must belong to the points"""
    n = 3
    k, m = e.conc(e.pickint('ids', [2, 3, 4])), e.conc(e.pickint('masses', [0, 2, 3, 4]))
    f = e.freud.cluster.ClusterProperties()
    _, err = outcome(lambda: f.compute((mkbox(e, CUBE), e.array(fixedpts(CUBE, n))), [0, 1, 0, 1][:k], masses=[1.0, 2.0, 3.0, 4.0][:m] if m else None))
    e.check((err is None) == (k == n and m in (0, n)), 'ids and masses of other lengths than the points, and only these, are refused')
