import numpy as np
from sym.registry import prop, scen
from props.zoo import *
from props.locality import outcome

MODS = ['_density', '_cluster', '_pmft', '_order', '_environment', '_diffraction']

# ------------------------------------------------------------------------------------------- A01
prop('A01', MODS, bounds='every compute class, systems of 3 to 5 points (2D and 3D, different boxes and numbers of points), one position of each on 8 positions of the cell; pairs of systems in both orders; accumulation of two frames',
     assumptions=('the Python objects returned keep the memory of their arrays alive (not modelled)',))


@scen('A01', COMPUTE)
def before(e):
    ent = ZOO[e.case]
    o = ent.build(e)
    for a in ent.attrs:
        try:
            getattr(o, a)
            ok = False
        except AttributeError:
            ok = True
        e.check(ok, f'{a} is not available before compute')


@scen('A01', [(n, 0, 1) for n in COMPUTE], [(n, a, b) for a, b in ((0, 1), (1, 0), (2, 0), (0, 2), (1, 1)) for n in COMPUTE])
def recomputed(e):
    name, *ab = e.case
    ent = ZOO[name]
    a, b = e.choice('order', [ab, ab[::-1]])
    o = ent.build(e)
    s1 = ent.run(e, o, a)
    look = e.choice('look', [True, False])
    first = outputs(e, o, ent) if look else {}
    s2 = ent.run(e, o, b)
    second = outputs(e, o, ent)
    f = ent.build(e)
    ent.run(e, f, b)
    fresh = outputs(e, f, ent)
    e.refresh()
    for k, (x, vals) in first.items():
        e.check(same(e, values(e, x), vals, 0), f'{k} obtained earlier keeps its values')
    for k, (x, vals) in second.items():
        e.check(same(e, vals, fresh[k][1], 0), f'{k} is that of the last computation alone')
        e.check(same(e, values(e, x), vals, 0), f'{k} does not change afterwards')
    for s in (s1, s2):
        for old, new in s.unchanged():
            e.check(same(e, old, new, 0), 'arrays passed in are left as they are')


# ------------------------------------------------------------------------------------------- T01
prop('T01', MODS, race=True, bounds='every compute class and query of this build on a system of 3 to 5 points, one on 8 positions of the cell; every loop divided one way for each of four schedules (one worker; two workers, second half first; every iteration its own worker, in order; two workers alternating, in reverse order); conflicts looked for between all pairs of iterations',
     assumptions=('a data race is a pair of accesses of the same memory by two iterations of a parallel loop, one of them a store that changes the value', 'accesses under a lock of any kind and within the concurrent containers of TBB do not conflict', 'tolerance 1e-3 for sums of floating point numbers taken in another order'))


@scen('T01', [(n, 1) for n in ZOO] + [(n, 2) for n in ('RDF', 'CorrelationFunction', 'Box', 'BondOrder', 'GaussianDensity', 'FilterRAD')], [(n, v) for v in range(3) for n in ZOO])
def schedules(e):
    name, v = e.case
    ent = ZOO[name]
    if e.native:
        big(e, ent)
        return
    e.schedule('one')
    o = ent.build(e)
    ent.run(e, o, v)
    want = {k: x[1] for k, x in outputs(e, o, ent).items()}
    mode = e.choice('schedule', ['two', 'rev', 'each'])
    if mode == 'each':
        e.races()
    else:
        e.schedule(mode)
    o = ent.build(e)
    ent.run(e, o, v)
    got = outputs(e, o, ent)
    for k, (x, vals) in got.items():
        e.check(same(e, vals, want[k], 0 if k in ent.exact else 1e-3), f'{k} does not depend on the number of threads')


def big(e, ent, times=4):
    out = []
    for n in [1] + [8] * times:
        with e.freud.parallel.NumThreads(n):
            o = ent.build(e)
            ent.run(e, o, 'big')
            out.append({k: x[1] for k, x in outputs(e, o, ent).items()})
    for other in out[1:]:
        for k, vals in other.items():
            e.check(same(e, vals, out[0][k], 0 if k in ent.exact else 1e-3), f'{k} does not depend on the number of threads')


@scen('T01')
def numbers(e):
    """contexts restore the number of threads that was set when they were entered"""
    par = e.freud.parallel
    old = par.get_num_threads()
    try:
        a, b, c = [e.choice(k, [None, 1, 3, 0, -1]) for k in 'abc']
        val = lambda x: 0 if x is None or x < 0 else x
        par.set_num_threads(a)
        e.check(par.get_num_threads() == val(a), 'the number set is the number reported')
        early = par.NumThreads(c)
        with par.NumThreads(b) as ctx:
            e.check(par.get_num_threads() == val(b), 'the number of a context holds within it')
            with early:
                e.check(par.get_num_threads() == val(c), 'the number of the inner context holds within it')
            e.check(par.get_num_threads() == val(b), 'leaving a context restores the number that held when it was entered')
            try:
                with par.NumThreads(c):
                    raise KeyError
            except KeyError:
                pass
            e.check(par.get_num_threads() == val(b), 'errors leave a context as well')
        e.check(par.get_num_threads() == val(a), 'leaving a context restores the number that held when it was entered')
        par.set_num_threads(c)
        with ctx:
            e.check(par.get_num_threads() == val(b), 'the number of a context holds within it')
        e.check(par.get_num_threads() == val(c), 'leaving a context restores the number that held when it was entered')
    finally:
        par.set_num_threads(old)
