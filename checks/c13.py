"""C13 - node results are aligned with the nodes of the same selection"""
import numpy as np
from vlib import strucmodel as S
from vlib.strucapi import (opened_all, describe, guarded, raises,
                           interleave)

TYPES = (('displacement', 'DIS'), ('velocity', 'VEL'), ('acceleration',
                                                        'ACC'))


def deductive(ctx):
    from pyvc import noderes
    return noderes.tasks(), noderes.TRUSTED


def check(m, d, restype, key, run, rescases, sets, kind, disc):
    want_cases = S.pick_cases(m, run, None if rescases is None else
                              np.atleast_1d(rescases).tolist())
    flags = {c[3] for c in want_cases}
    if len(flags) > 1:
        if raises(d.get_noderesults, restype, run, rescases, sets, kind,
                  disc) is None:
            return 'mixed real and complex cases raise no error'
        return
    r = np.array(d.get_noderesults(restype, run, rescases, sets, kind, disc))
    nodes = np.array(d.get_nodenumbers(sets, kind, disc,
                                       numbertype='internal')) - 1
    if not np.array_equal(nodes, S.nodeidx(m, sets, kind, disc)):
        return 'nodes %s' % nodes
    want = np.array([m.noderes[key, c[0]][nodes] for c in want_cases])
    if len(want_cases) == 1:
        want = want[0]
    if r.shape != want.shape:
        return 'shape %s, expected %s' % (r.shape, want.shape)
    if (r.dtype.kind == 'c') != (1 in flags):
        return 'dtype %s for complex flag %s' % (r.dtype, flags)
    if not np.array_equal(r, want):
        i = np.argwhere(r != want)[0]
        return 'value at %s is %r, expected %r' % (i.tolist(), r[tuple(i)],
                                                   want[tuple(i)])


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 13)
    for k in range(ctx.budget(6, 110)):
        ms = [S.make(rng, cplx=[0, 1, 0, 2][(2*k + i) % 4],
                     nres=[1, 2, 3, 4][(k//2) % 4]) for i in range(2)]
        with opened_all(ctx, ms) as ds:
            jobs = []
            for m, d in zip(ms, ds):
                for sets, kind, disc in [
                        (s, q, b) for s, q in S.selections(m, 5, rng) +
                        [(None, None)] for b in (False, True)]:
                    restype, key = TYPES[int(rng.integers(0, 3))]
                    run = int(rng.integers(1, 3))
                    have = [c[2] for c in S.pick_cases(m, run, None)]
                    if not have:
                        run = 3 - run
                        have = [c[2] for c in S.pick_cases(m, run, None)]
                    q = rng.integers(0, 5)
                    n = int(rng.integers(1, len(have) + 1))
                    some = [int(x) for x in rng.permutation(have)[:n]]
                    cases = [None, int(rng.choice(have)), some, tuple(some),
                             np.array(some)][q]
                    a = (restype, key, run, cases, sets, kind, disc)
                    jobs.append((m, d, a))
                    # the same with one thing changed
                    if rng.random() < .3:
                        restype, key = TYPES[int(rng.integers(0, 3))]
                        jobs.append((m, d, (restype, key) + a[2:]))
                    other = S.pick_cases(m, 3 - run, None)
                    if other and rng.random() < .3:
                        jobs.append((m, d, (restype, key, 3 - run, None) +
                                     a[4:]))
            for m, d, a in interleave(rng, jobs):
                ctx.count('selections')
                guarded(ctx, '%s run=%d rescases=%r sets=%r kind=%r '
                        'disconnected=%r' % (a[:1] + a[2:]), describe(m),
                        lambda: check(m, d, *a))
            for bad in ('displacements', 'x', None):
                for d in ds:
                    if raises(d.get_noderesults, bad) is None:
                        ctx.fail('result type %r raises no error' % (bad,))
