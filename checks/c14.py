"""C14 - element results are exact for linear stress fields at the element
nodes"""
import numpy as np
from vlib import strucmodel as S
from vlib.strucapi import (opened_all, describe, guarded, raises,
                           interleave)


def deductive(ctx):
    from pyvc import elres, elrows
    return elres.tasks() + elrows.tasks(ctx.quick), \
        elres.TRUSTED + elrows.TRUSTED


def check(m, d, restype, run, rescases, sets):
    cases = S.pick_cases(m, run, None if rescases is None else
                         np.atleast_1d(rescases).tolist())
    kind = 'beam' if restype == 'beamforce' else 'shell'
    sel = S.elems(m, sets, kind)
    args = dict(run=run, rescases=rescases, sets=sets)
    if len({c[3] for c in cases}) > 1:
        if raises(d.get_elementresults, restype, **args) is None:
            return 'mixed real and complex cases raise no error'
        return
    r = np.array(d.get_elementresults(restype, **args))
    want = np.array([np.concatenate([S.element_result(
        int(m.eltyp[e]), restype, m.elres[c[0], e]) for e in sel])
        for c in cases])
    if len(cases) == 1:
        want = want[0]
    if r.shape != want.shape:
        return 'shape %s, expected %s' % (r.shape, want.shape)
    if (r.dtype.kind == 'c') != (cases[0][3] == 1):
        return 'dtype %s, complex flag %d' % (r.dtype, cases[0][3])
    scale = np.abs(want).max() + 1e-30
    if not np.allclose(r, want, rtol=2e-5, atol=2e-5*scale):
        i = np.argwhere(~np.isclose(r, want, rtol=2e-5, atol=2e-5*scale))[0]
        return 'value at %s is %r, expected %r' % (i.tolist(), r[tuple(i)],
                                                   want[tuple(i)])


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 14)
    for k in range(ctx.budget(7, 130)):
        ms = [S.make(rng, cplx=[0, 1, 0, 2][(2*k + i) % 4],
                     nres=[1, 2, 3, 4][(k//2) % 4], thick=i == 0)
              for i in range(2)]
        with opened_all(ctx, ms) as ds:
            jobs = []
            for m, d, restype in [
                    (a, b, c) for a, b in zip(ms, ds) for c in (
                        'beamforce', 'generalstress', 'decomposedstress')]:
                kind = 'beam' if restype == 'beamforce' else 'shell'
                for sets in [None] + [s for s, _ in
                                      S.selections(m, 5, rng)]:
                    if not len(S.elems(m, sets, kind)):
                        continue
                    run = int(rng.integers(1, 3))
                    have = [c[2] for c in S.pick_cases(m, run, None)]
                    if not have:
                        run = 3 - run
                        have = [c[2] for c in S.pick_cases(m, run, None)]
                    n = int(rng.integers(1, len(have) + 1))
                    some = [int(x) for x in rng.permutation(have)[:n]]
                    cases = [None, int(rng.choice(have)), some][
                        int(rng.integers(0, 3))]
                    jobs.append((m, d, (restype, run, cases, sets)))
                    if S.pick_cases(m, 3 - run, None) and rng.random() < .3:
                        jobs.append((m, d, (restype, 3 - run, None, sets)))
            for m, d, a in interleave(rng, jobs):
                ctx.count('selections')
                guarded(ctx, '%s run=%d rescases=%r sets=%r' % a,
                        describe(m), lambda: check(m, d, *a))
            for bad in ('stress', 'x', None):
                for d in ds:
                    if raises(d.get_elementresults, bad) is None:
                        ctx.fail('result type %r raises no error' % (bad,))
