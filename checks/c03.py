"""C03 - every field of every supported record is stored under its column"""
import numpy as np
from vlib.conv import check_file, describe
from vlib.recgen import GENERAL_NAMES, random_file, Gen
from vlib.siffile import Rec

KINDS = ('rows', 'names')


def deductive(ctx):
    from pyvc import readers
    return readers.tasks('rows'), readers.TRUSTED


def each_type(ctx, rng, kinds, reps, maxrun):
    """every type, in both formats, in runs of one and several records"""
    for rep in range(reps):
        names = [str(n) for n in rng.permutation(GENERAL_NAMES)]
        for fmt in (True, False):
            for c in range(0, len(names), 14):
                recs = random_file(rng, nruns=0, cover=names[c:c+14],
                                   maxrun=maxrun)
                check_file(ctx, recs, fmt, rep, kinds, 'files, every type')


def hierarchies(ctx, rng, kinds, n):
    """HIERARCH tables"""
    for k in range(n):
        g = Gen(rng)
        recs = [Rec('IDENT', (1, 1, 3, 0))] if rng.random() < .5 else []
        m = int(rng.integers(1, 6))
        hs = []
        for i in range(m):
            ns = int(rng.integers(0, 7))
            hs.append(Rec('HIERARCH', [8. + ns, float(i + 1),
                                       1. if i == 0 else g.i(2, 60), 2.],
                          [1., g.i(), g.i(0, 9), float(ns)] + g.is_(ns), (),
                          't2'))
        recs += hs
        for nm in ('HSUPTRAN', 'GCOORD'):
            recs += [g.make(nm) for _ in range(int(rng.integers(1, 4)))]
        if recs[0].name != 'IDENT':
            recs.insert(int(rng.integers(m, len(recs)+1)),
                        Rec('IDENT', (1, 1, 3, 0)))
        recs.append(Rec('IEND', (0, 0, 0, 0)))
        check_file(ctx, recs, k % 2 == 0, k, kinds, 'hierarchy files')


def random_files(ctx, rng, kinds, n):
    for k in range(n):
        names = list(rng.permutation(GENERAL_NAMES)[:12])
        recs = random_file(rng, nruns=10, cover=names,
                           maxrun=int(rng.choice([1, 3, 8])))
        check_file(ctx, recs, k % 2 == 0, k, kinds, 'random files')


def long_runs(ctx, rng, kinds, n):
    for k in range(n):
        names = list(rng.permutation(GENERAL_NAMES)[:4])
        recs = random_file(rng, nruns=2, cover=names, maxrun=300)
        check_file(ctx, recs, k % 2 == 0, k, kinds, 'long runs')


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 3)
    each_type(ctx, rng, KINDS, ctx.budget(3, 30), 3)
    hierarchies(ctx, rng, KINDS, ctx.budget(12, 200))
    random_files(ctx, rng, KINDS, ctx.budget(20, 700))
    long_runs(ctx, rng, KINDS, ctx.budget(4, 60))
