"""C04 - variable-length data are linked to exactly their own record"""
import numpy as np
from vlib.records import SPECS
from vlib.conv import check_file
from vlib.recgen import GENERAL_NAMES, random_file
from . import c03

KINDS = ('links',)
VL = [n for n in GENERAL_NAMES if SPECS[n].comps]


def deductive(ctx):
    from pyvc import readers
    return readers.tasks('links'), readers.TRUSTED


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 4)
    reps = ctx.budget(6, 60)
    for rep in range(reps):
        names = [str(n) for n in rng.permutation(VL)]
        for fmt in (True, False):
            for c in range(0, len(names), 12):
                recs = random_file(rng, names, nruns=6,
                                   cover=names[c:c+12], maxrun=3)
                check_file(ctx, recs, fmt, rep, KINDS,
                           'files, every variable-length type')
    c03.hierarchies(ctx, rng, KINDS, ctx.budget(12, 200))
    # several runs of the same types
    for k in range(ctx.budget(20, 500)):
        names = [str(n) for n in rng.permutation(VL)[:3]]
        recs = random_file(rng, names, nruns=14, cover=names, maxrun=2)
        check_file(ctx, recs, k % 2 == 0, k, KINDS, 'repeated runs')
    c03.random_files(ctx, rng, KINDS, ctx.budget(8, 300))
