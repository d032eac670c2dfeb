"""Convert generated files with the code under test and compare."""
import os
import numpy as np
import tables as tb
from .common import import_freesif
from . import siffile, oracle
from .records import SPECS
from .siffile import Rec

fs = import_freesif()


def convert(ctx, recs, formatted, rng=None, name='T1.FEM', only=None,
            blocks=None, **kw):
    p = siffile.write(recs, ctx.path(name), formatted, rng, blocks)
    return fs.sif2hdf5(p, in_memory=True, only=only, **kw)


def describe(recs, limit=40):
    out = []
    for r in recs[:limit]:
        out.append('%s %s %s %s' % (r.name, list(r.head), list(r.body)[:60],
                                    list(r.lines)))
    if len(recs) > limit:
        out.append('... %d records' % len(recs))
    return out


def mismatches(ctx, recs, formatted, rng, kinds=('rows', 'links', 'names'),
               only=None, group='/T1', name='T1.FEM', **kw):
    """convert and compare with the oracle -> list of messages"""
    try:
        h5 = convert(ctx, recs, formatted, rng, name, only, **kw)
    except Exception as e:
        tb.file._open_files.close_all()
        return ['conversion of a valid file raises %r' % (e,)]
    try:
        data, order = oracle.decode_file(recs, only)
        g = h5.get_node(group)
        bad = [m for k, m in oracle.compare_group(g, data) if k in kinds]
        if 'names' in kinds:
            got = [n for n in g._f_getattr('RECORDS') if n in SPECS]
            if got != order:
                bad.append('RECORDS attribute %s, read in file order %s' % (
                    got, order))
        return bad
    finally:
        h5.close()


def shrink(recs, test, limit=150):
    """greedy removal of records while `test(recs)` still fails"""
    cur = list(recs)
    n = 0
    step = max(1, len(cur)//2)
    while step >= 1 and n < limit:
        i = 1
        while i < len(cur) - 1 and n < limit:
            cand = cur[:i] + cur[min(i + step, len(cur) - 1):]
            n += 1
            ok = False
            try:
                ok = bool(cand != cur and test(cand))
            except Exception:
                ok = False
            if ok:
                cur = cand
            else:
                i += step
        step //= 2
    return cur


def check_file(ctx, recs, formatted, seed, kinds, what, only=None, **kw):
    rng = np.random.default_rng(seed)
    bad = mismatches(ctx, recs, formatted, rng, kinds, only, **kw)
    ctx.count(what)
    if bad:
        ctx.fail('%s (%sformatted file): %s' % (
            what, '' if formatted else 'un', bad[0]),
            {'records': describe(recs), 'formatted': formatted,
             'only': only, 'all': bad[:10], 'blocking_seed': seed})
    return not bad
