"""C21 - section properties, thicknesses and result case names match"""
import numpy as np
from vlib import strucmodel as S
from vlib.strucapi import opened_all, describe, guarded, interleave



def deductive(ctx):
    from pyvc import struc
    return struc.tasks21(), struc.TRUSTED


def props(m, d, sets):
    b, s = S.elems(m, sets, 'beam'), S.elems(m, sets, 'shell')
    if len(b):
        p = d.get_section_properties(sets)
        if len(p) != len(b):
            return '%d sections for %d beams' % (len(p), len(b))
        cols = [c for c in p.dtype.names if c != 'geono']
        for i, e in enumerate(b):
            k = list(m.bgeo).index(m.geono[e])
            row = [float(p[i][c]) for c in cols]
            # column 2 of the record is not used by the format definition
            want = [float(x) for x in m.gbeamg[k]]
            if int(p[i]['geono']) != m.geono[e]:
                return 'beam %d: section of geometry %d, expected %d' % (
                    i, p[i]['geono'], m.geono[e])
            if not set(want[:2] + want[2:]) >= set(
                    x for x in row if x != 0.):
                return 'beam %d: section %s, expected %s' % (i, row, want)
    if len(s):
        t = np.array(d.get_shell_thicknesses(sets))
        w = np.array([m.gelth[list(m.tgeo).index(m.geono[e])] for e in s],
                     'f4')
        if not np.array_equal(t, w):
            return 'thicknesses %s, expected %s' % (t, w)


def names(m, d, rescases):
    got = d.get_resultcase_names(rescases)
    sel = None if rescases is None else set(np.atleast_1d(
        np.array(rescases, int)).tolist())
    want = {k: v for k, v in m.loadnames.items() if sel is None or k in sel}
    g = {int(k): (v.decode() if isinstance(v, bytes) else str(v))
         for k, v in got.items()}
    if g != want:
        return 'names %s, expected %s' % (g, want)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 21)
    for k in range(ctx.budget(7, 100)):
        ms = [S.make(rng, results=False) for i in range(2)]
        with opened_all(ctx, ms) as ds:
            jobs = []
            for m, d in zip(ms, ds):
                for sets in [None] + [s for s, _ in S.selections(m, 8, rng)]:
                    jobs.append(('selections', m, d, sets))
                keys = list(m.loadnames)
                some = [int(x) for x in rng.permutation(keys)[
                    :int(rng.integers(0, len(keys)+1))]]
                for rc in (None, keys[0], some, tuple(some), np.array(
                        some, int), some + [97], 97, keys + [98]):
                    jobs.append(('result case names', m, d, rc))
            for what, m, d, arg in interleave(rng, jobs):
                ctx.count(what)
                if what == 'selections':
                    guarded(ctx, 'sets=%r' % (arg,), describe(m),
                            lambda: props(m, d, arg))
                else:
                    guarded(ctx, 'get_resultcase_names(%r), cases %s' % (
                        arg, m.loadnames), describe(m),
                        lambda: names(m, d, arg))
