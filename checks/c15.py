"""C15 - superelement coordinates are transformed along the hierarchy"""
import os
import contextlib
import io
import shutil
import numpy as np
import tables as tb
from vlib import hiermodel, strucmodel, siffile
from vlib.conv import fs
from vlib.siffile import Rec
from vlib.strucapi import guarded, raises, opened
from checks.c07 import info


def deductive(ctx):
    from pyvc import trans
    return trans.tasks(), trans.TRUSTED


def close(a, b):
    s = np.abs(b).max() + 1
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5*s)


def one(ctx, rng, letter, k):
    d = ctx.path('h%d' % k)
    os.mkdir(d)
    h = hiermodel.make(rng, letter, missing=.05)
    path = hiermodel.write(h, d, bool(rng.integers(0, 2)), rng, False)
    h5 = ctx.path('h%d.h5' % k)
    with contextlib.redirect_stdout(io.StringIO()):
        fs.sif2hdf5(path, h5)
    f = fs.open_hdf5(h5)
    root = '%s%s%d' % (h.prefix, letter, h.occ[0][0])
    top = f[root]
    inp = info(h)
    inp['transformations'] = {k: v.tolist() for k, v in h.trans.items()}
    try:
        for t, ind, lev, par, ch in h.occ:
            if lev != 1:
                continue
            for level in list(range(-1, h.top + 2)) + ['top']:
                if isinstance(level, int) and rng.random() < .3:
                    level = np.int64(level)
                ctx.count('transformations')
                guarded(ctx, 'superelement %d index %d to level %s' % (
                    t, ind, level), inp,
                    lambda: transf(h, top, t, ind, level))
        for t, ind in ((999, 1), (h.occ[-1][0], 77)):
            for level in (1, 'top', h.top):
                ctx.count('unknown occurrences')
                e = raises(top.get_transformation, t, ind, level)
                if e is None:
                    ctx.fail('unknown occurrence (%d, %d), level %s: no error'
                             % (t, ind, level), inp)
        for fn, (i, ok) in h.files.items():
            t, ind, lev, par, ch = h.occ[i]
            if not ok or lev != 1:
                continue
            name = root + ('/T%d' % t if letter == 'T' else '/R%d_%d' % (
                t, ind))
            inds = [o[1] for o in h.occ if o[0] == t] if letter == 'T' \
                else [ind]
            for index in inds:
                for trans in list(range(1, h.top + 2)) + ['top', None,
                                                          'mat']:
                    ctx.count('coordinates')
                    guarded(ctx, '%s get_nodes(trans=%s, index=%d)' % (
                        name, trans, index), inp,
                        lambda: nodes(h, f[name], fn, t, index, trans, rng,
                                      letter))
            for bad in ('Top', 'x', '1', -1, 0, h.top + 3):
                ctx.count('bad transformation')
                if raises(f[name].get_nodes, trans=bad) is None:
                    ctx.fail('%s get_nodes(trans=%r) raises no error' % (
                        name, bad), inp)
            if letter == 'T' and raises(f[name].get_nodes, trans='top',
                                        index=99) is None:
                ctx.fail('%s get_nodes(trans="top", index=99) raises no '
                         'error' % name, inp)
    finally:
        f.close()
        shutil.rmtree(d)
        os.unlink(h5)


def transf(h, top, t, ind, level):
    want = hiermodel.transformation(h, t, ind, level)
    if want is None:
        if raises(top.get_transformation, t, ind, level) is None:
            return 'no error (level does not exist or occurrence not in it)'
        return
    got = np.asarray(top.get_transformation(t, ind, level))
    if not close(got, want):
        return 'matrix %s, expected %s' % (got.tolist(), want.tolist())


def nodes(h, data, fn, t, index, trans, rng, letter):
    m = h.model[fn]
    sets, kind = None, None
    disc = bool(rng.integers(0, 2))
    if rng.random() < .5:
        s = strucmodel.selections(m, 1, rng)
        if s:
            sets, kind = s[0]
    idx = strucmodel.nodeidx(m, sets, kind, disc)
    xyz = np.column_stack((m.xyz[idx].astype('f8'), np.ones(len(idx))))
    if trans is None:
        M = np.eye(4)
    elif trans == 'mat':
        trans = rng.normal(size=(4, 4)).astype(rng.choice(['f4', 'f8']))
        M = trans
    else:
        M = hiermodel.transformation(h, t, index, trans)
    kw = {'trans': trans}
    if letter == 'T':
        kw['index'] = index
    elif rng.random() < .3:
        kw['index'] = 5      # not relevant for results files
    if M is None:
        if raises(data.get_nodes, sets, kind, disc, **kw) is None:
            return 'no error'
        return
    got = np.array(data.get_nodes(sets, kind, disc, **kw))
    if not close(got, (xyz @ M)[:, :3]):
        return 'coordinates differ from those transformed by %s' % M.tolist()


def plain(ctx, rng):
    """data without a hierarchy"""
    m = strucmodel.make(rng, results=False)
    for letter in 'TR':
        with opened(ctx, m, letter) as d:
            for tr in (1, 2, 'top', 'x'):
                ctx.count('data without hierarchy')
                if raises(d.get_nodes, trans=tr) is None:
                    ctx.fail('get_nodes(trans=%r) on data without hierarchy '
                             'raises no error' % (tr,))
            M = np.arange(16, dtype='f8').reshape(4, 4)
            w = (np.column_stack((m.xyz, np.ones(m.nn))) @ M)[:, :3]
            if not close(np.array(d.get_nodes(trans=M)), w):
                ctx.fail('explicit matrix on data without hierarchy')
            for shape in ((3, 3), (4, 3), (16,)):
                if raises(d.get_nodes, trans=np.ones(shape)) is None:
                    ctx.fail('matrix of shape %s raises no error' % (shape,))
    # first-level results file with its transformation to the top level
    M = np.zeros((4, 4))
    M[:3, :3] = rng.integers(-3, 4, (3, 3))
    M[3] = [5, 6, 7, 1]
    v = M.ravel()
    recs = strucmodel.records(m)
    recs.insert(1, Rec('HIERARCH', (8, 1, 1, 1), (1, 0, 0, 0), (), 't2'))
    recs.insert(2, Rec('RSUPTRAN', [18., 1, v[0], v[1]], v[2:], (), 't2'))
    p = siffile.write(recs, ctx.path('rs_R1.SIF'), True)
    d = fs.open_sif(p)
    ctx.count('RSUPTRAN')
    got = np.array(d.get_nodes(trans='top'))
    if not close(got, (np.column_stack((m.xyz, np.ones(m.nn))) @ M)[:, :3]):
        ctx.fail('coordinates transformed by RSUPTRAN')
    for tr in (1, 2, 'x'):
        if raises(d.get_nodes, trans=tr) is None:
            ctx.fail('get_nodes(trans=%r) without top level raises no error'
                     % (tr,))
    d.close()


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 15)
    for k in range(ctx.budget(14, 200)):
        one(ctx, rng, 'TR'[k % 2], k)
    for k in range(ctx.budget(2, 10)):
        plain(ctx, rng)
