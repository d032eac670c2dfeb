"""C10 - an opened file presents exactly its groups"""
import os
import io
import contextlib
import numpy as np
import tables as tb
from vlib import strucmodel, siffile, hydromodel, hiermodel
from vlib.conv import fs
from vlib.siffile import Rec
from vlib.strucapi import raises

KINDS = ('hierT', 'hierR', 'struc', 'strucR', 'hydro')


def deductive(ctx):
    from pyvc import files
    return files.tasks(), files.TRUSTED


def add(ctx, rng, h5, kind, k, mode):
    """convert one more file; -> {key: (class name, top key)}"""
    pre = 'p%d_' % k if rng.random() < .6 else 'Q%d-' % k
    if kind.startswith('hier'):
        d = ctx.path('hier%d' % k)
        os.mkdir(d)
        h = hiermodel.make(rng, kind[4], fileprefix='', missing=.2)
        p = hiermodel.write(h, d, bool(rng.integers(0, 2)), rng, False)
        fs.sif2hdf5(p, h5, append=mode, prefix=pre)
        out = {}
        root = '%s%s%d' % (pre, h.letter, h.occ[0][0])
        for g, a in hiermodel.groups(h, pre).items():
            cls = {'TOPLEVEL': 'TopLevelData', 'INTERLEVEL': 'InterLevelData',
                   'FIRSTLEVEL': 'FirstLevelData'}[a['LEVEL']]
            out[g[1:]] = (cls, None if g[1:] == root else root)
        return out
    t = int(rng.integers(1, 400))
    if kind == 'hydro':
        name, letter, cls = 'G%d' % t, 'G', 'HydroData'
        recs = hydromodel.records(hydromodel.make(
            rng, timedomain=rng.random() < .2, nbody=1))
        recs[0] = Rec('IDENT', (1, t, 3, 0))
    else:
        letter = 'R' if kind == 'strucR' else 'T'
        hd = [Rec('IDENT', (1, t, 3, 0))]
        if letter == 'R':
            hd.append(Rec('HIERARCH', (8, 1, t, 1), (1, 0, 0, 0), (), 't2'))
        recs = strucmodel.records(strucmodel.make(rng, results=False),
                                  header=hd)
        name, cls = '%s%d' % (letter, t), 'FirstLevelData'
    p = siffile.write(recs, ctx.path(name + '.SIF'), True)
    fs.sif2hdf5(p, h5, append=mode, prefix=pre)
    return {pre + name: (cls, None)}


def check(f, want, h5):
    keys = list(f.keys())
    if sorted(keys) != sorted(want):
        return 'keys %s, groups stored %s' % (sorted(keys), sorted(want))
    if len(f.values()) != len(want) or len(f.items()) != len(want):
        return 'values/items of another length'
    vals, items, it = list(f.values()), list(f.items()), list(f)
    if [k for k, _ in items] != keys or any(
            a is not b for a, b in zip(vals, [v for _, v in items])):
        return 'items disagree with keys and values'
    if len(it) != len(vals) or any(a is not b for a, b in zip(it, vals)):
        return 'iteration disagrees with values'
    if len({id(v) for v in vals}) != len(vals):
        return 'one object for several groups'
    lines = [l for l in str(f).split('\n') if l]
    rl = [l for l in repr(f).split('\n') if l]
    if len(lines) != len(want) or len(rl) != len(want):
        return 'string forms list %d and %d objects of %d' % (
            len(lines), len(rl), len(want))
    for k, (cls, top) in want.items():
        v = f[k]
        if f.get(k) is not v or f.get(k, 3) is not v or k not in f or \
                not any(v is x for x in vals):
            return 'get/membership/indexing of %r disagree' % k
        if dict(items)[k] is not v:
            return 'items and indexing disagree on %r' % k
        if type(v).__name__ != cls:
            return '%r is presented as %s, expected %s' % (
                k, type(v).__name__, cls)
        if v._tbgroup._v_pathname != '/' + k or v.name != k.split('/')[-1]:
            return '%r is bound to group %s' % (k, v._tbgroup._v_pathname)
        if v.file is not f:
            return '%r is bound to another file' % k
        t = getattr(v, '_toplevel', None)
        if top is None and t is not None or top is not None and \
                t is not f[top]:
            return '%r has top level %r, expected %s' % (k, t, top)
        if not any(repr(k) in l for l in lines):
            return '%r is not in the string form' % k
    for k in ('nosuch', '', '/', keys[0] + 'x', keys[0].lower() + '?',
              '/' + keys[0], keys[0] + '/'):
        if k in want:
            continue
        e = raises(f.__getitem__, k)
        if not isinstance(e, KeyError):
            return 'indexing with %r: %r' % (k, e)
        if k in f or f.get(k) is not None or f.get(k, 'dflt') != 'dflt':
            return '%r is reported to be contained' % k


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 10)
    for k in range(ctx.budget(8, 120)):
        h5 = ctx.path('f%d.h5' % k)
        want = {}
        n = [1, 2, 3, 5, 4][k % 5]
        with contextlib.redirect_stdout(io.StringIO()):
            for j in range(n):
                kind = KINDS[int(rng.integers(0, 5))]
                want.update(add(ctx, rng, h5, kind, 100*k + j,
                                j > 0))
        if k % 2:      # the optional title of a group is not its name
            with tb.open_file(h5, 'a') as t:
                for g in t.walk_groups():
                    if g._v_name != '/' and rng.random() < .6:
                        g._v_title = str(rng.choice(
                            ['T1', 'a title', 'x/y', '', g._v_name]))
        f = fs.open_hdf5(h5)
        ctx.count('files with 1-5 groups')
        try:
            bad = check(f, want, h5)
        except Exception as e:
            bad = 'raises %r' % (e,)
        if bad:
            ctx.fail(bad, {'groups': {k: v[0] for k, v in want.items()}})
        f.close()
        os.unlink(h5)
    # in-memory files
    for k in range(ctx.budget(2, 10)):
        d = strucmodel.make(rng, results=False)
        p = siffile.write(strucmodel.records(d), ctx.path('mem%d_T1.FEM' % k),
                          True)
        o = fs.open_sif(p)
        ctx.count('in-memory files')
        bad = check(o.file, {'mem%d_T1' % k: ('FirstLevelData', None)}, None)
        if bad or o.file['mem%d_T1' % k] is not o:
            ctx.fail('open_sif: %s' % bad)
        o.close()
