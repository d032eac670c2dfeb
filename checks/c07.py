"""C07 - superelement hierarchies are read completely, once, into the right
groups"""
import io
import os
import contextlib
import numpy as np
import tables as tb
from vlib import hiermodel, oracle, siffile
from vlib.conv import fs
from vlib.records import SPECS
from vlib.siffile import Rec


def info(h):
    return {'occurrences (iselty, indsel, islevl, parent, children)': h.occ,
            'files': {k: ('present' if v[1] else 'missing')
                      for k, v in h.files.items()}, 'prefix': h.prefix}


def one(ctx, rng, letter, fmt, k):
    d = ctx.path('h%d' % k)
    os.mkdir(d)
    h = hiermodel.make(rng, letter)
    path = hiermodel.write(h, d, fmt, rng)
    kw = {}
    pre = h.prefix
    if rng.random() < .3:
        kw['prefix'] = 'new_'
        pre = 'new_' + pre
    if rng.random() < .3:
        kw['usefileprefix'] = False
        pre = kw.get('prefix', '')
    old = os.getcwd()
    out = io.StringIO()
    try:
        if rng.random() < .3:
            os.chdir(d)
            path = os.path.basename(path)
        with contextlib.redirect_stdout(out):
            h5 = fs.sif2hdf5(path, in_memory=True, **kw)
    except Exception as e:
        tb.file._open_files.close_all()
        ctx.fail('hierarchy of %d superelements: conversion raises %r' % (
            len(h.occ), e), info(h))
        return
    finally:
        os.chdir(old)
    ctx.count('%s hierarchies' % letter)
    try:
        bad = compare(ctx, h, h5, pre, out.getvalue())
    finally:
        h5.close()
    if bad:
        ctx.fail('%s hierarchy: %s' % (letter, bad), info(h))


def compare(ctx, h, h5, pre, text):
    want = hiermodel.groups(h, pre)
    got = {g._v_pathname for g in h5.walk_groups() if g._v_pathname != '/'}
    if got != set(want):
        return 'groups %s stored, expected %s' % (sorted(got), sorted(want))
    for p, attrs in want.items():
        g = h5.get_node(p)
        for a, v in attrs.items():
            try:
                x = g._f_getattr(a)
            except Exception:
                return '%s: attribute %s is missing' % (p, a)
            if x != v:
                return '%s: attribute %s is %r, expected %r' % (p, a, x, v)
    # contents of every group are those of its own file
    root = '/%s%s%d' % (pre, h.letter, h.occ[0][0])
    for fn, (i, ok) in h.files.items():
        rep = [l for l in text.splitlines()
               if 'not found' in l and l.split(':')[-1].strip().split('.')[0]
               == fn]
        if ok:
            if rep:
                return 'file %s reported missing' % fn
            t, ind, lev, par, ch = h.occ[i]
            p = root + ('/T%d' % t if h.letter == 'T' else '/R%d_%d' % (t,
                                                                        ind))
            m = h.model[fn]
            g = h5.get_node(p)
            names = list(g._f_getattr('RECORDS'))
            if len(set(names)) != len(names):
                return '%s: RECORDS has duplicates %s' % (p, names)
            idn = h5.get_node(p + '/ident').read()
            if len(idn) != 1 or idn['seltyp'][0] != t:
                return '%s: holds the data of superelement %s' % (
                    p, idn['seltyp'])
            if m is not None:
                xyz = h5.get_node(p + '/gcoord').read()
                if not np.array_equal(xyz['xcoord'], m.xyz[:, 0]):
                    return '%s: holds the data of another file' % p
                leaf = {n._v_name for n in g._f_iter_nodes('Table')}
                if {n.lower() for n in names if n in SPECS} != leaf:
                    return '%s: RECORDS %s, stored %s' % (p, names,
                                                          sorted(leaf))
        elif not rep:
            return 'missing file %s not reported' % fn
    g = h5.get_node(root)
    n = len(g.hierarch.read())
    if n != len(h.occ):
        return 'hierarch table has %d rows for %d records' % (n, len(h.occ))
    return None


def direct(ctx, rng, k):
    """a results file with one superelement (direct analysis)"""
    d = ctx.path('d%d' % k)
    os.mkdir(d)
    t = int(rng.integers(1, 99))
    recs = [Rec('IDENT', (1, t, 3, 0)),
            Rec('HIERARCH', (8, 1, t, 1), (1, 0, 0, 0), (), 't2'),
            Rec('GCOORD', (1, 2, 3, 4)), Rec('IEND', (0, 0, 0, 0))]
    p = siffile.write(recs, os.path.join(d, 'R%d.SIU' % t), bool(k % 2), rng)
    h5 = fs.sif2hdf5(p, in_memory=True)
    ctx.count('direct analysis')
    try:
        got = {g._v_pathname for g in h5.walk_groups() if g._v_pathname !=
               '/'}
        if got != {'/R%d' % t}:
            ctx.fail('direct analysis: groups %s' % got)
            return
        g = h5.get_node('/R%d' % t)
        a = {x: g._f_getattr(x) for x in ('LEVEL', 'DATATYPE', 'SELTYP',
                                          'FILETYPE', 'RECORDS')}
        w = dict(LEVEL='FIRSTLEVEL', DATATYPE='STRUCTURAL', SELTYP=t,
                 FILETYPE='R', RECORDS=['IDENT', 'HIERARCH', 'GCOORD',
                                        'IEND'])
        a['RECORDS'] = list(a['RECORDS'])
        if a != w:
            ctx.fail('direct analysis: attributes %s, expected %s' % (a, w))
    finally:
        h5.close()


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 7)
    n = ctx.budget(10, 160)
    for k in range(n):
        one(ctx, rng, 'TR'[k % 2], bool((k//2) % 2), k)
    for k in range(4):
        direct(ctx, rng, k)
    # files without a hierarchy
    for letter, lev, typ in (('T', 'FIRSTLEVEL', 'STRUCTURAL'),
                             ('L', 'FIRSTLEVEL', 'STRUCTURAL'),
                             ('G', '', 'HYDRODYNAMIC')):
        recs = [Rec('IDENT', (1, 4, 3, 0)), Rec('GCOORD', (1, 2, 3, 4)),
                Rec('IEND', (0, 0, 0, 0))]
        p = siffile.write(recs, ctx.path('%s4.%s' % (
            letter, 'SIF' if letter == 'G' else 'FEM')), True)
        h5 = fs.sif2hdf5(p, in_memory=True)
        ctx.count('files without hierarchy')
        g = h5.get_node('/%s4' % letter)
        a = [g._f_getattr(x) for x in ('LEVEL', 'DATATYPE', 'SELTYP',
                                       'FILETYPE')]
        if a != [lev, typ, 4, letter]:
            ctx.fail('%s file: attributes %s' % (letter, a))
        h5.close()


def deductive(ctx):
    from pyvc import convert as P
    return P.tasks('C07', ctx.quick), P.TRUSTED
