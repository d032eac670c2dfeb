"""C08 - file name, prefix, append and sequence options select group names"""
import os
import shutil
import itertools
import numpy as np
import tables as tb
from vlib import siffile, oracle
from vlib.conv import fs
from vlib.siffile import Rec

PREF = ['', 'abc_', 'test01_1st', 'a-b_', 'R', 'TT', 'x2T', 'My-', '_',
        'G1T']
LETTERS = 'TLGRtlgr'
EXTS = ['FEM', 'SIF', 'SIU', 'fem', 'sif', 'siu', 'Sif']
BAD = ['T1', 'T.FEM', 'X1.FEM', 'T0.FEM', 'T01.FEM', '1.FEM', 'T1.TXT',
       'T1.h5', 'T1.SI', 'abc.FEM', 'T1H.FEM', 'T1H0.FEM', 'T-1.FEM',
       'a b T1.FEM', 'T1.FE', 'T1xFEM', 'T1.FEM.bak', 'T1.FEM~',
       'T1.FEMX', 'R1.SIFT']
SIN = ['T1.SIN', 'R1.SIN', 'G1.sin', 'abc_R2.SIN']


def content(sel, tag, letter):
    recs = [Rec('IDENT', (1, sel, 3, 0))]
    if letter in 'Rr':
        recs.append(Rec('HIERARCH', (8, 1, sel, 1), (1, 0, 0, 0), (), 't2'))
    if letter in 'Gg':
        recs += [Rec('WGLOBDEF', (5, 9.81, 1025, 1), (100,), (), 't2'),
                 Rec('WDRESREF', (10, 1, 1, 2), (1, 1, 0, 2, 1, .5), (),
                     't2')]
    recs += [Rec('GCOORD', (1, tag, 3, 4)), Rec('GCOORD', (2, tag, 5, 6)),
             Rec('IEND', (0, 0, 0, 0))]
    return recs


class Case(object):
    pass


def mk(ctx, rng, k, folder=None):
    c = Case()
    c.dir = folder or ctx.path('d%d' % k)
    if not os.path.isdir(c.dir):
        os.mkdir(c.dir)
    c.fp = str(rng.choice(PREF))
    c.letter = str(rng.choice(list(LETTERS)))
    c.sel = int(rng.integers(1, 300))
    c.tag = float(rng.integers(1, 10**6))
    c.ext = str(rng.choice(EXTS))
    c.name = '%s%s%d.%s' % (c.fp, c.letter, c.sel, c.ext)
    c.path = siffile.write(content(c.sel, c.tag, c.letter),
                           os.path.join(c.dir, c.name),
                           bool(rng.integers(0, 2)), rng)
    return c


def gname(c, prefix='', usefp=True):
    # the file-name prefix is all that precedes the last type letter
    return prefix + (c.fp if usefp else '') + c.letter.upper() + str(c.sel)


def read(h5name):
    with tb.open_file(h5name, 'r') as f:
        return oracle.snapshot(f)


def groups(snap):
    return sorted(p[1:] for p in snap if p.count('/') == 1 and p != '/')


def single(ctx, rng, k):
    c = mk(ctx, rng, k)
    kw = {}
    if rng.random() < .5:
        kw['prefix'] = str(rng.choice(['p_', 'Q', 'new-']))
    if rng.random() < .5:
        kw['usefileprefix'] = bool(rng.integers(0, 2))
    want = gname(c, kw.get('prefix', ''), kw.get('usefileprefix', True))
    old = os.getcwd()
    mode = int(rng.integers(0, 3))
    try:
        os.chdir(c.dir)
        if mode == 0:       # default name, in the current directory
            r = fs.sif2hdf5(c.name if rng.random() < .5 else c.path, **kw)
            exp = os.path.join(c.dir, os.path.splitext(c.name)[0] + '.h5')
        elif mode == 1:
            r = fs.sif2hdf5(c.path, 'out_%d.h5' % k, **kw)
            exp = os.path.join(c.dir, 'out_%d.h5' % k)
        else:
            h5 = fs.sif2hdf5(c.path, in_memory=True, **kw)
            s = oracle.snapshot(h5)
            h5.close()
            made = [x for x in os.listdir(c.dir) if x != c.name]
            if made:
                ctx.fail('in-memory conversion wrote %s' % made, c.name)
            r = exp = None
        if r is not None:
            if os.path.realpath(r) != os.path.realpath(exp) or \
                    not os.path.isfile(exp):
                ctx.fail('%s %s: result %r, expected %r' % (c.name, kw, r,
                                                            exp))
                return
            s = read(exp)
    except Exception as e:
        tb.file._open_files.close_all()
        ctx.fail('%s %s: raises %r' % (c.name, kw, e), {'kw': kw})
        return
    finally:
        os.chdir(old)
    ctx.count('single conversions')
    if groups(s) != [want]:
        ctx.fail('%s %s: groups %s, expected [%r]' % (c.name, kw, groups(s),
                                                      want))
    if mode == 2 and rng.random() < .4:
        try:
            d = fs.open_sif(c.path)
        except Exception as e:
            tb.file._open_files.close_all()
            ctx.fail('open_sif(%s) raises %r' % (c.name, e))
            return
        if d.name != gname(c):
            ctx.fail('open_sif(%s).name is %r' % (c.name, d.name))
        d.close()


def append(ctx, rng, k):
    d = ctx.path('a%d' % k)
    os.mkdir(d)
    n = int(rng.integers(2, 5))
    cs = []
    while len(cs) < n:
        c = mk(ctx, rng, k, d)
        if gname(c) not in [gname(x) for x in cs]:
            cs.append(c)
    one = {}
    for c in cs:
        h5 = fs.sif2hdf5(c.path, in_memory=True)
        one[gname(c)] = {p: v for p, v in oracle.snapshot(h5).items()
                         if p.startswith('/' + gname(c))}
        h5.close()
    out = os.path.join(d, 'all.h5')
    have = {}
    for c in cs:
        app = rng.random() < .7
        r = fs.sif2hdf5(c.path, out, append=app)
        if not app:
            have = {}
        have.update(one[gname(c)])
        s = read(out)
        ctx.count('conversions to an existing file')
        got = {p: v for p, v in s.items() if p != '/'}
        if got != have:
            ctx.fail('%s, append=%s: groups %s, expected %s' % (
                c.name, app, groups(s), sorted({p.split('/')[1]
                                                for p in have})),
                     [x.name for x in cs])
            return
    # a sequence gives the same groups
    for variant in range(3):
        seq = [c.path for c in cs]
        if rng.random() < .5:
            seq = tuple(seq)
        kw, pres = {}, [''] * n
        if variant == 1:
            kw['prefix'] = 'pp_'
            pres = ['pp_'] * n
        elif variant == 2:
            pres = ['p%d_' % i for i in range(n)]
            kw['prefix'] = list(pres)
        ufp = bool(rng.integers(0, 2))
        kw['usefileprefix'] = ufp
        names = [gname(c, p, ufp) for c, p in zip(cs, pres)]
        if len(set(names)) < n:
            continue
        exp = {}
        for c, p in zip(cs, pres):
            for q, v in one[gname(c)].items():
                exp['/' + gname(c, p, ufp) + q[1 + len(gname(c)):]] = v
        out2 = os.path.join(d, 'seq%d.h5' % variant)
        if rng.random() < .5:     # the record filter holds for every file
            only = ['IDENT', 'HIERARCH', 'IEND']
            o3 = os.path.join(d, 'only%d.h5' % variant)
            fs.sif2hdf5(seq, o3, only=only, **kw)
            extra = [q for q in read(o3) if q.count('/') > 1 and
                     q.split('/')[2].split('_')[0] not in ('ident',
                                                           'hierarch')]
            miss = [g for g in names if '/%s/ident' % g not in read(o3)]
            ctx.count('sequences')
            if extra or miss:
                ctx.fail('sequence %s %s with only=%s stores %s, misses %s' % (
                    [c.name for c in cs], kw, only, extra, miss))
                return
        try:
            fs.sif2hdf5(seq, out2, **kw)
        except Exception as e:
            tb.file._open_files.close_all()
            ctx.fail('sequence of %d files %s raises %r' % (n, kw, e))
            return
        s = read(out2)
        ctx.count('sequences')
        if {p: v for p, v in s.items() if p != '/'} != exp:
            ctx.fail('sequence %s %s: groups %s, expected %s' % (
                [c.name for c in cs], kw, groups(s), sorted(names)))
            return
        # appended to what is there
        if variant == 0:
            base = os.path.join(d, 'base.h5')
            c0 = mk(ctx, rng, k, d)
            fs.sif2hdf5(c0.path, base, prefix='base_')
            b0 = read(base)
            try:
                fs.sif2hdf5(seq, base, append=True, usefileprefix=ufp)
            except Exception as e:
                tb.file._open_files.close_all()
                ctx.fail('appending a sequence raises %r' % (e,))
                return
            s = read(base)
            e2 = dict(b0)
            e2.update(exp)
            if {p: v for p, v in s.items() if p != '/'} != \
                    {p: v for p, v in e2.items() if p != '/'}:
                ctx.fail('sequence appended: groups %s, expected %s' % (
                    groups(s), groups(e2)))
    # without an output name: one file each
    old = os.getcwd()
    o = os.path.join(d, 'each')
    os.mkdir(o)
    stems = {os.path.splitext(c.name)[0] for c in cs}
    try:
        os.chdir(o)
        if len(stems) == n:
            fs.sif2hdf5([c.path for c in cs])
            if {os.path.splitext(x)[0] for x in os.listdir(o)} != stems:
                ctx.fail('sequence without output name made %s' %
                         os.listdir(o))
            else:
                for c in cs:
                    s = read(os.path.join(o, os.path.splitext(c.name)[0] +
                                          '.h5'))
                    if groups(s) != [gname(c)]:
                        ctx.fail('sequence without output name: %s has '
                                 'groups %s' % (c.name, groups(s)))
            ctx.count('sequences')
    except Exception as e:
        tb.file._open_files.close_all()
        ctx.fail('sequence without output name raises %r' % (e,))
    finally:
        os.chdir(old)


def refused(ctx, rng):
    d = ctx.path('refused')
    os.mkdir(d)
    old = os.getcwd()
    out = os.path.join(d, 'keep.h5')
    good = mk(ctx, rng, 0, d)
    fs.sif2hdf5(good.path, out)
    keep = open(out, 'rb').read()
    for n in BAD + SIN:
        siffile.write(content(1, 1., 'T'), os.path.join(d, n), True)
    files = sorted(os.listdir(d))
    calls = []
    for n in BAD + SIN:
        p = os.path.join(d, n)
        calls += [((p,), {}), ((p, out), {}), ((p, out), {'append': True}),
                  ((p,), {'in_memory': True})]
    g = good.path
    calls += [((g,), {'append': True}), ((g, None, True), {}),
              (([g, g],), {'in_memory': True}),
              (([g], out), {'in_memory': True}), ((5, out), {}),
              ((None,), {}), (({g},), {}),
              (([g, g],), {'append': True})]
    try:
        os.chdir(d)
        for a, kw in calls:
            err = None
            try:
                r = fs.sif2hdf5(*a, **kw)
                if isinstance(r, tb.File):
                    r.close()
            except (ValueError, TypeError) as e:
                err = e
            except Exception as e:
                err = None
                r = e
            ctx.count('refused calls')
            if err is None:
                ctx.fail('sif2hdf5%r %r: not refused (%r)' % (a, kw, r))
                return
            if sorted(os.listdir(d)) != files or \
                    open(out, 'rb').read() != keep:
                ctx.fail('sif2hdf5%r %r: refused but files were touched: %s'
                         % (a, kw, sorted(set(os.listdir(d)) ^ set(files))))
                return
            if tb.file._open_files._handlers:
                ctx.fail('sif2hdf5%r %r: refused but left files open' % (a,
                                                                         kw))
                tb.file._open_files.close_all()
                return
        for n in BAD + SIN:
            try:
                x = fs.open_sif(os.path.join(d, n))
                x.close()
                ctx.fail('open_sif(%r) not refused' % n)
            except (ValueError, TypeError):
                pass
    finally:
        os.chdir(old)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 8)
    for k in range(ctx.budget(40, 500)):
        single(ctx, rng, k)
    for k in range(ctx.budget(5, 60)):
        append(ctx, rng, k)
    refused(ctx, rng)


def deductive(ctx):
    from pyvc import convert as P
    return P.tasks('C08', ctx.quick), P.TRUSTED
