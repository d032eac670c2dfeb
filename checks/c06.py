"""C06 - converting a file never depends on files converted earlier"""
import os
import io
import contextlib
import multiprocessing as mp
import numpy as np
import tables as tb
from vlib import siffile, oracle, strucmodel
from vlib.conv import fs, describe
from vlib.recgen import GENERAL_NAMES, random_file, Gen
from vlib.siffile import Rec
from vlib import hiermodel

NEEDS = ('GELREF1', 'RVFORCES', 'RVSTRESS', 'RVSTRAIN', 'RDIELCOR')


def job_result(j):
    """snapshot of one conversion, or the name of the exception"""
    kw = dict(j['kw'])
    if j['open']:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                d = fs.open_sif(j['path'])
            f = d.file
            s = oracle.snapshot(f._tbfile)
            f.close()
            return s
        except Exception as e:
            tb.file._open_files.close_all()
            return type(e).__name__
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h5 = fs.sif2hdf5(j['path'], in_memory=True, **kw)
        s = oracle.snapshot(h5)
        h5.close()
        return s
    except Exception as e:
        tb.file._open_files.close_all()
        return type(e).__name__


def _child(conn, j):
    conn.send(job_result(j))
    conn.close()


def _server(conn):
    """a process that never converts anything itself: each job runs in a
    child forked from it"""
    while True:
        j = conn.recv()
        if j is None:
            return
        a, b = mp.Pipe(False)
        p = mp.get_context('fork').Process(target=_child, args=(b, j))
        p.start()
        b.close()
        try:
            r = a.recv()
        except EOFError:
            r = 'no answer'
        p.join()
        conn.send(r)


class Fresh(object):
    """the same conversion as the first of a new process"""

    def __enter__(self):
        self.conn, b = mp.Pipe()
        self.p = mp.get_context('fork').Process(target=_server, args=(b,))
        self.p.start()
        b.close()
        return self

    def __call__(self, j):
        self.conn.send(j)
        return self.conn.recv()

    def __exit__(self, *a):
        self.conn.send(None)
        self.p.join()


def make_jobs(ctx, rng, n, tag):
    jobs = []
    for k in range(n):
        d = ctx.path('%s_%d' % (tag, k))
        os.mkdir(d)
        fmt = bool(rng.integers(0, 2))
        kind = int(rng.integers(0, 9))
        kw, opn = {}, False
        if kind <= 1:
            names = list(rng.permutation(GENERAL_NAMES)[:10])
            recs = random_file(rng, nruns=8, cover=names, unknown=True)
            letter = str(rng.choice(['T', 'L', 'G', 'R']))
            if letter == 'R':    # results files need hierarchy data
                letter = 'L'
            path = siffile.write(recs, os.path.join(d, '%s%d.%s' % (
                letter, rng.integers(1, 4), 'FEM' if letter != 'G' else
                'SIF')), fmt, rng)
        elif kind == 2:     # records they depend on are missing: must not be
            g = Gen(rng)    # found in an earlier file
            for n_ in ('GELMNT1', 'RDPOINTS', 'RDFORCES', 'RDSTRESS',
                       'RDSTRAIN', 'RDRESREF'):
                for _ in range(6):
                    g.make(n_)
            recs = [Rec('IDENT', (1, float(rng.integers(1, 5)), 3, 0))]
            recs.append(g.make(str(rng.choice(NEEDS))))
            if rng.random() < .5:
                recs.insert(1, g.make('GCOORD'))
            recs.append(Rec('IEND', (0, 0, 0, 0)))
            path = siffile.write(recs, os.path.join(d, 'T1.FEM'), fmt, rng)
        elif kind == 3:     # superelement numbers only on the hierarchy data
            recs = [Rec('GCOORD', (1, 2, 3, 4)), Rec('IEND', (0, 0, 0, 0))]
            path = siffile.write(recs, os.path.join(d, 'T2.FEM'), fmt, rng)
        elif kind == 4:
            m = strucmodel.make(rng)
            path = siffile.write(strucmodel.records(m),
                                 os.path.join(d, 'T1.FEM'), fmt, rng)
        elif kind in (5, 6):
            h = hiermodel.make(rng, 'T' if kind == 5 else 'R')
            path = hiermodel.write(h, d, fmt, rng)
        elif kind == 7:     # not a file name of this kind / empty file
            path = os.path.join(d, str(rng.choice(['T1.SIN', 'abc.txt',
                                                   'T1.FEM'])))
            open(path, 'w').close()
        else:
            recs = [Rec('IDENT', (1, 7, 3, 0)), Rec('GCOORD', (1, 2, 3, 4)),
                    Rec('SCONMESH', (5, 1, 2, 3), (0,), (), 't2'),
                    Rec('IEND', (0, 0, 0, 0))]
            path = siffile.write(recs, os.path.join(d, 'T7.FEM'), fmt, rng)
        if rng.random() < .3:
            kw['prefix'] = str(rng.choice(['a_', 'Old']))
        if rng.random() < .2:
            kw['usefileprefix'] = False
        if rng.random() < .2:
            kw['only'] = ['IDENT', 'HIERARCH', 'GCOORD', 'GNODE', 'IEND']
        if not kw and rng.random() < .2:
            opn = True
        jobs.append({'path': path, 'kw': kw, 'open': opn, 'kind': kind})
    return jobs


def diff(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return 'result %s, first in a new process %s' % (
            a if isinstance(a, str) else 'stored',
            b if isinstance(b, str) else 'stored')
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return 'node %s differs: %s, first in a new process %s' % (
                k, short(a.get(k)), short(b.get(k)))


def short(x):
    if x is None:
        return 'absent'
    return repr(tuple(y for y in x if not isinstance(y, bytes)))[:300]


def directed(ctx, rng, fresh):
    """every kind of definition one file can leave behind, then a file with
    the records that would use it"""
    r = lambda n: [int(x) for x in rng.integers(1, 9, n)]
    I, E = Rec('IDENT', (1, 1, 3, 0)), Rec('IEND', (0, 0, 0, 0))
    a = [I]
    a += [Rec('GELMNT1', (k, k, 28, 0), r(8)) for k in (1, 2, 3)]
    for k, ic in ((1, 15), (2, 24), (3, 28)):
        pts = sum([[i + 1] + r(3) for i in range(4)], [])
        a.append(Rec('RDPOINTS', (10 + len(pts), 1, k, ic),
                     [ic, 4, 10104, 0, 0] + pts, (), 't2'))
    a += [Rec('RDRESREF', (10, k, 1, k), (1, 1, 1) + tuple(r(3)), (), 't2')
          for k in (1, 2, 3)]
    a += [Rec(n, (6, k, 3, 1), (2, 3), (), 't2')
          for n in ('RDFORCES', 'RDSTRESS', 'RDSTRAIN') for k in (1, 24)]
    a.append(E)
    users = [[Rec('GELREF1', (2, 1, 0, 0), (0, 0, 0, 0, -1, 0, 0, 0) +
                  tuple(r(8)))]]
    users += [[Rec('RDIELCOR', (4 + n, ic, 0, .5), r(n), (), 't2')]
              for ic, n in ((15, 4), (24, 7), (28, 5))]
    users += [[Rec(n, (5 + 12, 1, 2, 1), [24] + r(12), (), 't2')]
              for n in ('RVFORCES', 'RVSTRESS', 'RVSTRAIN')]
    # parts of the definitions given again
    users += [[a[4], Rec('RVSTRESS', (29, 1, 1, 1), [24] + r(24), (), 't2')],
              [a[4], a[7], Rec('RVSTRESS', (29, 1, 1, 1), [24] + r(24), (),
                               't2')],
              [a[4], a[-2], Rec('RVSTRESS', (29, 1, 1, 1), [24] + r(24), (),
                                't2')]]
    d = ctx.path('directed')
    os.mkdir(d)
    pa = siffile.write(a, os.path.join(d, 'T1.FEM'), True)
    for k, u in enumerate(users):
        j = {'path': siffile.write([I] + u + [E], os.path.join(
            d, 'T%d.FEM' % (k + 2)), bool(rng.integers(0, 2)), rng),
            'kw': {}, 'open': False}
        ref = fresh(j)
        job_result({'path': pa, 'kw': {}, 'open': False})
        got = job_result(j)
        ctx.count('conversions in sequences')
        if got != ref:
            ctx.fail('conversion of %s after a file with definitions: %s' % (
                [x.name for x in u], diff(got, ref)), repr(u))


def bounded(ctx):
    with Fresh() as fresh:      # before any conversion in this process
        run(ctx, fresh)


def run(ctx, fresh):
    rng = np.random.default_rng(ctx.seed + 6)
    directed(ctx, rng, fresh)
    for rep in range(ctx.budget(6, 60)):
        jobs = make_jobs(ctx, rng, 7, 's%d' % rep)
        ref = [fresh(j) for j in jobs]
        seq = list(rng.integers(0, len(jobs), 12))
        done = []
        for i in seq:
            r = job_result(jobs[i])
            ctx.count('conversions in sequences')
            if r != ref[i]:
                ctx.fail('conversion of %s after %d others: %s' % (
                    os.path.basename(jobs[i]['path']), len(done),
                    diff(r, ref[i])),
                    {'sequence': [(os.path.basename(jobs[j]['path']),
                                   jobs[j]['kw']) for j in done + [i]]})
            done.append(i)


def deductive(ctx):
    from pyvc import convert as P
    return P.tasks('C06', ctx.quick), P.TRUSTED
