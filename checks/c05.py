"""C05 - internal buffering is invisible for any number of records"""
import numpy as np
from vlib.conv import check_file, fs, convert, mismatches
from vlib import siffile, oracle
from vlib.recgen import GENERAL_NAMES, random_file, Gen
from vlib.records import SPECS
from vlib.siffile import Rec
from freesif.sequentialparser import parsers

KINDS = ('rows', 'links')


def deductive(ctx):
    from pyvc import readers, buffers
    from pyvc.report import Task
    own = [Task('recdata, vldata', buffers.verify)]
    return own + readers.tasks('flush'), buffers.TRUSTED + readers.TRUSTED


def with_size(size):
    """set the buffer size, if the code still has this setting"""
    if isinstance(getattr(parsers, 'tmp_arr_size', None), int):
        parsers.tmp_arr_size = size
        return True
    return False


def run_of(g, name, n):
    return [g.make(name) for _ in range(n)]


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 5)
    default = getattr(parsers, 'tmp_arr_size', None)
    try:
        if with_size(3):
            names = [str(n) for n in rng.permutation(GENERAL_NAMES)]
            for size in (1, 2, 3, 5):
                with_size(size)
                for off in (0, 1, -1):
                    for c in range(0, len(names), 16):
                        g = Gen(rng)
                        recs = [Rec('IDENT', (1, 1, 3, 0))]
                        for n in ('GELMNT1', 'RDPOINTS', 'RDFORCES',
                                  'RDSTRAIN', 'RDSTRESS', 'RDRESREF'):
                            recs.append(g.make(n))
                        for n in names[c:c+16]:
                            if recs[-1].name == n or not g.can(n):
                                continue
                            k = size*int(rng.integers(1, 4)) + off
                            recs += run_of(g, n, max(1, k))
                        # a second run of some types
                        for n in names[c:c+3]:
                            if recs[-1].name != n and g.can(n):
                                recs += run_of(g, n, size)
                        recs.append(Rec('IEND', (0, 0, 0, 0)))
                        check_file(ctx, recs, rng.random() < .5, c, KINDS,
                                   'buffer size %d' % size)
                if ctx.quick and ctx.elapsed() > 9:
                    break
    finally:
        if default is not None:
            parsers.tmp_arr_size = default
    # the real size
    n0 = default if isinstance(default, int) else 100000
    for n in ((n0, n0 + 1) if ctx.quick else (n0 - 1, n0, n0 + 1, 2*n0,
                                              2*n0 + 1)):
        big(ctx, n)


def big(ctx, n):
    """n GNODE, GCOORD and GELMNT1 records, written directly"""
    import struct
    k = np.arange(n)
    xyz = np.stack([k + 1, k*.5, -k*1., k % 7], 1).astype('<f4')

    def rec(name, head):
        blk = np.zeros((n, 26), 'u1')
        blk[:, 0] = blk[:, 25] = 24
        blk[:, 1:9] = np.frombuffer(('%-8s' % name).encode(), 'u1')
        blk[:, 9:25] = np.ascontiguousarray(head.astype('<f4')).view(
            'u1').reshape(n, 16)
        return blk
    el = np.stack([k + 1, k + 1, np.where(k % 3, 15, 24), k*0], 1)
    eb = rec('GELMNT1', el)
    nn = np.where(k % 3, 2, 4)
    con = (k[:, None]*3 + np.arange(4)) % 999983
    out = [b'K', rec('IDENT', np.array([[1, 1, 3, 0]]*n))[0].tobytes(),
           rec('GCOORD', xyz).tobytes()]
    blank = b' '*8
    for i in range(n):
        out.append(eb[i].tobytes())
        v = [float(x) for x in con[i][:nn[i]]]
        v += [0.]*(4 - len(v))
        out.append(b'\x18' + blank + struct.pack('<4f', *v) + b'\x18')
    out.append(rec('IEND', np.zeros((n, 4)))[0].tobytes())
    p = ctx.path('T1.FEM')
    with open(p, 'wb') as f:
        f.write(b''.join(out))
    try:
        h5 = fs.sif2hdf5(p, in_memory=True)
    except Exception as e:
        ctx.fail('%d records: conversion raises %r' % (n, e), {'n': n})
        return
    ctx.count('files with %d records' % n)
    try:
        g = h5.get_node('/T1')
        t = g.gcoord.read()
        if len(t) != n:
            ctx.fail('GCOORD: %d rows stored, %d records on file' % (len(t),
                                                                     n))
            return
        for c, j in (('xcoord', 1), ('ycoord', 2), ('zcoord', 3),
                     ('nodeno', 0)):
            bad = np.nonzero(t[c].astype('f4') != xyz[:, j])[0]
            if len(bad):
                ctx.fail('GCOORD.%s row %d: stored %r, on file %r (%d '
                         'records)' % (c, bad[0], t[c][bad[0]],
                                       xyz[bad[0], j], n))
        t, a = g.gelmnt1.read(), g.gelmnt1_nodin[:]
        if len(t) != n or (t['elno'] != k + 1).any():
            ctx.fail('GELMNT1: rows do not match the %d records' % n)
            return
        st, sp = t['nodin_start'], t['nodin_stop']
        want = con[np.arange(4)[None, :] < nn[:, None]]
        if not np.array_equal(sp, np.cumsum(nn)) or \
                not np.array_equal(st[1:], sp[:-1]) or st[0] != 0:
            ctx.fail('GELMNT1: ranges of %d records are not consecutive' % n)
        elif not np.array_equal(a, want):
            ctx.fail('GELMNT1: connectivity of %d records differs' % n)
    finally:
        h5.close()
