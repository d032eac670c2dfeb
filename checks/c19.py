"""C19 - VTU output is well-formed whatever the order of writer calls"""
import os
import numpy as np
from vlib import vtu, vtumodel as V
from vlib.conv import fs
from vlib.strucapi import raises

OPS = ('piece', 'pdata', 'cdata', 'data', 'cpdata', 'bad3d', 'baddtype',
       'badpiece', 'bad0d')


def run(ctx, rng, seq, k):
    """-> message or None"""
    p = ctx.path('w%d.vtu' % k)
    w = fs.utils.VtuWriter(p)
    piece, sect, want = False, None, []
    ncon = 0
    log = []
    for op in seq:
        log.append(op)
        nm = str(rng.choice(V.NAMES))
        comp = None
        if op == 'piece':
            pts, cel = V.cells(rng)
            e = raises(w.new_piece, pts, cel)
            legal = True
            if not e:
                piece, sect = True, None
                want.append([])
                ncon, nel = len(cel[0]), len(cel[1])
        elif op == 'badpiece':
            pts, cel = V.cells(rng)
            q = rng.integers(0, 4)
            if q == 0:
                pts = pts.reshape(-1, 3, 1)
            elif q == 1:
                cel = (cel[0], cel[1], cel[2]*0 + 99)
            elif q == 2:
                pts = pts.astype('c8')
            else:
                cel = (cel[0], cel[1].astype('f2'), cel[2])
            e = raises(w.new_piece, pts, cel)
            legal = False
        elif op in ('pdata', 'cdata'):
            e = raises(w.start_pointdata if op == 'pdata' else
                       w.start_celldata)
            legal = piece
            if legal and not e:
                sect = 'PointData' if op == 'pdata' else 'CellData'
                want[-1].append((sect, []))
        elif op in ('data', 'cpdata', 'bad3d', 'bad0d', 'baddtype'):
            shape = {'bad3d': (2, 2, 2), 'bad0d': ()}.get(op)
            if shape is None:
                shape = (max(ncon, 1),) + ((2,) if rng.random() < .5 else ())
            a = V.values(rng, 'float32', *shape)
            a = np.asarray(a)
            if op == 'baddtype':
                a = a.astype(rng.choice(['c8', 'f2', 'S3', '?']))
            if rng.random() < .4:
                comp = [str(rng.choice(V.NAMES)) for _ in range(
                    a.shape[1] if a.ndim == 2 else 1)]
            if op == 'cpdata' and not piece:
                f = w.add_data_cellpoints
            else:
                f = w.add_data_cellpoints if op == 'cpdata' else w.add_data
            e = raises(f, a, nm, comp)
            legal = sect is not None and op in ('data', 'cpdata')
            if legal and not e:
                want[-1][-1][1].append((nm, comp or []))
        if legal and e:
            w._file.close()
            return '%s: the last operation raises %r' % (log, e)
        if not legal and not e:
            w._file.close()
            return '%s: the last operation raises no error' % log
    e = raises(w.close)
    if e:
        return '%s: close raises %r' % (log, e)
    try:
        got = vtu.parse(p)
    except vtu.Malformed as e:
        return '%s: file %s' % (log, e)
    finally:
        os.unlink(p)
    g = [[(t, [(a['name'], a['compnames']) for a in s])
          for t, s in x['data']] for x in got]

    def norm(x):   # white space characters in attributes
        return [[(t, [(n.replace('\t', ' '), [c.replace('\t', ' ')
                                              for c in cs])
                      for n, cs in s]) for t, s in y] for y in x]
    if norm(g) != norm(want):
        return '%s: file has sections %s, expected %s' % (log, g, want)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 19)
    n = 0
    legalish = ['piece', 'pdata', 'cdata', 'data', 'cpdata']
    # all short sequences of operations, then random longer ones
    import itertools
    seqs = [s for m in range(0, 4) for s in itertools.product(legalish +
                                                              ['bad3d'],
                                                              repeat=m)]
    for k in range(ctx.budget(300, 6000)):
        m = int(rng.integers(3, 14))
        s = [str(x) for x in rng.choice(OPS, m)]
        if rng.random() < .7:
            s = ['piece'] + s
        seqs.append(tuple(s))
    for k, s in enumerate(seqs):
        bad = run(ctx, rng, s, k)
        ctx.count('operation sequences')
        ctx.case(s)
        if bad:
            ctx.fail(bad, {'operations': list(s)})


def deductive(ctx):
    from pyvc import vtu as P
    return P.tasks19(), P.TRUSTED
