"""C20 - VTU files contain exactly the given data, reordered to VTK order"""
import os
import numpy as np
from vlib import vtu, vtumodel as V
from vlib.conv import fs

CON = {23: [0, 2, 1], 28: [0, 2, 4, 6, 1, 3, 5, 7]}
RES = {26: [0, 2, 4, 1, 3, 5]}
VTK = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
NAME = {'int': 'Int', 'uint': 'UInt', 'float': 'Float'}


def vtkname(a):
    n = a.dtype.name
    return (n.replace('uint', 'UInt') if n.startswith('u') else
            n.replace('int', 'Int').replace('float', 'Float'))


def same(what, rec, a):
    if rec['type'] != vtkname(a):
        return '%s: type %s for %s' % (what, rec['type'], a.dtype)
    nc = a.shape[1] if a.ndim == 2 else 1
    if rec['ncomp'] != nc:
        return '%s: %d components, expected %d' % (what, rec['ncomp'], nc)
    w = a.ravel()
    if len(w) != len(rec['data']) or not np.array_equal(rec['data'], w):
        return '%s: data %s, expected %s' % (what, rec['data'][:9], w[:9])


def perm(a, off, typ, table):
    out, s = a.copy(), 0
    for o, t in zip(off, typ):
        if int(t) in table:
            out[s:o] = a[s:o][table[int(t)]]
        s = o
    return out


def run(ctx, rng, k):
    p = ctx.path('w%d.vtu' % k)
    w = fs.utils.VtuWriter(p)
    exp, originals = [], []

    def keep(*arrs):
        for a in arrs:
            originals.append((a, a.copy(), a.flags.writeable))
    pts, cel = V.cells(rng)
    data = []
    for piece in range(int(rng.integers(1, 4))):
        if rng.random() < .6:
            pts, cel = V.cells(rng)
        pts_, cel_ = V.layout(rng, pts), tuple(V.layout(rng, c) for c in cel)
        if rng.random() < .2:
            cel_ = list(cel_)
        keep(pts_, *cel_)
        w.new_piece(pts_, cel_)
        con, off, typ = cel
        e = dict(points=pts, con=perm(con, off, typ, CON), off=off,
                 typ=np.array([VTK[int(t)] for t in typ]), data=[])
        for s in range(int(rng.integers(0, 4))):
            pd = bool(rng.integers(0, 2))
            (w.start_pointdata if pd else w.start_celldata)()
            sec = []
            for j in range(int(rng.integers(0, 4))):
                dt = str(rng.choice(V.TYPES))
                n = len(pts) if pd else len(off)
                cp = rng.random() < .4
                if cp:
                    n = len(con)
                shape = (n,) if rng.random() < .4 else \
                    (n, int(rng.integers(1, 7)))
                a = V.values(rng, dt, *shape)
                if data and rng.random() < .2 and len(data[-1]) == n:
                    a = data[-1]
                data.append(a)
                b = V.layout(rng, a)
                keep(b)
                nm = 'd%d' % j
                cn = ['c%d' % i for i in range(shape[1] if len(shape) > 1
                                               else 1)] \
                    if rng.random() < .5 else None
                (w.add_data_cellpoints if cp else w.add_data)(b, nm, cn)
                sec.append((nm, cn, perm(a, off, typ, RES) if cp else a))
            ctx.case(pts.tobytes() + con.tobytes())
            e['data'].append(('PointData' if pd else 'CellData', sec))
        exp.append(e)
    w.close()
    for a, b, wr in originals:
        if not np.array_equal(a, b):
            return 'the writer modified an array given by the caller'
    try:
        got = vtu.parse(p)
    except vtu.Malformed as x:
        return 'file %s' % x
    finally:
        os.unlink(p)
    if len(got) != len(exp):
        return '%d pieces, expected %d' % (len(got), len(exp))
    for g, e in zip(got, exp):
        if (g['npoints'], g['ncells']) != (len(e['points']), len(e['off'])):
            return 'piece of %d points and %d cells' % (g['npoints'],
                                                        g['ncells'])
        out = [same('points', g['points'], e['points']),
               same('connectivity', g['cells'][0], e['con']),
               same('offsets', g['cells'][1], e['off'])]
        if not np.array_equal(g['cells'][2]['data'], e['typ']):
            out.append('cell types %s, expected %s' % (
                g['cells'][2]['data'], e['typ']))
        if [(s, [a['name'] for a in x]) for s, x in g['data']] != \
                [(s, [n for n, _, _ in x]) for s, x in e['data']]:
            out.append('data arrays %s' % [s for s, _ in g['data']])
        else:
            for (s, x), (_, y) in zip(g['data'], e['data']):
                for r, (n, cn, a) in zip(x, y):
                    out.append(same('%s %s' % (s, n), r, a))
                    if r['compnames'] != (cn or []):
                        out.append('component names %s' % r['compnames'])
        bad = next((x for x in out if x), None)
        if bad:
            return bad


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 20)
    for k in range(ctx.budget(400, 8000)):
        try:
            bad = run(ctx, rng, k)
        except Exception as e:
            bad = 'raises %r' % (e,)
        ctx.count('VTU files')
        if bad:
            ctx.fail(bad, {'case': k, 'seed': ctx.seed + 20})


def deductive(ctx):
    from pyvc import vtu as P
    return P.tasks20(), P.TRUSTED
