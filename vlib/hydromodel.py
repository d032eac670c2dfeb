"""Random hydrodynamic results files and the answers expected for them."""
import os
import contextlib
import numpy as np
import tables as tb
from .siffile import Rec
from . import siffile
from .conv import fs

MTYPS = (11, 12, 21, 22, 31, 32)
_n = [0]
_live = [0]


class Hydro(object):
    pass


def f4(rng, *shape):
    return (rng.normal(size=shape)*rng.choice([1e-3, 1., 1e3])).astype('f4')


def c8(rng, *shape):
    return (f4(rng, *shape) + 1j*f4(rng, *shape)).astype('c8')


def distinct(rng, n, lo, hi):
    v = np.unique(rng.uniform(lo, hi, 4*n + 4).astype('f4'))
    return rng.permutation(v)[:n].astype('f4')


def make(rng, nbody=None, timedomain=False, **counts):
    h = Hydro()
    h.rng = rng

    def cnt(name, lo=1):
        return counts.get(name, int(rng.integers(lo, 5)))
    h.nd, h.nf = cnt('ndirs'), cnt('nfreqs')
    h.ns, h.np = cnt('nsections', 0), cnt('npoints', 0)
    h.npan, h.nsym = cnt('npanels', 0), int(rng.integers(1, 5))
    h.time = timedomain
    h.dirs = distinct(rng, h.nd, 0, 6.28)
    h.freqs = distinct(rng, h.nf, .05, 3.)
    if rng.random() < .3:
        h.dirs[0] = 0.
    if rng.random() < .5:
        h.dirs, h.freqs = np.sort(h.dirs), np.sort(h.freqs)
    h.times = np.sort(distinct(rng, int(rng.integers(1, 6)), 0, 100))
    h.g, h.ro, h.depth = [float(x) for x in np.float32(
        [rng.uniform(1, 20), rng.uniform(500, 1500), rng.uniform(10, 400)])]
    nb = nbody or int(rng.integers(1, 4))
    ids = [int(x) for x in rng.permutation(np.arange(1, 9))[:nb]]
    if 1 not in ids and rng.random() < .7:
        ids[0] = 1
    h.bodies = ids                         # ibody
    h.ibcond = {b: int(x) for b, x in zip(ids, rng.permutation(
        np.arange(1, 9))[:nb])}
    h.iwres = [int(x) for x in np.sort(rng.permutation(
        np.arange(1, 200))[:h.nd*h.nf])]
    h.dof = {}
    for b in ids:
        for nm in ('W1MOTION', 'W1EXFORC'):
            h.dof[nm, b] = c8(rng, h.nd, h.nf, 6)
        h.dof['W2HDRIFT', b] = f4(rng, h.nd, h.nf, 3)
        h.dof['W2MDRIFT', b] = f4(rng, h.nd, h.nf, 6)
        h.dof['W1SFORCE', b] = c8(rng, h.ns, h.nd, h.nf, 6)
    h.panelbody = ids[:int(rng.integers(1, nb + 1))] if h.npan else []
    h.pan = {b: c8(rng, h.nd, h.nf, h.nsym, h.npan) for b in h.panelbody}
    h.panid = np.sort(rng.permutation(np.arange(1, 60))[:h.npan])
    h.p = c8(rng, h.nd, h.nf, h.np)
    h.v = c8(rng, h.nd, h.nf, h.np, 3)
    h.points = f4(rng, h.np, 3)
    h.sec = f4(rng, h.ns, 9)
    h.body = {b: f4(rng, 12 + 16 + 2) for b in ids}
    h.mat = {}
    for i in ids:
        for j in ids:
            for t in MTYPS:
                if i != j and rng.random() < .5 or rng.random() < .1:
                    continue
                h.mat[i, j, t] = f4(rng, h.nf if t in (12, 21) else 1, 6, 6)
    h.realdof = bool(rng.random() < .15)
    if h.realdof:
        for k in h.dof:
            if h.dof[k].dtype.kind == 'c':
                h.dof[k] = h.dof[k].real.astype('c8')
    return h


def fl(v):
    v = np.ascontiguousarray(v)
    return list(v.view('f4').ravel()) if v.dtype.kind == 'c' else \
        list(v.ravel())


def records(h):
    rng = h.rng
    T = lambda name, head, body: Rec(name, [4. + len(body)] + list(head),
                                     body, (), 't2')
    R = [Rec('IDENT', (1, 1, 3, 0))]
    B = []
    for b in h.bodies:
        w = h.body[b]
        B.append(('WBODCON', T('WBODCON', [h.ibcond[b], b, 0], [])))
        B.append(('WBODY', T('WBODY', [h.ibcond[b], w[0], w[1]],
                             list(w[2:14]) + list(w[14:30]))))
    for nm in ('WBODCON', 'WBODY'):
        x = [r for n, r in B if n == nm]
        R += [x[int(k)] for k in rng.permutation(len(x))]
    R.append(T('WGLOBDEF', [h.g, h.ro, 1], [h.depth]))
    if h.time:
        for k, t in enumerate(h.times):
            R.append(T('WDRESREF', [k + 1, 1, 1], [3, 1, t]))
        R.append(Rec('IEND', (0, 0, 0, 0)))
        return R
    k = 0
    for d in h.dirs:
        for f in h.freqs:
            b = [1, 1, d, 2, 1, f]
            if rng.random() < .3:
                b = [2, 1, f, 1, 1, d]
            R.append(T('WDRESREF', [h.iwres[k], 1, 2], b))
            k += 1
    for s in range(h.ns):
        R.append(T('WSECTION', [1, s + 1, 1 + s % 3],
                   [s + 10] + list(h.sec[s])))
    for i in range(h.np):
        R.append(T('WFKPOINT', [i + 1, h.points[i, 0], h.points[i, 1]],
                   [h.points[i, 2]]))
    M = []
    for (i, j, t), m in h.mat.items():
        for q in range(len(m)):
            M.append(T('W1MATRIX', [int(rng.integers(1, 9)), h.ibcond[i],
                                    h.ibcond[j]],
                       [h.iwres[q] if len(m) > 1 else 0, t] + fl(m[q])))
    R += interleave(rng, M, key=lambda r: (r.head[2], r.head[3], r.body[1]))
    for nm in ('W1MOTION', 'W1EXFORC', 'W2HDRIFT', 'W2MDRIFT'):
        X = []
        for b in h.bodies:
            for k, w in enumerate(h.iwres):
                v = h.dof[nm, b][k // h.nf, k % h.nf]
                if nm[1] == '2':
                    v = fl(v)
                    X.append(T(nm, [h.ibcond[b], w, v[0]], v[1:]))
                elif h.realdof:
                    X.append(T(nm, [h.ibcond[b], w, 0], fl(v.real.astype(
                        'f4'))))
                else:
                    X.append(T(nm, [h.ibcond[b], w, 1], fl(v)))
        R += interleave(rng, X, key=lambda r: r.head[1])
    X = []
    for b in h.bodies:
        for s in range(h.ns):
            for k, w in enumerate(h.iwres):
                v = h.dof['W1SFORCE', b][s, k // h.nf, k % h.nf]
                v = [0] + fl(v.real.astype('f4')) if h.realdof else \
                    [1] + fl(v)
                X.append(T('W1SFORCE', [h.ibcond[b], s + 1, w], v))
    R += interleave(rng, X, key=lambda r: r.head[1])
    X = []
    for k, w in enumerate(h.iwres):
        for i in range(h.np):
            q = (k // h.nf, k % h.nf, i)
            X.append(T('WFLUIDKN', [w, i + 1, 1], fl(h.p[q]) + fl(h.v[q])))
    R += X
    X = []
    for b in h.panelbody:
        for k, w in enumerate(h.iwres):
            for s in range(h.nsym):
                for i in range(h.npan):
                    X.append(T('W1PANPRE', [h.ibcond[b], w, i + 1],
                               [s + 1, 1] + fl(h.pan[b][
                                   k // h.nf, k % h.nf, s, i]) +
                               [h.panid[i], s + 1]))
    R += interleave(rng, X, key=lambda r: r.head[1])
    R.append(Rec('IEND', (0, 0, 0, 0)))
    return R


def interleave(rng, recs, key):
    """merge the records of different bodies, keeping each one's order"""
    if rng.random() < .5:
        return recs
    q = {}
    for r in recs:
        q.setdefault(key(r), []).append(r)
    out = []
    keys = list(q)
    if rng.random() < .5:     # alternate
        while any(q.values()):
            for k in keys:
                if q[k]:
                    out.append(q[k].pop(0))
    else:
        for i in rng.permutation(len(keys)):
            out += q[keys[int(i)]]
    return out


@contextlib.contextmanager
def opened(ctx, h, fmt=None):
    _n[0] += 1
    fmt = bool(h.rng.integers(0, 2)) if fmt is None else fmt
    p = ctx.path('h%d_G1.%s' % (_n[0], 'SIF' if fmt else 'SIU'))
    siffile.write(records(h), p, fmt, h.rng)
    d = None
    _live[0] += 1
    try:
        d = fs.open_sif(p)
        yield d
    finally:
        if d is not None:
            d.close()
        _live[0] -= 1
        if not _live[0]:
            tb.file._open_files.close_all()
            from freesif.data import file as F
            F._open_files.clear()
        os.unlink(p)


def describe(h):
    return {'directions': h.dirs.tolist(), 'frequencies': h.freqs.tolist(),
            'sections': h.ns, 'points': h.np, 'panels': h.npan,
            'symmetry parts': h.nsym, 'bodies (ibody: ibcond)': h.ibcond,
            'matrices (ibody, ibody2, type)': list(h.mat)}
