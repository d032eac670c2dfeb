"""Random structural models and the answers the API should give for them."""
import numpy as np
from .siffile import Rec
from .records import NNODES

BEAM, SHELL = (15, 23), (24, 25, 26, 28)
NPTS = {15: (3, 6), 23: (2, 6), 24: (10, 3), 25: (8, 3), 26: (6, 5),
        28: (8, 5)}
SETNAMES = ['PLATES', 'beams_1', 'S3', 'deck-a', 'X', 'all', 'Long_set.name 7',
            'TIP']


class Model(object):
    pass


def rnd(rng, *shape):
    return rng.normal(size=shape).astype('f4')


def make(rng, thick=None, results=True, cplx=None, nres=None, mixed=False,
         extra_nodes=None):
    m = Model()
    m.rng = rng
    m.thick = bool(rng.integers(0, 2)) if thick is None else thick
    types = [15, 24, 25] if not m.thick else [23, 26, 28]
    if mixed:
        types = [15, 23, 24, 25, 26, 28, 16, 18]
    nn = int(rng.integers(11, 25))
    m.nn = nn
    m.nodex = rng.permutation(np.arange(1, 5*nn))[:nn].astype('i4')
    m.xyz = rnd(rng, nn, 3)*10
    ne = int(rng.integers(4, 14))
    m.eltyp = np.array([int(rng.choice(types)) for _ in range(ne)], 'i4')
    m.eltyp[0], m.eltyp[1] = types[0], types[1]
    if rng.random() < .3:      # grouped by kind, as a mesher would
        m.eltyp = np.sort(m.eltyp)
    m.ne = ne
    m.elnox = rng.permutation(np.arange(1, 6*ne))[:ne].astype('i4')
    use = nn - (int(rng.integers(0, 3)) if extra_nodes is None
                else extra_nodes)
    avail = rng.permutation(nn)[:use] + 1
    m.nodin = [rng.choice(avail, NNODES[t], replace=False).astype('i4')
               for t in m.eltyp]
    # sections and thicknesses: geometry numbers with gaps, any order, shared
    def geo(n):
        return rng.permutation(np.arange(1, 40))[:n].astype('i4')
    nb, nt = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    g = geo(nb + nt)
    m.bgeo, m.tgeo = g[:nb], g[nb:]
    m.gbeamg = rnd(rng, nb, 14)
    m.gelth = np.abs(rnd(rng, nt))
    m.geono = np.array([int(rng.choice(m.bgeo)) if t in BEAM else
                        int(rng.choice(m.tgeo)) if t in SHELL else 0
                        for t in m.eltyp], 'i4')
    # sets
    m.sets = {}
    names = list(rng.permutation(SETNAMES)[:int(rng.integers(2, 6))])
    if len(names) > 2 and rng.random() < .5:
        # a name that reads like two others together
        names[2] = str(rng.choice([' ', '_', '-', '.', '', '+', '|'])).join(
            str(x) for x in names[:2])
    ids = rng.permutation(np.arange(1, 30))[:len(names)]
    m.setrecs = []
    for nm, i in zip(names, ids):
        nm = str(nm)
        mem = np.sort(rng.choice(np.arange(1, ne+1),
                                 int(rng.integers(1, ne+1)), replace=False))
        if rng.random() < .5:
            mem = rng.permutation(mem)
        nodes = rng.choice(np.arange(1, nn+1), int(rng.integers(0, nn)),
                           replace=False)
        m.sets[nm] = (int(i), mem, nodes)
        # split over several records (index 1, 2, ..), node sets in between
        cut = sorted(int(x) for x in rng.integers(0, len(mem)+1,
                                                  int(rng.integers(0, 3))))
        parts = np.split(mem, cut)
        for k, part in enumerate(parts):
            m.setrecs.append((int(i), k + 1, 2, part))
        if len(nodes):
            m.setrecs.append((int(i), 1, 1, nodes))
    order = rng.permutation(len(m.setrecs))
    m.setrecs = [m.setrecs[k] for k in order]
    # load names
    m.loadnames = {}
    for k in rng.permutation(np.arange(1, 12))[:int(rng.integers(1, 6))]:
        m.loadnames[int(k)] = 'Load %d%s' % (int(k), 'x'*int(rng.integers(0,
                                                                          9)))
    m.results = results
    if results:
        nres = nres or int(rng.integers(1, 5))
        c = rng.integers(0, 2) if cplx is None else cplx
        m.cases = []   # (ires, irno, ieres, icompl)
        iires = np.sort(rng.choice(np.arange(1, 20), nres, replace=False))
        ier = {}
        for k in range(nres):
            run = int(rng.integers(1, 3))
            free = [e for e in range(1, 30) if (run, e) not in ier]
            # external numbers may occur in several runs
            again = [e for r_, e in ier if e in free]
            ext = int(rng.choice(again)) if again and rng.random() < .6 \
                else int(rng.permutation(free)[0])
            ier[run, ext] = 1
            flag = int(c) if c in (0, 1) else int(rng.integers(0, 2))
            m.cases.append((int(iires[k]), run, ext, flag))
        if not any(x[1] == 1 for x in m.cases):
            a = m.cases[0]
            m.cases[0] = (a[0], 1, a[2], a[3])
        m.noderes = {}
        for kind in ('DIS', 'VEL', 'ACC'):
            for ires, run, ext, flag in m.cases:
                v = rnd(rng, nn, 6)
                if flag:
                    v = (v + 1j*rnd(rng, nn, 6)).astype('c8')
                m.noderes[kind, ires] = v
        m.elres = {}
        for ires, run, ext, flag in m.cases:
            for e in range(ne):
                if m.eltyp[e] not in NPTS:
                    continue
                np_, nc = NPTS[int(m.eltyp[e])]
                v = rnd(rng, np_, nc)
                if flag:
                    v = (v + 1j*rnd(rng, np_, nc)).astype('c8')
                if nc == 5:   # parabolic transverse shear: equal at the two
                    h = np_//2   # Gauss points through the thickness
                    v[h:, 3:] = v[:h, 3:]
                m.elres[ires, e] = v
    return m


def records(m, ftype='T', header=None):
    R = []
    R.extend(header or [Rec('IDENT', (1, 1, 3, 0))])
    r = m.rng
    for no, nm in m.loadnames.items():
        R.append(Rec('TDLOAD', (4, no, 100 + len(nm), 0), (), [' '*8 + nm],
                     'td'))
    for i in range(m.nn):
        R.append(Rec('GNODE', (m.nodex[i], i+1, 6, 123456)))
    for i in range(m.nn):
        R.append(Rec('GCOORD', (i+1,) + tuple(m.xyz[i])))
    for i in range(len(m.bgeo)):
        R.append(Rec('GBEAMG', (m.bgeo[i], 0., m.gbeamg[i][0],
                                m.gbeamg[i][1]), m.gbeamg[i][2:]))
    for i in range(len(m.tgeo)):
        R.append(Rec('GELTH', (m.tgeo[i], m.gelth[i], 0., 0.)))
    for e in range(m.ne):
        R.append(Rec('GELMNT1', (m.elnox[e], e+1, m.eltyp[e], 0),
                     m.nodin[e]))
    for e in range(m.ne):
        R.append(Rec('GELREF1', (e+1, 1, 0, 0), (0, 0, 0, 0, m.geono[e], 0,
                                                 0, 0)))
    for nm, (i, mem, nodes) in m.sets.items():
        R.append(Rec('TDSETNAM', (4, i, 100 + len(nm), 0), (), [' '*8 + nm],
                     'td'))
    for i, k, typ, mem in m.setrecs:
        R.append(Rec('GSETMEMB', (5 + len(mem), i, k, typ),
                     (0.,) + tuple(mem), (), 't2'))
    if m.results:
        for ires, run, ext, flag in m.cases:
            R.append(Rec('RDRESREF', (7, ires, run, ext), (1, flag, 0), (),
                         't2'))
        for ir, n in ((15, 6), (23, 6)):
            R.append(Rec('RDFORCES', (9, ir, n, 1), (2, 3, 4, 5, 6), (),
                         't2'))
        for ir, n in ((24, 3), (25, 3), (26, 5), (28, 5)):
            R.append(Rec('RDSTRESS', (3 + n, ir, n, 1), range(2, n+1), (),
                         't2'))
        for e in range(m.ne):
            t = int(m.eltyp[e])
            if t not in NPTS:
                continue
            p = NPTS[t][0]
            body = [t, p, 10101 - 1 + p, 0, 0]
            for k in range(p):
                body += [k+1, 0, 0, 0]
            R.append(Rec('RDPOINTS', (5 + len(body), 1, e+1, t), body, (),
                         't2'))

        def fl(v):
            v = np.ascontiguousarray(v)
            return v.view('f4').ravel() if v.dtype.kind == 'c' else v.ravel()
        for kind in ('DIS', 'VEL', 'ACC'):
            for ires, run, ext, flag in m.cases:
                for i in range(m.nn):
                    v = fl(m.noderes[kind, ires][i])
                    R.append(Rec('RVNOD' + kind, (5 + len(v), ires, i+1, 6),
                                 np.concatenate(([0.], v)), (), 't2'))
        for name, kinds in (('RVFORCES', BEAM), ('RVSTRESS', SHELL)):
            for ires, run, ext, flag in m.cases:
                for e in range(m.ne):
                    t = int(m.eltyp[e])
                    if t in kinds:
                        v = fl(m.elres[ires, e])
                        R.append(Rec(name, (5 + len(v), ires, e+1, 1),
                                     np.concatenate(([t], v)), (), 't2'))
    R.append(Rec('IEND', (0, 0, 0, 0)))
    return R


# ---- expected answers ------------------------------------------------------ #

def elems(m, sets=None, kind=None):
    """indices of the selected elements, model order"""
    sel = np.arange(m.ne)
    if sets:
        s = [sets] if isinstance(sets, str) else list(sets)
        mem = set()
        for nm in s:
            mem |= {int(x) - 1 for x in m.sets[nm][1]}
        sel = np.array(sorted(mem), int)
    if kind == 'beam':
        sel = sel[np.isin(m.eltyp[sel], BEAM)]
    elif kind == 'shell':
        sel = sel[np.isin(m.eltyp[sel], SHELL)]
    return sel


def nodeidx(m, sets=None, kind=None, disconnected=False):
    sel = elems(m, sets, kind)
    con = np.concatenate([m.nodin[e] for e in sel]) - 1 if len(sel) else \
        np.zeros(0, int)
    if disconnected:
        return con
    if sets or kind:
        return np.array(sorted(set(con.tolist())), int)
    return np.arange(m.nn)


def selections(m, n, rng, need=1):
    """n (sets, kind) selections with at least one element"""
    out = []
    names = list(m.sets)
    for _ in range(40*n):
        if len(out) == n:
            break
        k = rng.integers(0, 4)
        sets = None
        if k == 1:
            sets = str(rng.choice(names))
        elif k >= 2:
            sets = [str(x) for x in rng.permutation(names)[
                :int(rng.integers(1, len(names)+1))]]
            if rng.random() < .4:
                sets = tuple(sets)
        kind = [None, 'beam', 'shell'][int(rng.integers(0, 3))]
        if len(elems(m, sets, kind)) >= need:
            out.append((sets, kind))
    if n > 3 and len(names) > 2 and names[2].startswith(names[0]):
        # the same letters, other sets
        for sets in (names[2], [names[0], names[1]], [names[2]]):
            if len(elems(m, sets)) >= need:
                out.append((sets, None))
    return out


def pick_cases(m, run, rescases):
    out = []
    for c in m.cases:
        if c[1] == run and (rescases is None or c[2] in rescases):
            out.append(c)
    return out


# documented positions of the result points located at the element nodes
IDXQUAD = [(0, 5), (1, 6), (4, 9), (3, 8)]
IDXTRI = [(0, 4), (1, 5), (3, 7)]
G = 1/np.sqrt(3.)


def shape_quad(x, y):
    """bilinear through values at the four Gauss points
    (-g,-g), (g,-g), (-g,g), (g,g)"""
    a, b = x/G, y/G
    return np.array([(1-a)*(1-b), (1+a)*(1-b), (1-a)*(1+b), (1+a)*(1+b)])/4


QUADNODES = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1),
             (-1, 0)]


def shape_tri(l1, l2):
    """linear through values at area coordinates (2/3,1/6,1/6), .."""
    l3 = 1 - l1 - l2
    A = np.array([[2/3, 1/6, 1/6], [1/6, 2/3, 1/6], [1/6, 1/6, 2/3]])
    return np.array([l1, l2, l3]) @ np.linalg.inv(A)


TRINODES = [(1, 0), (.5, .5), (0, 1), (0, .5), (0, 0), (.5, 0)]


def element_result(eltyp, restype, d):
    """expected result at the nodes of one element; d: stored (npts, ncomp)"""
    d = d.astype('c16' if d.dtype.kind == 'c' else 'f8')
    if eltyp == 15:
        return d[[0, 2]]
    if eltyp == 23:
        a, b = d
        return np.array([a*(1+1/G)/2 + b*(1-1/G)/2, (a+b)/2,
                         a*(1-1/G)/2 + b*(1+1/G)/2])
    if eltyp in (24, 25):
        idx = IDXQUAD if eltyp == 24 else IDXTRI
        s = np.array([[d[i], d[j]] for i, j in idx])
        if restype == 'generalstress':
            return s
        return np.concatenate([(s[:, 0]+s[:, 1])/2, (s[:, 1]-s[:, 0])/2], 1)
    if eltyp in (26, 28):
        n = len(d)//2
        lo, up = d[:n], d[n:]
        mid, half = (lo[:, :3]+up[:, :3])/2, (up[:, :3]-lo[:, :3])/2/G
        sh = lo[:, 3:]
        if eltyp == 28:
            W = np.array([shape_quad(*p) for p in QUADNODES])
        else:
            W = np.array([shape_tri(*p) for p in TRINODES])
        if restype == 'generalstress':
            z = np.zeros((n, 2))
            ls = np.concatenate([mid-half, z], 1)
            us = np.concatenate([mid+half, z], 1)
            return np.stack([W @ ls, W @ us], 1)
        return W @ np.concatenate([mid, half, 1.5*sh], 1)
