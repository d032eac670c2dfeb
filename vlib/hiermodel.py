"""Random superelement hierarchies and the groups they must give."""
import os
import numpy as np
from .siffile import Rec
from . import siffile, strucmodel
from .recgen import Gen


class Hier(object):
    pass


def make(rng, letter='T', depth=None, fileprefix=None, models=True,
         missing=.15):
    h = Hier()
    h.letter, h.rng = letter, rng
    h.top = depth or int(rng.integers(2, 5))
    types = [int(x) for x in rng.permutation(np.arange(1, 200))[:30]]
    # occurrences: [iselty, indsel, islevl, parent(ihref), children]
    occ = [[types.pop(), 1, h.top, 0, []]]
    pool = {}       # level -> superelement types used at that level
    count = {}

    def grow(i):
        lev = occ[i][2]
        if lev == 1:
            return
        n = int(rng.integers(1, 4 if lev > 2 else 3))
        for k in range(n):
            lv = lev - 1
            if rng.random() < .2:
                lv = int(rng.integers(1, lev))
            if k == 0 and i == 0:
                lv = lev - 1
            p = pool.setdefault(lv, [])
            if lv == 1 and p and rng.random() < .5:
                t = p[int(rng.integers(0, len(p)))]
            else:
                t = types.pop()
                p.append(t)
            count[t] = count.get(t, 0) + 1
            if len(occ) > 12:
                return
            occ.append([t, count[t], lv, i + 1, []])
            occ[i][4].append(len(occ))
            grow(len(occ) - 1)
    grow(0)
    h.occ = occ
    # children were numbered depth first: ihref = position in the table
    perm = rng.permutation(np.arange(2, 60))
    h.itref = [0] + [int(x) for x in perm[:len(occ) - 1]]
    h.trans = {}
    for t in h.itref[1:]:
        m = np.zeros((4, 4), 'f4')
        m[:3, :3] = rng.integers(-3, 4, (3, 3))
        m[3, :3] = rng.integers(-9, 10, 3)
        m[3, 3] = 1
        h.trans[t] = m
    h.prefix = str(rng.choice(['', 'abc_', 'X-1_'])) if fileprefix is None \
        else fileprefix
    # lower level files; each may be missing
    h.files = {}
    for i, (t, ind, lev, par, ch) in enumerate(occ[1:], 1):
        if letter == 'T' and ind == 1:
            fn = '%sT%d' % (h.prefix, t)
        elif letter == 'R' and lev == 1:
            fn = '%sR%dH%d' % (h.prefix, t, i + 1)
        else:
            continue
        h.files[fn] = (i, rng.random() >= missing)
    h.model = {}
    for fn, (i, ok) in h.files.items():
        t, ind, lev, par, ch = occ[i]
        if lev == 1 and models:
            h.model[fn] = strucmodel.make(rng, results=letter == 'R')
        else:
            h.model[fn] = None
    return h


def top_records(h):
    rng = h.rng
    g = Gen(rng)
    hi, tr = [], []
    for i, (t, ind, lev, par, ch) in enumerate(h.occ):
        hi.append(Rec('HIERARCH', [8. + len(ch), i + 1, t, ind],
                      [lev, h.itref[i], par, len(ch)] + list(ch), (), 't2'))
    for k in h.trans:
        v = h.trans[k].ravel()
        tr.append(Rec('HSUPTRAN', [18., k, v[0], v[1]], v[2:], (), 't2'))
    tr = [tr[int(k)] for k in rng.permutation(len(tr))]
    ident = [Rec('IDENT', (h.top, h.occ[0][0], 3, 0))]
    other = [g.make('GNODE'), g.make('GCOORD'), g.make('GELMNT2')]
    k = rng.integers(0, 3)
    R = ident + (hi + tr if k else tr + hi) + other
    if k == 2:
        R = ident + [g.make('DATE')] + tr + other + hi
    R.append(Rec('IEND', (0, 0, 0, 0)))
    return R


def lower_records(h, fn):
    i, _ = h.files[fn]
    t, ind, lev, par, ch = h.occ[i]
    hd = [Rec('IDENT', (lev, t, 3, 0))]
    m = h.model[fn]
    if m is not None:
        return strucmodel.records(m, header=hd)
    g = Gen(h.rng)
    return hd + [g.make('GELMNT2'), g.make('GCOORD'),
                 Rec('IEND', (0, 0, 0, 0))]


def ext(h, fmt):
    if h.letter == 'T':
        return 'FEM'
    return 'SIF' if fmt else 'SIU'


def decoys(h):
    """names of files that do not belong to the hierarchy"""
    used = {o[0] for o in h.occ}
    free = [t for t in range(200, 230) if t not in used]
    out = ['%s%s%d' % (h.prefix, h.letter, free[0])]
    t = h.occ[-1][0]
    if h.letter == 'R':
        out += ['%sR%dH%d' % (h.prefix, t, len(h.occ) + 7),
                '%sR%d' % (h.prefix, t)]
        inter = [k for k, o in enumerate(h.occ) if 1 < o[2] < h.top]
        if inter:
            out.append('%sR%dH%d' % (h.prefix, h.occ[inter[0]][0],
                                     inter[0] + 1))
    else:
        out += ['other_T%d' % t, '%sT%dH2' % (h.prefix, t)]
    return [d for d in out if d not in h.files]


def write(h, folder, fmt, rng=None, with_decoys=True):
    e = ext(h, fmt)
    p = os.path.join(folder, '%s%s%d.%s' % (h.prefix, h.letter, h.occ[0][0],
                                            e))
    h.path = siffile.write(top_records(h), p, fmt, rng)
    for fn, (i, ok) in h.files.items():
        if ok:
            siffile.write(lower_records(h, fn),
                          os.path.join(folder, '%s.%s' % (fn, e)), fmt, rng)
    if with_decoys:
        g = Gen(h.rng)
        for fn in decoys(h):
            siffile.write([Rec('IDENT', (1, 999, 3, 0)), g.make('GCOORD'),
                           Rec('IEND', (0, 0, 0, 0))],
                          os.path.join(folder, '%s.%s' % (fn, e)), fmt, rng)
    return h.path


def groups(h, prefix=None):
    """expected groups -> attributes"""
    pre = h.prefix if prefix is None else prefix
    root = '%s%s%d' % (pre, h.letter, h.occ[0][0])
    out = {'/' + root: dict(LEVEL='TOPLEVEL', DATATYPE='STRUCTURAL',
                            SELTYP=h.occ[0][0], FILETYPE=h.letter)}
    for fn, (i, ok) in h.files.items():
        if not ok:
            continue
        t, ind, lev, par, ch = h.occ[i]
        if h.letter == 'T':
            out['/%s/T%d' % (root, t)] = dict(
                LEVEL='FIRSTLEVEL' if lev == 1 else 'INTERLEVEL',
                DATATYPE='STRUCTURAL', SELTYP=t, FILETYPE='T')
        else:
            out['/%s/R%d_%d' % (root, t, ind)] = dict(
                LEVEL='FIRSTLEVEL', DATATYPE='STRUCTURAL', SELTYP=t,
                FILETYPE='R', INDEX=ind)
    return out


def transformation(h, seltyp, index, level):
    """the chain product, or None where it does not exist"""
    k = [i for i, o in enumerate(h.occ) if o[0] == seltyp and o[1] == index]
    if not k:
        return None
    if level == 'top':
        level = h.top
    if level == 1:
        return np.eye(4) if h.occ[k[0]][2] == 1 else None
    if level < 1 or level > h.top:
        return None
    i = k[0]
    T = np.eye(4)
    while h.occ[i][2] < level:
        T = T @ h.trans[h.itref[i]]
        i = h.occ[i][3] - 1
    return T if h.occ[i][2] == level else None
