"""C11 - connectivity always refers to the nodes returned for the same
selection"""
import numpy as np
from vlib import strucmodel as S
from vlib.strucapi import opened_all, describe, guarded, interleave



def deductive(ctx):
    from pyvc import struc
    return struc.tasks11(), struc.TRUSTED


def check(m, d, sets, kind, disc):
    sel = S.elems(m, sets, kind)
    xyz = d.get_nodes(sets, kind, disc)
    ext = d.get_nodenumbers(sets, kind, disc)
    inn = d.get_nodenumbers(sets, kind, disc, numbertype='internal')
    con, off, typ = d.get_elements(sets, kind, disc)
    con, off, typ = np.array(con), np.array(off), np.array(typ)
    want = np.concatenate([m.nodin[e] for e in sel]) - 1
    n = [len(m.nodin[e]) for e in sel]
    if not np.array_equal(typ, m.eltyp[sel]):
        return 'element types %s, expected %s' % (typ, m.eltyp[sel])
    if not np.array_equal(off, np.cumsum(n)):
        return 'offsets %s, expected %s' % (off, np.cumsum(n))
    if len(con) != len(want):
        return 'connectivity of length %d, expected %d' % (len(con),
                                                           len(want))
    if not len(xyz) == len(ext) == len(inn):
        return '%d coordinates, %d and %d numbers' % (len(xyz), len(ext),
                                                      len(inn))
    if con.min() < 0 or con.max() >= len(xyz):
        return 'node index %d of %d nodes' % (con.max(), len(xyz))
    if disc and not np.array_equal(con, np.arange(len(want))):
        return 'disconnected connectivity %s' % con
    if not np.array_equal(xyz[con], m.xyz[want]):
        return 'coordinates of element nodes differ from the model'
    if not np.array_equal(ext[con], m.nodex[want]):
        return 'node numbers %s of the element nodes, expected %s' % (
            ext[con], m.nodex[want])
    if not np.array_equal(inn[con], want + 1):
        return 'internal node numbers of the element nodes differ'
    exp = S.nodeidx(m, sets, kind, disc)
    if not np.array_equal(inn - 1, exp):
        return 'nodes %s returned, expected %s' % (inn, exp + 1)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 11)
    for k in range(ctx.budget(5, 100)):
        ms = [S.make(rng, results=False, mixed=k % 2 and i)
              for i in range(2)]
        with opened_all(ctx, ms) as ds:
            jobs = [(m, d, sets, kind, disc) for m, d in zip(ms, ds)
                    for sets, kind in S.selections(m, 10, rng) +
                    [(None, None), (None, 'beam'), (None, 'shell')]
                    if len(S.elems(m, sets, kind))
                    for disc in (False, True)]
            for m, d, sets, kind, disc in interleave(rng, jobs):
                ctx.count('selections')
                guarded(ctx, 'sets=%r kind=%r disconnected=%r' % (
                    sets, kind, disc), describe(m),
                    lambda: check(m, d, sets, kind, disc))
