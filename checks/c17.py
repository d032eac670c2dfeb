"""C17 - hydrodynamic data are those of the requested body and matrix type"""
import numpy as np
from vlib import hydromodel as H
from vlib.strucapi import guarded, raises
from checks.c16 import eq

GET = {11: 'get_bodymass', 12: 'get_addedmass', 21: 'get_potentialdamping',
       22: 'get_viscousdamping', 31: 'get_hydrostatic_restoring',
       32: 'get_mooring_restoring'}
COLS = ('clenb', 'bmass', 'wsarea', 'wparea', 'vol', 'xcg', 'ycg', 'zcg',
        'xcb', 'ycb', 'zcb', 'xrb', 'yrb', 'zrb')


def deductive(ctx):
    from pyvc import hydro
    return hydro.tasks17(), hydro.TRUSTED


def calls(d, t, i, j, default):
    yield d.get_matrix(t, i, j)
    yield d.get_matrix(t, bodyid=i, bodyid2=j)
    yield getattr(d, GET[t])(i, j)
    yield getattr(d, GET[t])(bodyid2=j, bodyid=i)
    if default:
        yield d.get_matrix(t)
        yield getattr(d, GET[t])()


def matrices(h, d):
    for i in h.bodies:
        for j in h.bodies:
            for t in H.MTYPS:
                m = h.mat.get((i, j, t))
                if m is None:
                    if t in (12, 21):
                        continue
                    if raises(d.get_matrix, t, i, j) is None or \
                            raises(getattr(d, GET[t]), i, j) is None:
                        return 'matrix %d of bodies %d, %d does not exist, ' \
                            'no error' % (t, i, j)
                    continue
                w = np.moveaxis(m, 0, 2) if t in (12, 21) else m[0]
                for g in calls(d, t, i, j, i == j == 1):
                    bad = eq('matrix type %d, bodies %d, %d' % (t, i, j), g,
                             w)
                    if bad:
                        return bad


def bodies(h, d):
    for b in h.bodies:
        for nm, f in (('W1MOTION', d.get_motion_raos),
                      ('W1EXFORC', d.get_excitationforce_raos),
                      ('W2HDRIFT', d.get_horiz_meandrift),
                      ('W2MDRIFT', d.get_meandrift)):
            w = np.moveaxis(h.dof[nm, b], 2, 0)
            for g in [f(b), f(bodyid=b)] + ([f()] if b == 1 else []):
                bad = eq('%s of body %d' % (nm, b), g, w)
                if bad:
                    return bad
        if h.ns:
            bad = eq('section forces of body %d' % b,
                     d.get_sectionforce_raos(b),
                     np.moveaxis(h.dof['W1SFORCE', b], 3, 1))
            if bad:
                return bad
        if b in h.panelbody:
            bad = eq('panel pressures of body %d' % b,
                     d.get_panel_pressures(b),
                     h.pan[b].transpose(3, 2, 0, 1))
            if bad:
                return bad
        p = d.get_bodyproperties(b)
        w = dict(zip(COLS, [float(x) for x in h.body[b][:14]]))
        if set(p) != set(w) | {'t'}:
            return 'body properties %s' % sorted(p)
        for k, v in w.items():
            if float(p[k]) != v:
                return 'property %s of body %d is %r, expected %r' % (
                    k, b, p[k], v)
        bad = eq('t of body %d' % b, p['t'], h.body[b][14:].reshape(4, 4))
        if bad:
            return bad


def errors(h, d):
    unk = [b for b in range(1, 12) if b not in h.bodies]
    for b in unk + [0, -1, 99]:
        for f in (d.get_motion_raos, d.get_excitationforce_raos,
                  d.get_meandrift, d.get_horiz_meandrift,
                  d.get_bodyproperties, d.get_bodymass, d.get_addedmass,
                  d.get_potentialdamping) + ((
                      d.get_sectionforce_raos,) if h.ns else ()) + ((
                          d.get_panel_pressures,
                          d.get_pressure_panel_ids) if h.npan else ()):
            if raises(f, b) is None:
                return '%s(%d) of an unknown body raises no error' % (
                    f.__name__, b)
        for t in H.MTYPS:
            if raises(d.get_matrix, t, h.bodies[0], b) is None:
                return 'matrix of an unknown coupling body: no error'
    for t in (0, 1, 13, 23, 33, 110, -11, '11', None):
        if raises(d.get_matrix, t, h.bodies[0], h.bodies[0]) is None:
            return 'matrix type %r raises no error' % (t,)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 17)
    for k in range(ctx.budget(26, 400)):
        h = H.make(rng, nbody=[1, 2, 3][k % 3])
        with H.opened(ctx, h) as d:
            ctx.count('hydrodynamic files')
            for f in (matrices, bodies, errors):
                guarded(ctx, f.__name__, H.describe(h), lambda: f(h, d))
