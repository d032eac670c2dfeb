"""C16 - hydrodynamic results have the documented axes for all counts"""
import numpy as np
from vlib import hydromodel as H
from vlib.strucapi import guarded, raises


def deductive(ctx):
    from pyvc import hydro
    return hydro.tasks16(), hydro.TRUSTED


def eq(what, got, want, exact=True):
    got, want = np.array(got), np.array(want)
    if got.shape != want.shape:
        return '%s: shape %s, expected %s' % (what, got.shape, want.shape)
    ok = np.array_equal(got, want) if exact else np.allclose(
        got, want, rtol=2e-6, atol=0)
    if not ok:
        i = tuple(np.argwhere(~np.isclose(got, want, rtol=2e-6, atol=0))[0]) \
            if not exact else tuple(np.argwhere(got != want)[0])
        return '%s: value at %s is %r, expected %r' % (what, [int(x) for x in
                                                              i], got[i],
                                                       want[i])


def check(h, d):
    out = [eq('frequencies', d.get_angular_freqs(), h.freqs),
           eq('periods', d.get_periods(), 2*np.pi/h.freqs.astype('f8'),
              False),
           eq('directions', d.get_directions('radians'), h.dirs),
           eq('directions in degrees', d.get_directions(),
              np.degrees(h.dirs.astype('f8')), False),
           eq('directions in degrees', d.get_directions('degrees'),
              np.degrees(h.dirs.astype('f8')), False)]
    mv = np.moveaxis
    for b in h.bodies:
        for nm, f in (('W1MOTION', d.get_motion_raos),
                      ('W1EXFORC', d.get_excitationforce_raos),
                      ('W2HDRIFT', d.get_horiz_meandrift),
                      ('W2MDRIFT', d.get_meandrift)):
            out.append(eq('%s body %d' % (nm, b), f(b), mv(h.dof[nm, b], 2,
                                                           0)))
        if h.ns:
            out.append(eq('section forces body %d' % b,
                          d.get_sectionforce_raos(b),
                          mv(h.dof['W1SFORCE', b], 3, 1)))
        if b in h.panelbody:
            out.append(eq('panel pressures body %d' % b,
                          d.get_panel_pressures(b),
                          h.pan[b].transpose(3, 2, 0, 1)))
            out.append(eq('panel ids', d.get_pressure_panel_ids(b),
                          [(p, s + 1) for s in range(h.nsym)
                           for p in h.panid]))
    if not h.npan:
        if d.get_panel_pressures(h.bodies[0]) is not None:
            out.append('panel pressures without panels')
        if d.get_pressure_panel_ids(h.bodies[0]) is not None:
            out.append('panel ids without panels')
    if h.np:
        p = mv(h.p, 2, 0)
        out.append(eq('pressure', d.get_fluidkinematics_raos('pressure'), p))
        e = p.astype('c16')/h.ro/h.g
        for g in (d.get_fluidkinematics_raos(),
                  d.get_fluidkinematics_raos('elevation')):
            g = np.array(g)
            if g.shape != e.shape or not np.allclose(
                    g, e, rtol=1e-5, atol=1e-6*np.abs(e).max()):
                out.append('wave elevation is not pressure/(ro g)')
        out.append(eq('velocity', d.get_fluidkinematics_raos('velocity'),
                      h.v.transpose(2, 3, 0, 1)))
        out.append(eq('points', d.get_points(), h.points))
        for k in ('Pressure', 'x', None):
            if raises(d.get_fluidkinematics_raos, k) is None:
                out.append('kind %r raises no error' % k)
    if h.ns:
        s = d.get_sections()
        out.append(eq('sections p1', s['p1'], h.sec[:, :3]))
        out.append(eq('sections p2', s['p2'], h.sec[:, 3:6]))
        out.append(eq('sections p3', s['p3'], h.sec[:, 6:]))
        out.append(eq('section numbers', s['secusr'], 10 +
                      np.arange(h.ns)))
        out.append(eq('section types', s['isecty'], 1 + np.arange(h.ns) % 3))
    out.append(eq('globals', [d.g, d.ro, d.depth], np.float32(
        [h.g, h.ro, h.depth])))
    if raises(d.get_timesteps) is None:
        out.append('time steps of frequency domain results')
    for u in ('deg', 'x', None):
        if raises(d.get_directions, u) is None:
            out.append('unit %r raises no error' % u)
    return next((x for x in out if x), None)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 16)
    for k in range(ctx.budget(30, 500)):
        h = H.make(rng)
        with H.opened(ctx, h) as d:
            ctx.count('hydrodynamic files')
            guarded(ctx, 'hydrodynamic results', H.describe(h),
                    lambda: check(h, d))
            # a second query gives the same answers
            guarded(ctx, 'hydrodynamic results, second query',
                    H.describe(h), lambda: check(h, d))
    for k in range(ctx.budget(2, 10)):
        h = H.make(rng, timedomain=True)
        with H.opened(ctx, h) as d:
            ctx.count('time domain files')
            guarded(ctx, 'time steps', None, lambda: eq(
                'time steps', d.get_timesteps(), h.times))
            for f in (d.get_angular_freqs, d.get_periods, d.get_motion_raos,
                      d.get_panel_pressures, d.get_fluidkinematics_raos):
                if raises(f) is None:
                    ctx.fail('%s on time domain results raises no error' %
                             f.__name__)
