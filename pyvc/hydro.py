"""Contracts of the hydrodynamic data functions (C16, C17)"""
import z3
import numpy as np
from . import core, vec, stubs
from .core import Engine, wrap, arith, truth, Cplx, SReal
from .vec import NArr, Row, X
from .seq import iexpr
from .report import Task
from .stubs import World, Other, run

FILE = 'freesif/data/hydrodata.py'
TRUSTED = stubs.TRUSTED + [
    'hydrodynamic files as documented in HydroData: one row of the result '
    'table per combination of direction, frequency and section, point or '
    'panel, with the number of rows their product; density and gravity are '
    'not zero']


def make(E, absent=()):
    m = stubs.load(FILE)
    w = World(absent, inner=None)
    E.assume(z3.Real('pi') > 3)
    tb_ = {}
    g = w.group(name='G1', DATATYPE='HYDRODYNAMIC', LEVEL='TOPLEVEL')
    gl = w.child('wglobdef')
    E.assume(gl.n == 1)
    E.assume(arith(gl.value('ro', z3.IntVal(0))) != 0)
    E.assume(arith(gl.value('g', z3.IntVal(0))) != 0)
    f = w.child('wdresref_freq')
    k = z3.Int('k!pos')
    E.assume(z3.ForAll([k], arith(f.cell(k, z3.IntVal(1))) > 0))
    return m, w, g


def spec_dims(E, w):
    """(directions, frequencies): arrays in order of first occurrence"""
    out = []
    for nm in ('dir', 'freq', 'time'):
        a = w.child('wdresref_' + nm)
        d = first(a)
        out.append((d, NArr((d.n,), lambda i, a=a, d=d: a.cell(
            d.at(i), z3.IntVal(1)), d)))
    return out


def first(a):
    """positions of the first occurrences of the values of column 1"""
    j = z3.Int('j!fo')
    one = z3.IntVal(1)
    return vec.unique_dom(lambda x: z3.And(
        x >= 0, x < a.n, z3.Not(z3.Exists([j], z3.And(
            j >= 0, j < x, arith(a.cell(j, one)) == arith(
                a.cell(x, one)))))))


class S(object):
    pass


def setup(E, absent=(), need=None):
    """instance of HydroData on arbitrary records, or None"""
    m, w, g = make(E, absent)
    s = S()
    s.m, s.w = m, w
    o, ex = run(E, m.HydroData, g, None)
    if ex is not None:
        E.fail('opening returns', repr(ex))
        return None
    (s.dd, s.dirs), (s.df, s.freqs), (s.dt, s.times) = spec_dims(E, w)
    s.D, s.F = s.dd.n, s.df.n
    s.o = o
    return s


def body_row(E, s, b):
    """first row of wbodcon with ibody == b (fresh index), or absent"""
    t = s.w.child('wbodcon')
    k0 = E.int('k0').e
    j = z3.Int('j!body')
    E.assume(z3.And(k0 >= 0, k0 < t.n,
                    iexpr(t.value('ibody', k0)) == b,
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k0),
                                              iexpr(t.value('ibody', j))
                                              != b))))
    return t, k0, iexpr(t.value('ibcond', k0))


def no_body(E, s, b):
    t = s.w.child('wbodcon')
    j = z3.Int('j!body')
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t.n), iexpr(
        t.value('ibody', j)) != b)))


def rows(t, p):
    return vec.unique_dom(lambda x: z3.And(x >= 0, x < t.n, p(x)))


def axis_result(getter, rec, col, order, inner, cplx=True):
    """contract of a result getter: order gives the names of the axes of the
    table rows (outermost first), out those of the result"""


GETTERS = {
    # name: (record, column, row axes, result axes, takes a body)
    'get_motion_raos': ('w1motion', 'data', 'DF', 'cDF', True),
    'get_excitationforce_raos': ('w1exforc', 'data', 'DF', 'cDF', True),
    'get_sectionforce_raos': ('w1sforce', 'data', 'SDF', 'ScDF', True),
    'get_meandrift': ('w2mdrift', 'smfor', 'DF', 'cDF', True),
    'get_horiz_meandrift': ('w2hdrift', 'shfor', 'DF', 'cDF', True),
    'get_panel_pressures': ('w1panpre', 'p', 'DFYN', 'NYDF', True),
    ('get_fluidkinematics_raos', 'pressure'): (
        'wfluidkn', 'p', 'DFP', 'PDF', False),
    ('get_fluidkinematics_raos', 'elevation'): (
        'wfluidkn', 'p', 'DFP', 'PDF', False),
    ('get_fluidkinematics_raos', None): (
        'wfluidkn', 'p', 'DFP', 'PDF', False),
    ('get_fluidkinematics_raos', 'velocity'): (
        'wfluidkn', 'v', 'DFP', 'PcDF', False),
}
NC = {'get_horiz_meandrift': 3}


def distinct(E, t, sel, col):
    """number of distinct values of a column over selected rows"""
    x, y = z3.Int('x!dv'), z3.Int('y!dv')
    d = vec.unique_dom(lambda v: z3.Exists([x], z3.And(
        sel.pred(x), iexpr(t.value(col, x)) == v)))
    return d.n


def expected(E, s, g, sel):
    rec, col, src, out, body = GETTERS[g]
    t = s.w.child(rec)
    dims = {'D': s.D, 'F': s.F}
    if 'S' in src:
        dims['S'] = s.w.child('wsection').n
    if 'P' in src:
        dims['P'] = s.w.child('wfkpoint').n
    if 'Y' in src:
        dims['Y'] = distinct(E, t, sel, 'isymm1')
        dims['N'] = distinct(E, t, sel, 'ipan')
    if 'c' in out:
        k, sh = t.kind(col)
        dims['c'] = sh[0]
    n = z3.IntVal(1)
    for a in src:
        n = n*dims[a]
    E.assume((sel.n if body else t.n) == z3.simplify(n))
    kind = g[1] if isinstance(g, tuple) else None
    w = s.w.child('wglobdef')
    ro, gr = w.value('ro', z3.IntVal(0)), w.value('g', z3.IntVal(0))

    def f(*ix):
        v = dict(zip(out, ix))
        r = z3.IntVal(0)
        for a in src:
            r = r*dims[a] + v[a]
        r = z3.simplify(r)
        row = sel.at(r) if body else r
        cix = (v['c'],) if 'c' in out else ()
        x = t.cell(col, row, cix, t.kind(col)[0])
        if isinstance(g, tuple) and kind in (None, 'elevation'):
            x = x/ro/gr
        return x
    return NArr([dims[a] for a in out], f, None, 'c8')


def call(s, g, b):
    f = getattr(s.o, g if isinstance(g, str) else g[0])
    if isinstance(g, tuple):
        return f() if g[1] is None else f(g[1])
    return f(b)


def compare(E, name, got, want):
    from .seq import Seq, SList
    if not isinstance(got, (NArr, np.ndarray, vec.CArr)):
        E.fail(name, 'result is %s' % type(got).__name__)
        return
    if isinstance(got, NArr) and len(got.dims) != len(want.dims):
        E.fail(name + ': documented axes', '%d axes' % len(got.dims))
        return
    E.prove_eq(name, got, want)


def label(g):
    return g if isinstance(g, str) else '%s(%s)' % (g[0], g[1] or '')


def getter(g):
    rec = GETTERS[g][0]
    E = Engine('HydroData.%s' % label(g), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        b = E.int('bodyid')
        E.assume(s.F > 0)
        t = s.w.child(rec)
        if GETTERS[g][4]:
            wb, k0, ib = body_row(E, s, b.e)
            sel = rows(t, lambda x: iexpr(t.value('ibcond', x)) == ib)
        else:
            sel = None
        if rec == 'w1panpre':
            E.assume(sel.n > 0)
        want = expected(E, s, g, sel)
        r, ex = run(E, call, s, g, b)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        compare(E, 'each entry is the stored value of its record', r, want)
        r, ex = run(E, call, s, g, b)
        if ex is not None:
            E.fail('returns again', repr(ex))
            return
        compare(E, 'each entry again', r, want)
    return E.explore(body)



def error(E, name, ex, *kinds):
    if ex is None:
        E.fail(name)
    else:
        E.prove(name, z3.BoolVal(True))


def axes():
    """frequencies, periods, directions; arguments that are refused"""
    E = Engine('HydroData axes', timeout=20000)
    pi = SReal(z3.Real('pi'))

    def body():
        s = setup(E)
        if s is None:
            return
        o = s.o
        for rep in ('', ' again'):
            for what, f, want in (
                    ('angular frequencies in file order, each once',
                     o.get_angular_freqs, s.freqs),
                    ('periods', o.get_periods, 2*pi/s.freqs)):
                r, ex = run(E, f)
                if E.decide(s.F > 0):
                    if ex is not None:
                        E.fail(what + ' returned', repr(ex))
                    else:
                        E.cover(what)
                        compare(E, what + rep, r, want)
                else:
                    error(E, 'no frequencies: error' + rep, ex)
            for u, want in ((None, s.dirs*180/pi), ('degrees',
                                                    s.dirs*180/pi),
                            ('radians', s.dirs)):
                r, ex = run(E, o.get_directions, *([u] if u else []))
                if ex is not None:
                    E.fail('directions returned', repr(ex))
                else:
                    E.cover('directions %s' % u)
                    compare(E, 'directions in file order, each once, in %s'
                            % (u or 'degrees by default') + rep, r, want)
        for u in (Other(), 'deg', 'Degrees', '', 'rad'):
            r, ex = run(E, o.get_directions, u)
            error(E, 'unknown unit is refused', ex)
        if E.decide(s.F > 0):
            for k in (Other(), 'Pressure', '', 'x'):
                r, ex = run(E, o.get_fluidkinematics_raos, k)
                error(E, 'unknown kind of fluid kinematics is refused', ex)
        else:
            b = E.int('bodyid')
            for g in GETTERS:
                r, ex = run(E, call, s, g, b)
                error(E, 'time domain: frequency results are refused', ex)
    return E.explore(body)


def timesteps():
    E = Engine('HydroData.get_timesteps', timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        r, ex = run(E, s.o.get_timesteps)
        if E.decide(s.F > 0):
            error(E, 'frequency domain: time steps are refused', ex)
            return
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('time domain')
        E.prove('the distinct time steps', z3.BoolVal(
            isinstance(r, vec.RealUnique) and r.d is s.dt))
    return E.explore(body)


def points():
    E = Engine('HydroData.get_points, get_sections', timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        t = s.w.child('wfkpoint')
        r, ex = run(E, s.o.get_points)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('points')
        compare(E, 'points in stored order', r, t.col('fkpnt'))
        t = s.w.child('wsection')
        r, ex = run(E, s.o.get_sections)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        for c in ('secusr', 'isecty', 'p1', 'p2', 'p3'):
            try:
                v = r[c]
            except Exception as ex:
                E.fail('section field ' + c, repr(ex))
                continue
            compare(E, 'section %s in stored order' % c, v, t.col(c))
        w = s.w.child('wglobdef')
        for a in ('g', 'ro', 'depth'):
            E.prove_eq('global ' + a, getattr(s.o, a), w.value(
                a, z3.IntVal(0)))
    return E.explore(body)


def absent():
    """no sections, points or panels on the file"""
    E = Engine('HydroData without sections, points and panels',
               timeout=20000)

    def body():
        s = setup(E, ('WSECTION', 'WFKPOINT', 'W1PANPRE', 'W1MOTION'))
        if s is None:
            return
        E.assume(s.F > 0)
        E.cover('opens')
        b = E.int('bodyid')
        for g in ('get_panel_pressures', 'get_pressure_panel_ids'):
            r, ex = run(E, getattr(s.o, g), b)
            if ex is not None:
                E.fail(g + ': nothing without panels', repr(ex))
            else:
                E.prove(g + ': nothing without panels',
                        z3.BoolVal(r is None))
        for f, a in ((s.o.get_sections, ()), (s.o.get_points, ()),
                     (s.o.get_motion_raos, (b,))):
            r, ex = run(E, f, *a)
            error(E, 'absent records are refused', ex)
    return E.explore(body)


def panel_ids():
    E = Engine('HydroData.get_pressure_panel_ids', timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        b = E.int('bodyid')
        E.assume(s.F > 0)
        t = s.w.child('w1panpre')
        wb, k0, ib = body_row(E, s, b.e)
        sel = rows(t, lambda x: iexpr(t.value('ibcond', x)) == ib)
        E.assume(sel.n > 0)
        x = z3.Int('x!dv')
        ds = [vec.unique_dom(lambda v: z3.Exists([x], z3.And(
            sel.pred(x), iexpr(t.value(c, x)) == v)))
            for c in ('ipan', 'isymm1')]
        E.assume(z3.And(ds[0].n > 0, ds[1].n > 0))
        r, ex = run(E, s.o.get_pressure_panel_ids, b)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        N, Y = ds[0].n, ds[1].n
        want = NArr((Y, N, z3.IntVal(2)), lambda y, p, c: core.ite(
            c == 0, wrap(ds[0].at(p)), wrap(ds[1].at(y))))
        if isinstance(r, vec.Blocks) and len(r.a.dims) == 3:
            compare(E, 'every panel with every symmetry part', r.a, want)
        else:
            raise core.Unsupported('form of the panel list')
    return E.explore(body)


MTYPS = {11: 0, 22: 0, 31: 0, 32: 0, 12: 1, 21: 1}
NAMED = {'get_bodymass': 11, 'get_addedmass': 12,
         'get_potentialdamping': 21, 'get_viscousdamping': 22,
         'get_hydrostatic_restoring': 31, 'get_mooring_restoring': 32}


def matrix(name, mt, default):
    E = Engine('HydroData.%s%s' % (
        name + ('(%d)' % mt if name == 'get_matrix' else ''),
        ', default bodies' if default else ''), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        t = s.w.child('w1matrix')
        one = wrap(z3.IntVal(1))
        b1, b2 = (one, one) if default else (E.int('bodyid'),
                                             E.int('bodyid2'))
        f = getattr(s.o, name)
        a = (mt,) if name == 'get_matrix' else ()
        if not default:
            a = a + (b1, b2)
        _, _, i1 = body_row(E, s, arith(b1))
        i2 = i1 if default else body_row(E, s, arith(b2))[2]

        def p(x):
            return z3.And(iexpr(t.value('ibconi', x)) == i1,
                          iexpr(t.value('ibconj', x)) == i2,
                          iexpr(t.value('imtyp', x)) == mt)
        sel = rows(t, p)
        if not MTYPS[mt]:
            k0 = E.int('k0').e
            j = z3.Int('j!m')
            some = E.bool('some').e
            if E.decide(some):
                E.assume(z3.And(k0 >= 0, k0 < t.n, p(k0), z3.ForAll(
                    [j], z3.Implies(z3.And(j >= 0, j < k0), z3.Not(p(j))))))
            else:
                E.assume(z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < t.n), z3.Not(p(j)))))
                r, ex = run(E, f, *a)
                error(E, 'no such matrix: error', ex)
                return
        r, ex = run(E, f, *a)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        if MTYPS[mt]:
            w = NArr((z3.IntVal(6), z3.IntVal(6), sel.n), lambda i, j, k:
                     t.cell('hmat', sel.at(k), (i, j), 'f'))
            compare(E, 'matrices of the type and bodies, stacked along the '
                    'last axis in stored order', r, w)
        else:
            compare(E, 'the six by six matrix of the type and bodies', r,
                    t.value('hmat', k0))
    return E.explore(body)


def bad_matrix():
    E = Engine('HydroData.get_matrix, unknown type', timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        mt = E.int('mtyp')
        E.assume(z3.And(*[mt.e != k for k in MTYPS]))
        r, ex = run(E, s.o.get_matrix, mt, E.int('bodyid'), E.int('bodyid2'))
        error(E, 'unknown matrix type is refused', ex)
        E.cover('refused')
    return E.explore(body)


def bad_body():
    E = Engine('HydroData, unknown body', timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        b = E.int('bodyid')
        E.assume(s.F > 0)
        no_body(E, s, b.e)
        for g in GETTERS:
            if GETTERS[g][4]:
                r, ex = run(E, call, s, g, b)
                error(E, label(g) + ': unknown body is refused', ex)
        r, ex = run(E, s.o.get_bodyproperties, b)
        error(E, 'get_bodyproperties: unknown body is refused', ex)
        for m in MTYPS:
            c = E.int('other')
            r, ex = run(E, s.o.get_matrix, m, b, c)
            error(E, 'get_matrix: unknown body is refused', ex)
        E.cover('refused')
    return E.explore(body)


def bad_body2(m):
    E = Engine('HydroData.get_matrix(%d), unknown coupling body' % m,
               timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        b = E.int('bodyid2')
        no_body(E, s, b.e)
        if m:
            r, ex = run(E, s.o.get_matrix, m, E.int('bodyid'), b)
            error(E, 'get_matrix: unknown coupling body is refused', ex)
        E.cover('refused')
    return E.explore(body)


def bodyprops(default):
    E = Engine('HydroData.get_bodyproperties%s' % (
        ', default body' if default else ''), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        b = wrap(z3.IntVal(1)) if default else E.int('bodyid')
        wb, k0, ib = body_row(E, s, arith(b))
        t = s.w.child('wbody')

        def p(x):
            return iexpr(t.value('ibcond', x)) == ib
        k1 = E.int('k1').e
        j = z3.Int('j!m')
        if E.decide(E.bool('some').e):
            E.assume(z3.And(k1 >= 0, k1 < t.n, p(k1), z3.ForAll(
                [j], z3.Implies(z3.And(j >= 0, j < k1), z3.Not(p(j))))))
        else:
            E.assume(z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < t.n), z3.Not(p(j)))))
            r, ex = run(E, s.o.get_bodyproperties,
                        *(() if default else (b,)))
            error(E, 'no properties: error', ex)
            return
        r, ex = run(E, s.o.get_bodyproperties, *(() if default else (b,)))
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        names = [n for n in t.names() if n not in ('nfield', 'ibcond')]
        try:
            keys = sorted(str(k) for k in r)
        except Exception as ex:
            raise core.Unsupported('result: %s' % ex)
        E.prove('every property is there', z3.BoolVal(
            keys == sorted(names)))
        for n in names:
            if n in keys:
                E.prove_eq('property %s of the body' % n, r[n],
                           t.value(n, k1))
    return E.explore(body)


def default_body(g):
    """the default body is number 1"""
    rec = GETTERS[g][0]
    E = Engine('HydroData.%s, default body' % label(g), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        E.assume(s.F > 0)
        t = s.w.child(rec)
        wb, k0, ib = body_row(E, s, z3.IntVal(1))
        sel = rows(t, lambda x: iexpr(t.value('ibcond', x)) == ib)
        if rec == 'w1panpre':
            E.assume(sel.n > 0)
        want = expected(E, s, g, sel)
        r, ex = run(E, getattr(s.o, g))
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        compare(E, 'default body is number 1', r, want)
    return E.explore(body)


def tasks16():
    return [Task('HydroData.' + label(g), getter, (g,)) for g in GETTERS] \
        + [Task('HydroData axes', axes),
           Task('HydroData.get_timesteps', timesteps),
           Task('HydroData.get_points, get_sections', points),
           Task('HydroData.get_pressure_panel_ids', panel_ids),
           Task('HydroData without sections, points, panels', absent)]


def tasks17():
    body = [g for g in GETTERS if GETTERS[g][4]]
    return [Task('HydroData.' + label(g), getter, (g,)) for g in body] + \
        [Task('HydroData.%s, default body' % g, default_body, (g,))
         for g in body] + \
        [Task('HydroData.get_matrix(%d)' % m, matrix,
              ('get_matrix', m, d)) for m in MTYPS for d in (0, 1)] + \
        [Task('HydroData.' + n, matrix, (n, m, d))
         for n, m in NAMED.items() for d in (0, 1)] + \
        [Task('HydroData.get_matrix(%d), unknown coupling body' % m,
              bad_body2, (m,)) for m in MTYPS] + \
        [Task('HydroData.get_matrix, unknown type', bad_matrix),
         Task('HydroData, unknown body', bad_body),
         Task('HydroData.get_bodyproperties', bodyprops, (0,)),
         Task('HydroData.get_bodyproperties, default', bodyprops, (1,)),
         Task('HydroData axes', axes, only=refusals)]


def refusals(n):
    return 'refused' in n


def tasks():
    return tasks16() + tasks17()
