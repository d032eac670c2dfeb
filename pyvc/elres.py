"""Contracts of the element result functions (C14)"""
import z3
import numpy as np
from fractions import Fraction as Fr
from . import core, arrays
from .core import Engine, Cplx, SReal, wrap

FILE = 'freesif/data/strucdata.py'
TYPES = (15, 23, 24, 25, 26, 28)
NPTS = {15: (3, 6), 23: (2, 6), 24: (10, 3), 25: (8, 3), 26: (6, 5),
        28: (8, 5)}
IDX = {24: [(0, 5), (1, 6), (4, 9), (3, 8)], 25: [(0, 4), (1, 5), (3, 7)]}
QUADNODES = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1),
             (-1, 0)]
TRINODES = [(1, 0), (Fr(1, 2), Fr(1, 2)), (0, 1), (0, Fr(1, 2)), (0, 0),
            (Fr(1, 2), 0)]
TRUSTED = [
    'floating-point arithmetic is treated as arithmetic of real numbers, '
    'sqrt(3) as the positive root of 3; complex values as pairs of reals',
    'numpy: indexing, reshape, rollaxis, dot, transpose on arrays of fixed '
    'shape are executed by numpy itself on symbolic entries']
SIX = Fr(1, 6)


class Group(object):
    """stub of the HDF5 group of a data object"""
    _v_name = 'T1'

    def __init__(self, **a):
        self.a = dict(RECORDS=(), SELTYP=1, LEVEL='FIRSTLEVEL',
                      FILETYPE='T', DATATYPE='STRUCTURAL', INDEX=1)
        self.a.update(a)

    def _f_getattr(self, n):
        return self.a[n]


def g_():
    """1/sqrt(3)"""
    return arrays.fsqrt(3)/3


def num(E, cplx):
    return Cplx(E.real('re'), E.real('im')) if cplx else E.real('c')


def field(E, eltyp, cplx):
    """(stored values (points, comps), field(node, surface) -> comps).

    The stored values are those of an arbitrary field of the kind the element
    interpolates; every set of stored values is of this form."""
    n, nc = NPTS[eltyp]
    g = g_()
    if eltyp in (26, 28):
        def basis(p):
            if eltyp == 28:
                return [1, p[0], p[1], p[0]*p[1]]
            return [1, p[0], p[1]]
        if eltyp == 28:
            gps = [(-g, -g), (g, -g), (-g, g), (g, g)]
            nodes = QUADNODES
        else:
            gps = [(2*SIX*2, SIX), (SIX, 4*SIX), (SIX, SIX)]
            nodes = TRINODES
        nb = len(basis(nodes[0]))
        A = [[num(E, cplx) for _ in range(nb)] for c in range(nc)]
        B = [[num(E, cplx) for _ in range(nb)] if c < 3 else
             [0]*nb for c in range(nc)]

        def f(p, z, c):
            b = basis(p)
            r = 0
            for k in range(nb):
                r = r + A[c][k]*b[k]
                if c < 3:
                    r = r + B[c][k]*(b[k]*z)
            return r
        d = np.empty((2, len(gps), nc), object)
        for s, z in enumerate((-g, g)):
            for i, p in enumerate(gps):
                for c in range(nc):
                    d[s, i, c] = f(p, z, c)
        return d.reshape(n, nc), f, nodes
    d = np.empty((n, nc), object)
    for i in range(n):
        for c in range(nc):
            d[i, c] = num(E, cplx)
    return d, None, None


def expected(eltyp, restype, d, f, nodes):
    if eltyp == 15:
        return d[[0, 2]]
    if eltyp == 23:
        a, b = d
        r = np.empty((3, 6), object)
        for c in range(6):
            # the field m + k*x with x = -g, g at the two points
            m, k = (a[c] + b[c])*Fr(1, 2), (b[c] - a[c])*Fr(1, 2)
            k = k*arrays.fsqrt(3)
            r[0, c], r[1, c], r[2, c] = m - k, m, m + k
        return r
    h = Fr(1, 2)
    if eltyp in (24, 25):
        idx = IDX[eltyp]
        s = np.array([[d[i], d[j]] for i, j in idx])
        if restype == 'generalstress':
            return s
        r = np.empty((len(idx), 6), object)
        for i in range(len(idx)):
            for c in range(3):
                r[i, c] = (s[i, 0, c] + s[i, 1, c])*h
                r[i, 3 + c] = (s[i, 1, c] - s[i, 0, c])*h
        return r
    nn = len(nodes)
    if restype == 'generalstress':
        r = np.empty((nn, 2, 5), object)
        for i, p in enumerate(nodes):
            for s, z in enumerate((-1, 1)):
                for c in range(5):
                    r[i, s, c] = f(p, z, c) if c < 3 else 0
        return r
    r = np.empty((nn, 8), object)
    for i, p in enumerate(nodes):
        for c in range(3):
            lo, up = f(p, -1, c), f(p, 1, c)
            r[i, c] = (lo + up)*h
            r[i, 3 + c] = (up - lo)*h
        for c in range(2):
            r[i, 6 + c] = f(p, 0, 3 + c)*Fr(3, 2)
    return r


def instance(m):
    return m.FirstLevelData(Group(), None)


def process(eltyp, restype, cplx):
    E = Engine('element type %d, %s%s' % (
        eltyp, restype, ', complex' if cplx else ''), timeout=20000)

    def body():
        m, np_ = arrays.load(FILE)
        o = instance(m)
        d, f, nodes = field(E, eltyp, cplx)
        e = expected(eltyp, restype, d.copy(), f, nodes)
        try:
            r = o._process_element_results(eltyp, restype, 'nodes',
                                           d.copy().reshape(-1))
        except (AttributeError, TypeError) as ex:
            raise core.Unsupported('%s' % ex)
        except Exception as ex:
            E.fail('returns', '%s: %s' % (type(ex).__name__, ex))
            return
        E.cover('returns')
        if not isinstance(r, np.ndarray) or r.shape != e.shape:
            E.fail('documented shape', '%s, not %s' % (
                getattr(r, 'shape', type(r)), e.shape))
            return
        E.prove('documented shape', z3.BoolVal(True))
        for i in np.ndindex(e.shape):
            E.prove_eq('value %s at the nodes' % (i,), r[i], e[i])
    return E.explore(body)


def tasks():
    from .report import Task
    out = []
    for t in TYPES:
        rts = ('beamforce',) if t in (15, 23) else ('generalstress',
                                                    'decomposedstress')
        for rt in rts:
            for c in (False, True):
                out.append(Task('element results, type %d, %s%s' % (
                    t, rt, ', complex' if c else ''), process, (t, rt, c)))
    return out
