"""Stored data of arbitrary size behind the real data classes.

World builds an instance of a data class of the code under proof on a stub of
its HDF5 group: every table and array the class asks for has an arbitrary
number of rows with arbitrary values (the pytables interface in vec)."""
import builtins
import numpy as np
import tables as tb
import z3
from . import core, inst, vec, arrays
from .core import wrap, sem, Unsupported, arith
from .seq import iexpr

TRUSTED = [
    'pytables: Table.where/read_where/col/__getitem__/iterrows and '
    'EArray.__getitem__ return the stored rows that satisfy the condition, '
    'in stored order; conditions are read as pytables (numexpr) reads them',
    'numpy on arrays of arbitrary length acts position by position '
    '(indexing, masks, take, reshape in row-major order, rollaxis, moveaxis, '
    'unique = the distinct values in ascending order, concatenate)',
    'the stored tables are what C03/C04 prove of the conversion; floating-'
    'point arithmetic is treated as arithmetic of real numbers']


class Closed(Exception):
    pass


class Other(object):
    """an argument that differs from every value the code compares it with"""

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = object.__hash__

    def __repr__(self):
        return '<other>'

    def __str__(self):
        return '<other>'


class Group(object):
    """stub of the HDF5 group of a data object"""

    def __init__(self, world, name='G1', **a):
        self._v_name = name
        self.w = world
        self.a = dict(RECORDS=(), SELTYP=1, LEVEL='FIRSTLEVEL',
                      FILETYPE='G', DATATYPE='STRUCTURAL', INDEX=1)
        self.a.update(a)
        self._v_pathname = '/' + name

    def _f_getattr(self, n):
        if n not in self.a:
            raise sem(AttributeError(n))
        return self.a[n]

    def _f_get_child(self, n):
        r = self.w.child(n)
        if r is None:
            raise sem(tb.NoSuchNodeError(n))
        return r

    def __contains__(self, n):
        return self.w.child(n) is not None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a group' % n)


class World(object):
    """all records of one data object"""

    def __init__(self, absent=(), inner=None, given=None):
        from freesif.sequentialparser import parsers
        self.P = parsers
        self.absent, self.inner = set(absent), inner or {}
        self.given = given or {}
        self.nodes = {}
        self.names = {}
        for k in parsers.descriptors:
            self.names[k.lower()] = k
        self.arrs = {}
        for k, l in parsers.atoms.items():
            for name, atom, shape in l or ():
                self.arrs['%s_%s' % (k.lower(), name)] = (k, atom, shape)

    def child(self, n):
        if n in self.nodes:
            return self.nodes[n]
        if n in self.names:
            k = self.names[n]
            if k in self.absent:
                return None
            dt = tb.dtype_from_descr(self.P.descriptors[k])
            more = [('%s_%s' % (a[0], q), 'i4') for a in
                    self.P.atoms.get(k) or () for q in ('start', 'stop')]
            if more:
                dt = np.dtype(dt.descr + more)
            r = vec.Table(n, dt, None, self.given.get(n),
                          self.inner.get(n))
        elif n in self.arrs:
            k, atom, shape = self.arrs[n]
            if k in self.absent:
                return None
            kind = 'i' if atom.kind in ('int', 'uint') else 'f'
            g = self.given.get(n)
            r = vec.EArr(n, kind, None, tuple(shape or ()),
                         g.get('') if g else None)
        else:
            return None
        self.nodes[n] = r
        return r

    def group(self, **a):
        present = tuple(sorted(k for k in self.names.values()
                               if k not in self.absent))
        a.setdefault('RECORDS', present)
        return Group(self, **a)


class Np(vec.Np):
    """pi is a symbol"""

    def __getattr__(self, n):
        if n == 'pi':
            p = core.SReal(z3.Real('pi'))
            return p
        if n in ('degrees', 'rad2deg'):
            return lambda x: x*180/self.pi
        if n in ('radians', 'deg2rad'):
            return lambda x: x*self.pi/180
        return vec.Np.__getattr__(self, n)


def load(rel, real=True):
    """the module under proof on instrumented helpers and sifdata"""
    np_ = Np()
    others = {}
    for dep in ('helpers', 'sifdata'):
        others[dep] = arrays.load('freesif/data/%s.py' % dep, np_, real,
                                  None)[0]
    return arrays.load(rel, np_, real, others)[0]


def run(E, f, *a, **k):
    """(value, exception)"""
    try:
        return f(*a, **k), None
    except Exception as e:
        if getattr(e, 'semantic', False) or isinstance(e, (
                ValueError, KeyError, IndexError, ZeroDivisionError)):
            return None, e
        raise Unsupported('%s: %s' % (type(e).__name__, e))
