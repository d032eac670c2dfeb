"""Contracts of the superelement transformations (C15).

Assumed of the stored hierarchy (what C03/C07 prove of a conversion, for a
hierarchy as Sesam writes it): the first record is the top level; every other
occurrence has a parent on a higher level and a transformation."""
import numpy as np
import z3
from . import core, vec, stubs, struc
from .core import Engine, wrap, Unsupported, PathEnd
from .loops import UNBOUND
from .seq import iexpr
from .report import Task
from .stubs import World, run
from .vec import Row

FILE = 'freesif/data/strucdata.py'
I = z3.IntSort()
A = z3.Function('chain', I, I)          # row of the k-th ancestor
H = z3.Function('tran', I, I)           # row of the transformation of row k
M = z3.DeclareSort('Matrix')
C = z3.Function('product', I, M)
T = z3.Function('transformation', I, M)
MUL = z3.Function('times', M, M, M)
TR = z3.Function('transposed', M, M)
EYE = z3.Const('identity', M)
TRUSTED = struc.TRUSTED + [
    'hierarchy of a model file as Sesam writes it: the first record is the '
    'top-level superelement, every other occurrence has a parent on a higher '
    'level and a transformation record, occurrences of first-level '
    'superelements are on level 1']


class W(object):
    pass


def world(E):
    E.fast = 1000
    m = stubs.load(FILE)
    s = W()
    s.w = w = World()
    s.h, s.t = w.child('hierarch'), w.child('hsuptran')
    value = s.t.value
    s.t.value = lambda c, i: Mat(T(i)) if c == 't' else value(c, i)
    g = w.group(LEVEL='TOPLEVEL', FILETYPE='T')
    E.assume(s.h.n > 0)
    E.assume(s.t.n > 0)
    s.top = hcol(s, 'islevl', z3.IntVal(0))
    o, ex = run(E, m.TopLevelData, g, None)
    if ex is not None:
        E.fail('opening returns', repr(ex))
        return None
    s.o, s.m = o, m
    return s


def hcol(s, c, k):
    return iexpr(s.h.value(c, k))


def first(E, t, k, p):
    """k is the first row of t with p"""
    j = z3.Int('j!first')
    E.assume(z3.And(k >= 0, k < t.n, p(k)))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k),
                                       z3.Not(p(j)))))


def occurrence(E, s):
    """arguments naming an existing occurrence on level 1"""
    typ, ind = E.int('seltyp'), E.int('index')
    first(E, s.h, A(z3.IntVal(0)), lambda k: z3.And(
        hcol(s, 'iselty', k) == typ.e, hcol(s, 'indsel', k) == ind.e))
    E.assume(hcol(s, 'islevl', A(z3.IntVal(0))) == 1)
    E.assume(s.top > 1)
    E.assume(C(z3.IntVal(0)) == EYE)
    link(E, s, z3.IntVal(0))
    return typ, ind


def link(E, s, k):
    """what holds of the k-th ancestor"""
    r = A(k)
    E.assume(z3.And(r >= 0, r < s.h.n))
    lev, par = hcol(s, 'islevl', r), hcol(s, 'ihpref', r)
    E.assume(lev <= s.top)
    E.assume((par == 0) == (lev == s.top))
    if not E.decide(par != 0):
        return
    n = A(z3.simplify(k + 1))
    first(E, s.h, n, lambda j: hcol(s, 'ihref', j) == par)
    E.assume(hcol(s, 'islevl', n) > lev)
    E.assume(hcol(s, 'islevl', n) <= s.top)
    E.assume((hcol(s, 'ihpref', n) == 0) == (hcol(s, 'islevl', n) == s.top))
    q = H(k)
    ref = hcol(s, 'itref', r)
    first(E, s.t, q, lambda j: iexpr(s.t.value('itref', j)) == ref)
    E.assume(C(z3.simplify(k + 1)) == (
        MUL(C(k), T(q)) if not z3.simplify(k).eq(z3.IntVal(0)) else T(q)))


class Mat(object):
    """4x4 matrix: products are uninterpreted but for the identity"""
    __array_ufunc__ = None
    shape, ndim, size = (4, 4), 2, 16

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, vec.NArr) and len(v.dims) == 2 and all(
                z3.is_int_value(d) for d in v.dims):
            v = v.concrete()
        if isinstance(v, np.ndarray) and v.shape == (4, 4):
            for i, j in np.ndindex(4, 4):
                x = core.numval(v[i, j])
                if x is None or not z3.is_true(z3.simplify(
                        x == int(i == j))):
                    raise Unsupported('matrix other than the identity')
            return Mat(EYE)
        raise Unsupported('matrix product with %s' % type(v).__name__)

    @staticmethod
    def vc_product(a, b):
        a, b = Mat.of(a), Mat.of(b)
        if a.e.eq(EYE):
            return b
        if b.e.eq(EYE):
            return a
        return Mat(MUL(a.e, b.e))

    def dot(self, o):
        return self.vc_product(self, o)
    __matmul__ = dot

    def __rmatmul__(self, o):
        return self.vc_product(o, self)

    @property
    def T(self):
        return Mat(TR(self.e))

    def transpose(self):
        return self.T

    def copy(self, *a):
        return self

    def astype(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a matrix' % n)

    def __setitem__(self, k, v):
        raise Unsupported('assignment to a matrix')


def is_matrix(v):
    return isinstance(v, Mat) or isinstance(v, (vec.NArr, np.ndarray)) and \
        len(v.shape) == 2


def same_matrix(E, name, v, k):
    E.prove(name, Mat.of(v).e == C(k))


class Chain(object):
    """invariant: the row is the k-th ancestor, the matrix the product of the
    transformations of the first k rows of the chain, and none of them but
    the last can be on the level asked for"""

    def __init__(self, E, s, L):
        self.E, self.s, self.L = E, s, L
        self.count = 0
        self.k = None
        self.m = None

    def kinds(self, w, now):
        out = []
        for nm, v in zip(w.names, now):
            if isinstance(v, Row) and v.table is self.s.h:
                out.append('row')
            elif is_matrix(v):
                out.append('matrix')
            elif v is UNBOUND:
                out.append('free')
            else:
                out.append('free')
        return out

    def below(self, k):
        """the ancestors before the k-th are below the level"""
        return hcol(self.s, 'islevl', A(z3.simplify(k - 1))) < self.L

    def upto(self, k):
        return hcol(self.s, 'islevl', A(k)) <= self.L

    def head(self, w):
        E, s = self.E, self.s
        self.count += 1
        now = w.read()[:len(w.names)]
        if self.count == 1:
            self.cl = self.kinds(w, now)
            if self.cl.count('row') != 1 or 'matrix' not in self.cl:
                raise Unsupported('variables of the loop over the hierarchy')
            row = now[self.cl.index('row')].i
            m = 0 if row.eq(A(z3.IntVal(0))) or E.must(
                row == A(z3.IntVal(0))) else 1
            self.m = z3.IntVal(m)
            self.check(now, self.m, 'before the first round: ')
            self.within = E.must(self.upto(self.m))
            k = self.k = E.int('k').e
            E.assume(k >= m)
            if E.decide(k > 0):
                # the previous round ran
                link(E, s, z3.simplify(k - 1))
                E.assume(self.below(k))
            link(E, s, k)
            if self.within:
                E.assume(self.upto(k))
        else:
            k = z3.simplify(self.k + 1)
            E.prove('every round goes to the parent, so that the loop ends',
                    hcol(s, 'islevl', now[self.cl.index('row')].i) >
                    hcol(s, 'islevl', A(self.k)))
            self.check(now, k, 'after a round: ')
            if self.within and not E.must(self.upto(k)):
                raise Unsupported('ancestors above the level in the loop')
            raise PathEnd()
        out = []
        for nm, c, v in zip(w.names, self.cl, now):
            if c == 'row':
                out.append(Row(s.h, A(k)))
            elif c == 'matrix':
                out.append(Mat(C(k)))
            else:
                out.append(core.Poison('%s, which the loop does not keep'
                                       % nm))
        return out

    def check(self, now, k, when):
        E, s = self.E, self.s
        for c, v in zip(self.cl, now):
            if c == 'row':
                if not isinstance(v, Row):
                    raise Unsupported('row of the loop')
                E.prove(when + 'the record is the ancestor', v.i == A(k))
            elif c == 'matrix':
                if not is_matrix(v):
                    raise Unsupported('matrix of the loop')
                same_matrix(E, when + 'the matrix is the product of the '
                            'transformations so far', v, k)
        if not (z3.is_int_value(k) and k.as_long() == 0):
            E.prove(when + 'the ancestors passed are below the level',
                    self.below(k))


def transformation(form):
    E = Engine('get_transformation, level ' + form, timeout=20000)

    def body():
        s = world(E)
        if s is None:
            return
        typ, ind = occurrence(E, s)
        if form == 'top':
            level, L = 'top', s.top
            k = {'level': 'top'} if E.decide(E.fresh(
                z3.BoolSort(), 'explicit')) else {}
        else:
            level = E.int('level')
            L, k = level.e, {'level': level}
            if form == 'one':
                E.assume(L == 1)
            elif form == 'higher':
                E.assume(L > s.top)
            elif form == 'lower':
                E.assume(L < 1)
            else:
                E.assume(z3.And(L > 1, L <= s.top))
        c = Chain(E, s, L)
        E.while_policy = lambda w: c
        r, ex = run(E, s.o.get_transformation, typ, ind, **k)
        E.while_policy = None
        if ex is None and form not in ('higher', 'lower') and c.count == 0 \
                and form != 'one':
            raise Unsupported('no loop over the hierarchy')
        if form in ('higher', 'lower'):
            E.cover('refused')
            E.prove('a level that does not exist is refused', z3.BoolVal(
                ex is not None))
            return
        if form == 'one':
            if ex is not None:
                E.fail('the identity on level one', repr(ex))
                return
            E.cover('returns')
            same_matrix(E, 'the identity on level one', r, z3.IntVal(0))
            return
        k = c.k
        if k is None:           # no loop was needed
            k = z3.IntVal(1)
        lev = hcol(s, 'islevl', A(k))
        if ex is not None:
            form == 'top' or E.cover('refused')
            E.prove('refused only where no ancestor is on the level',
                    z3.Or([absent(s, L, q) for q in (k, z3.simplify(
                        k + 1))]))
            return
        E.cover('returns')
        if not is_matrix(r):
            E.fail('a matrix is returned')
            return
        E.prove('the ancestor reached is on the level', lev == L)
        same_matrix(E, 'the product of the transformations along the chain '
                    'of parents up to the level', r, k)
    return E.explore(body)


def absent(s, L, k):
    """the level lies between two ancestors of the chain"""
    return z3.And(hcol(s, 'islevl', A(z3.simplify(k - 1))) < L,
                  hcol(s, 'islevl', A(k)) > L)


def unknown():
    E = Engine('get_transformation, unknown occurrence', timeout=20000)

    def body():
        s = world(E)
        if s is None:
            return
        typ, ind = E.int('seltyp'), E.int('index')
        j = z3.Int('j!unknown')
        E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.h.n), z3.Not(
            z3.And(hcol(s, 'iselty', j) == typ.e,
                   hcol(s, 'indsel', j) == ind.e)))))
        level = 'top' if E.decide(E.fresh(z3.BoolSort(), 'top')) else \
            E.int('level')
        r, ex = run(E, s.o.get_transformation, typ, ind, level)
        E.cover('end')
        E.prove('an unknown occurrence is refused', z3.BoolVal(
            ex is not None))
    return E.explore(body)


# ---- application to coordinates ---------------------------------------------


class Top(object):
    """the top-level object: any matrix, for what it is asked for"""

    def __init__(self, E):
        self.E = E
        self.calls = []
        self.m = entries('top')

    def get_transformation(self, seltyp, index, level='top'):
        self.calls.append((seltyp, index, level))
        return self.m.copy()

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the top level' % n)


def entries(nm, shape=(4, 4)):
    a = np.empty(shape, object)
    for ix in np.ndindex(*shape):
        a[ix] = core.SReal(z3.Real('%s_%s' % (nm, '_'.join(map(str, ix)))))
    return a


def moved(m):
    """homogeneous row vectors times the matrix"""
    return lambda v: [vec.sum_([v[q]*m[q, c] for q in range(3)] + [m[3, c]])
                      for c in range(3)]


def coordinates(form, kind, dis, how, letter):
    E = Engine('get_nodes, trans %s, %s-file, %s%s' % (
        how, letter, struc.label(form, kind), ', disconnected' if dis else
        ''), timeout=20000)

    def body():
        top = Top(E) if how in ('top', 'level', 'matrix') else None
        typ, ind, lev = E.int('seltyp'), E.int('INDEX'), E.int('level')
        own = entries('rsuptran')
        absent = ('RSUPTRAN',) if how == 'alone' else ()
        s = struc.setup(E, absent, top=top, FILETYPE=letter, SELTYP=typ,
                        INDEX=ind)
        if s is None:
            return
        if how == 'own':
            t = s.w.child('rsuptran')
            E.assume(t.n > 0)
            value = t.value
            t.value = lambda c, i: np.array([[core.SReal(z3.Function(
                'rsuptran.t', I, I, I, z3.RealSort())(i, p, q))
                for q in range(4)] for p in range(4)], object) \
                if c == 't' else value(c, i)
            own = t.value('t', z3.IntVal(0))
        sel = struc.Sel(E, s, form, kind)
        k = dict(sel.kw)
        if dis:
            k['disconnected'] = True
        index = E.int('index') if letter == 'T' and how in (
            'top', 'level') else None
        if index is not None:
            if E.decide(E.fresh(z3.BoolSort(), 'default')):
                E.assume(index.e == 1)
            else:
                k['index'] = index
        want = None
        if how in ('matrix', 'plain'):
            k['trans'] = entries('trans')
            want = entries('trans')
        elif how == 'level':
            k['trans'], want = lev, top.m
        else:
            k['trans'] = 'top'
            want = top.m if top else own if how == 'own' else None
        r, ex = run(E, s.o.get_nodes, **k)
        if want is None:
            E.cover('refused')
            E.prove('data without a top level are refused', z3.BoolVal(
                ex is not None))
            return
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        if how in ('top', 'level'):
            E.prove('the top level is asked', z3.BoolVal(
                len(top.calls) >= 1))
            for a, b, c in top.calls:
                E.prove('for the superelement of the data',
                        core.arith(a) == typ.e)
                E.prove('for the occurrence', core.arith(b) == (
                    ind.e if letter == 'R' else index.e))
                E.prove('for the level asked for', z3.BoolVal(
                    isinstance(c, str) and c == 'top') if how == 'top' else
                    z3.BoolVal(False) if isinstance(c, str) else
                    core.arith(c) == lev.e)
        struc.check_coords(E, s, sel, dis, r, moved(want))
    return E.explore(body)


def refused(letter):
    """arguments that are no transformation"""
    E = Engine('get_nodes, refused transformations, %s-file' % letter,
               timeout=20000)

    def body():
        with_top = E.decide(E.fresh(z3.BoolSort(), 'top'))
        s = struc.setup(E, ('RSUPTRAN',) if E.decide(E.fresh(
            z3.BoolSort(), 'norsup')) else (), top=Top(E) if with_top else
            None, FILETYPE=letter)
        if s is None:
            return
        bad = [entries('t', sh) for sh in ((3, 3), (3, 4), (4, 3), (16,),
                                           (4, 4, 1), (1, 4))]
        bad.append('bottom')
        if not with_top:
            bad.append(E.int('level'))
        for t in bad:
            r, ex = run(E, s.o.get_nodes, trans=t)
            E.cover('end')
            E.prove('refused: transformation %s' % (
                'of shape %s' % (t.shape,) if isinstance(t, np.ndarray)
                else 'text' if isinstance(t, str) else
                'to a level without a top level'), z3.BoolVal(
                    ex is not None))
    return E.explore(body)


FORMS = ('top', 'between', 'one', 'higher', 'lower')


HOW = (('top', 'T'), ('top', 'R'), ('level', 'T'), ('level', 'R'),
       ('matrix', 'T'), ('plain', 'T'), ('plain', 'R'), ('own', 'R'),
       ('alone', 'R'), ('alone', 'T'))


def tasks():
    sels = [('none', None, 0), ('str', None, 0), ('none', 'shell', 1)]
    return [Task('get_transformation, level ' + f, transformation, (f,))
            for f in FORMS] + \
        [Task('get_transformation, unknown occurrence', unknown, ())] + \
        [Task('get_nodes, trans %s, %s-file, %s, %s' % (h, l, f, k),
              coordinates, (f, k, d, h, l)) for h, l in HOW
         for f, k, d in sels] + \
        [Task('get_nodes, refused transformations, %s-file' % l, refused,
              (l,)) for l in 'TR']
