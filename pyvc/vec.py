"""Arrays of symbolic length, tables and enumerations.

An NArr has a tuple of dimensions (z3 integers) and a function from indices
to values.  A Dom is the ascending enumeration of the integers that satisfy a
predicate: rows selected by a condition or a mask, the values np.unique
returns, ..; two of them with equivalent predicates are the same.  A CArr is
the concatenation of n pieces v(k, 0), .., v(k, m(k)-1).
"""
import builtins
import itertools
import re
import ast
import numpy as np
import z3
from . import core, seq, arrays
from .core import (SNum, SInt, SReal, SBool, Cplx, Unsupported, wrap, arith,
                   truth, subst, ite, sem, veq, deep, mentions)
from .seq import Map, Filt, Cat, Seq, SList, iexpr, hashname, next_id
from .arrays import obj

X = z3.Int('x!dom')


def val_exprs(v):
    """the z3 expressions in a value"""
    if isinstance(v, (SNum, SBool, core.SAny)):
        return [v.e]
    if isinstance(v, Cplx):
        return val_exprs(v.real) + val_exprs(v.imag)
    if isinstance(v, (tuple, list)):
        return [e for x in v for e in val_exprs(x)]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [e for x in v.flat for e in val_exprs(x)]
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, Row):
        return [v.i]
    if isinstance(v, (NArr, CArr, Slice1)):
        return v.exprs()
    return []


def simp(e):
    return z3.simplify(e) if isinstance(e, z3.ExprRef) else z3.IntVal(e)


def dim(e):
    e = arith(e) if not isinstance(e, z3.ExprRef) else e
    return z3.simplify(e)


class Dom(object):
    """the ascending enumeration of { x : P(x) }"""

    def __init__(self, pred):
        p = z3.simplify(pred(X))
        self.key = hashname(p)
        self.p = p
        self.LEN = z3.Int('len<%s>' % self.key)
        self.AT = z3.Function('at<%s>' % self.key, z3.IntSort(), z3.IntSort())
        self.RANK = z3.Function('rank<%s>' % self.key, z3.IntSort(),
                                z3.IntSort())
        self.members = []     # values known to belong: functions of indices

    def pred(self, x):
        return z3.substitute(self.p, (X, x))

    def at(self, k):
        return self.AT(k)

    @property
    def n(self):
        return self.LEN

    def axiom(self, name, t):
        """instance of the axioms for at(t) / rank(t)"""
        if name == 'at':
            a = self.AT(t)
            return z3.Implies(z3.And(t >= 0, t < self.LEN),
                              z3.And(self.pred(a), self.RANK(a) == t))
        r = self.RANK(t)
        return z3.Implies(self.pred(t), z3.And(
            r >= 0, r < self.LEN, self.AT(r) == t))


def doms():
    E = core.ENG
    if getattr(E, 'doms_path', None) is not E.paths or not hasattr(
            E, 'doms'):
        pass
    if not hasattr(E, 'doms'):
        E.doms = {}
    return E.doms


def unique_dom(pred):
    """the Dom of a predicate; equivalent predicates give the same one"""
    E = core.ENG
    D = doms()
    d = Dom(pred)
    if d.key in D:
        E.assume(D[d.key].LEN >= 0)
        return D[d.key]
    x = E.fresh(z3.IntSort(), 'x')
    for o in list(D.values()):
        # the path may be what makes them equivalent, so this is asked anew
        if matching(d.pred(x), o.pred(x)):
            E.assume(o.LEN >= 0)
            return o
        if E.fast:
            E.solver.set('timeout', 12*E.fast)
        try:
            r = E._check(d.pred(x) != o.pred(x), quick=E.fast,
                         mbqi=False)
        finally:
            E.solver.set('timeout', E.timeout)
        if r == z3.unknown and E.fast and comparable(E, d, o):
            if E.instances(d.pred(x) != o.pred(x), budget=.8):
                r = z3.unsat
            else:
                E.compared[d.key, o.key] = E.compared.get(
                    (d.key, o.key), 0) + 1
        if r == z3.unsat:
            E.assume(o.LEN >= 0)
            return o
        if r == z3.unknown:
            E.unknown_doms = getattr(E, 'unknown_doms', 0) + 1
    D[d.key] = d
    core.DOMS[d.key] = d
    E.assume(d.LEN >= 0)
    return d


def bound(p):
    """the upper bound that a conjunct of p puts on the member"""
    for c in p.children() if z3.is_and(p) else []:
        n = None
        if z3.is_not(c) and z3.is_le(c.arg(0)) and c.arg(0).arg(1).eq(X):
            n = c.arg(0).arg(0)
        elif z3.is_lt(c) and c.arg(0).eq(X):
            n = c.arg(1)
        if n is not None and z3.is_const(n) and not z3.is_int_value(n):
            return n
    return None


def comparable(E, d, o):
    """is more effort to show that two sets are the same promising?"""
    if not hasattr(E, 'compared'):
        E.compared = {}
    if E.compared.get((d.key, o.key), 0) > 1:
        return False
    a, b = bound(d.p), bound(o.p)
    if a is not None and b is not None and not a.eq(b):
        return False
    a, b = symbols(d.p), symbols(o.p)
    return 2*len(a & b) > len(a | b)


def symbols(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def flat(e, kind):
    out = []
    for c in e.children():
        out += flat(c, kind) if z3.is_app(c) and c.decl().kind() == kind \
            else [c]
    return out


def matching(a, b, top=True):
    """the parts of two conjunctions or disjunctions are equivalent one by
    one (a sufficient condition for their equivalence)"""
    E = core.ENG
    if a.eq(b):
        return True
    ka = a.decl().kind() if z3.is_app(a) else None
    if ka in (z3.Z3_OP_AND, z3.Z3_OP_OR) and z3.is_app(b) and \
            b.decl().kind() == ka:
        xs, ys = flat(a, ka), flat(b, ka)
        if len(xs) == len(ys):
            for x in xs:
                for j, y in enumerate(ys):
                    if kindof(x) == kindof(y) and matching(x, y, False):
                        del ys[j]
                        break
                else:
                    return False
            return True
    if z3.is_quantifier(a) and z3.is_quantifier(b) and \
            a.is_exists() == b.is_exists() and a.num_vars() == b.num_vars() \
            and a.num_vars() < 4:
        n = a.num_vars()
        if all(a.var_sort(j) == z3.IntSort() == b.var_sort(j)
               for j in range(n)):
            cs = [E.fresh(z3.IntSort(), 'm') for _ in range(n)]
            ba = z3.simplify(z3.substitute_vars(a.body(), *cs))
            for perm in itertools.permutations(cs):
                bb = z3.simplify(z3.substitute_vars(b.body(), *perm))
                if matching(ba, bb, True):
                    return True
    if kindof(a) == 'atom':
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(a != b)
        return s.check() == z3.unsat
    if top:
        return False
    old = E.timeout
    E.solver.set('timeout', 1500)
    try:
        return E._check(a != b) == z3.unsat
    finally:
        E.solver.set('timeout', old)


def kindof(e):
    if z3.is_quantifier(e):
        return 'exists' if e.is_exists() else 'forall'
    if z3.is_not(e):
        return 'not ' + kindof(e.arg(0))
    if z3.is_or(e) or z3.is_and(e):
        return e.decl().name()
    return 'atom'


def lookup_dom(key):
    return doms().get(key)


def filter_seq(f):
    """(n, at) positional form of a Filt"""
    n, p, v = f.n, f.p, f.v
    d = unique_dom(lambda x: z3.And(x >= 0, x < n, p(x)))
    return d, lambda k: v(d.at(k))


# ---- arrays ------------------------------------------------------------


class NArr(object):
    """array with symbolic dimensions"""
    __array_ufunc__ = None

    def __init__(self, shape, f, dom=None, kind='num'):
        self.dims = tuple(dim(s) for s in shape)
        self.f, self.dom, self.kind = f, dom, kind
        E = core.ENG
        self.born = E.stack[-1] if E is not None and E.stack else None

    def __repr__(self):
        return 'NArr%s' % (self.dims,)

    # -- engine protocol
    def exprs(self):
        ks = [z3.Int('k!e%d' % j) for j in range(len(self.dims))]
        return list(self.dims) + val_exprs(self.f(*ks))

    def subst(self, p):
        f = self.f

        def g(*ix):
            js = [z3.Int('cap!%d' % next_id()) for _ in ix]
            v = subst(f(*js), p)
            return subst(v, [(j, iexpr(i)) for j, i in zip(js, ix)])
        return NArr([z3.substitute(d, *p) for d in self.dims], g, None,
                    self.kind)

    def eq_obligations(self, o):
        if isinstance(o, np.ndarray):
            o = of_ndarray(o)
        if isinstance(o, (SList, Seq, list)):
            o = to_narr(o)
        if not isinstance(o, NArr) or len(o.dims) != len(self.dims):
            return [([], z3.BoolVal(False))]
        E = core.ENG
        out = [([], a == b) for a, b in zip(self.dims, o.dims)]
        ks, h = [], []
        for a in self.dims:
            k = E.fresh(z3.IntSort(), 'k')
            ks.append(k)
            h += [k >= 0, k < a]
        E.push_level()
        try:
            for c in h:
                E.assume(c)
            sub = veq(self.f(*ks), o.f(*ks))
        finally:
            E.pop_level()
        return out + [(h + hy, c) for hy, c in sub]

    def ite_with(self, c, o):
        if not isinstance(o, NArr) or len(o.dims) != len(self.dims):
            raise Unsupported('merge of arrays')
        f, g = self.f, o.f
        return NArr([z3.simplify(z3.If(c, a, b)) for a, b in
                     zip(self.dims, o.dims)],
                    lambda *i: ite(c, f(*i), g(*i)), None, self.kind)

    # -- shape
    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(wrap(d) for d in self.dims)

    @shape.setter
    def shape(self, s):
        self._own()
        r = self.reshape(s)
        self.dims, self.f, self.dom = r.dims, r.f, r.dom

    def _own(self):
        E = core.ENG
        if len(E.stack) > 1 and self.__dict__.get('born') is not E.stack[-1]:
            raise Unsupported('array modified in a symbolic loop')
        if self.__dict__.get('frozen'):
            E.fail(self.__dict__['frozen'])

    @property
    def size(self):
        r = z3.IntVal(1)
        for d in self.dims:
            r = r*d
        return wrap(r)

    def sym_len(self):
        return wrap(self.dims[0])

    def reshape(self, *s, **kw):
        if kw.get('order', 'C') != 'C':
            raise Unsupported('order')
        s = s[0] if len(s) == 1 and isinstance(
            s[0], (tuple, list, SList, Seq)) else s
        s = [x if isinstance(x, builtins.int) and x == -1 else dim(x)
             for x in s]
        return reshape(self, s)

    def ravel(self, order='C'):
        return self.reshape(-1)
    flatten = ravel

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = len(self.dims)
        axes = axes[0] if len(axes) == 1 and not isinstance(
            axes[0], builtins.int) else axes
        axes = [a % n for a in axes] if axes and axes[0] is not None else \
            list(range(n))[::-1]
        f = self.f

        def g(*ix):
            jx = [None]*n
            for p, a in enumerate(axes):
                jx[a] = ix[p]
            return f(*jx)
        return NArr([self.dims[a] for a in axes], g,
                    self.dom if axes[0] == 0 else None, self.kind)

    def swapaxes(self, a, b):
        ax = list(range(len(self.dims)))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def copy(self, *a):
        return NArr(self.dims, self.f, self.dom, self.kind)

    def astype(self, t, *a, **k):
        t = np.dtype(getattr(t, 'dtype', t) if not isinstance(t, type)
                     else t)
        if t.kind in 'fiu' and self.kind in ('num', 'int'):
            return self.copy()
        if t.kind == 'c':
            return self.copy()
        raise Unsupported('astype %s' % t)

    @property
    def dtype(self):
        return np.dtype({'int': 'i4', 'c8': 'c8', 'bool': '?'}.get(
            self.kind, 'f4'))

    @dtype.setter
    def dtype(self, t):
        self._own()
        r = self.view(t)
        self.dims, self.f, self.dom, self.kind = r.dims, r.f, r.dom, r.kind

    def view(self, t):
        t = np.dtype(t)
        if t == np.dtype('c8') and self.kind in ('num', 'int'):
            f, n = self.f, self.dims[-1]
            m = half(n)
            return NArr(self.dims[:-1] + (m,), lambda *i: Cplx(
                f(*(i[:-1] + (i[-1]*2,))), f(*(i[:-1] + (i[-1]*2 + 1,)))),
                None, 'c8')
        if t.kind == 'f' and self.kind == 'num':
            return self.copy()
        raise Unsupported('array seen as %s' % t)

    # -- items
    def at(self, k):
        k = iexpr(k) if not isinstance(k, z3.ExprRef) else k
        if len(self.dims) == 1:
            return self.f(k)
        f = self.f
        sub = self.dims[1:]
        if all(z3.is_int_value(d) and d.as_long() <= 40 for d in sub):
            a = np.empty([d.as_long() for d in sub], object)
            for ix in np.ndindex(a.shape):
                a[ix] = f(k, *[z3.IntVal(i) for i in ix])
            return a
        return NArr(sub, lambda *i: f(k, *i), None, self.kind)

    def as_seq(self):
        return Seq('list', (Map(self.dims[0], self.at),))

    def tolist(self):
        return SList(self.as_seq())

    def __iter__(self):
        return iter(self.as_seq())

    def _pos(self, i, n):
        """position of index i (forks when out of range is possible)"""
        e = iexpr(i)
        E = core.ENG
        s = z3.simplify(e)
        if z3.is_int_value(s):
            if s.as_long() < 0:
                if E.decide(n + s >= 0):
                    return z3.simplify(n + s)
            elif E.decide(s < n):
                return s
            raise sem(IndexError('index out of bounds'))
        if E.must(z3.And(e >= 0, e < n)):
            return s
        if E.decide(z3.And(e >= 0, e < n)):
            return s
        if E.decide(z3.And(e < 0, e >= -n)):
            return z3.simplify(e + n)
        raise sem(IndexError('index out of bounds'))

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self.basic(key)
        if isinstance(key, (SList, list)):
            key = to_narr(key)
        if isinstance(key, np.ndarray):
            key = of_ndarray(key)
        if isinstance(key, Dom1):
            key = key.arr()
        if isinstance(key, NArr):
            if key.kind == 'bool':
                return self.mask(key)
            return self.gather(key)
        if isinstance(key, CArr):
            return key.map(self._gather_f(), self.kind)
        return self.basic((key,))

    def _gather_f(self):
        if len(self.dims) == 1:
            f = self.f
            return lambda v: f(iexpr(v))
        return lambda v: self.at(v)

    def gather(self, key):
        f, q = self.f, key.f
        m = len(key.dims)
        return NArr(key.dims + self.dims[1:],
                    lambda *i: f(iexpr(q(*i[:m])), *i[m:]),
                    key.dom if m == 1 else None, self.kind)

    def mask(self, key):
        if len(key.dims) != 1:
            raise Unsupported('mask of %d dimensions' % len(key.dims))
        E = core.ENG
        n = self.dims[0]
        if not E.must(key.dims[0] == n):
            raise Unsupported('mask of another length')
        src = self.dom or key.dom
        d, pos = subset(n, src, lambda k: truth(key.f(k)))
        f = self.f
        return NArr((d.n,) + self.dims[1:], lambda k, *i: direct(
            f(pos(k), *i), src, d, k), d, self.kind)

    def basic(self, key):
        if any(k is Ellipsis for k in key):
            j = [k is Ellipsis for k in key].index(True)
            fill = len(self.dims) - (len(key) - 1)
            key = key[:j] + (slice(None),)*fill + key[j+1:]
        key = key + (slice(None),)*(len(self.dims) - len(key))
        if any(k is None for k in key) or len(key) > len(self.dims):
            raise Unsupported('index %r' % (key,))
        dims, get = [], []
        for k, n in zip(key, self.dims):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    if k.step == -1 and k.start is None and k.stop is None:
                        dims.append(n)
                        get.append(('r', n))
                        continue
                    raise Unsupported('slice with a step')
                a, b = bounds(k, n)
                dims.append(z3.simplify(b - a))
                get.append(('s', a))
            elif isinstance(k, (NArr, CArr, np.ndarray)):
                if isinstance(k, np.ndarray):
                    k = of_ndarray(k)
                if not isinstance(k, NArr) or len(k.dims) != 1 or \
                        sum(isinstance(x, (NArr, CArr, np.ndarray))
                            for x in key) > 1 or k.kind == 'bool':
                    raise Unsupported('mixed index')
                dims.append(k.dims[0])
                get.append(('g', k.f))
            else:
                get.append(('i', self._pos(k, n)))
        if any(g[0] == 'g' for g in get) and any(g[0] == 'i' for g in get):
            raise Unsupported('mixed index')
        f = self.f

        def g(*ix):
            ix = list(ix)
            out = []
            for t, a in get:
                if t == 'i':
                    out.append(a)
                    continue
                i = ix.pop(0)
                out.append(z3.simplify(a + i) if t == 's' else
                           z3.simplify(a - 1 - i) if t == 'r' else
                           iexpr(a(i)))
            return f(*out)
        if not dims:
            return g()
        whole = isinstance(key[0], slice) and key[0].start is None and \
            key[0].stop is None and key[0].step in (None, 1)
        r = NArr(dims, g, self.dom if whole else None, self.kind)
        if all(z3.is_int_value(d) and d.as_long() <= 40 for d in r.dims) \
                and not all(z3.is_int_value(d) for d in self.dims):
            return r.concrete()
        return r

    def concrete(self):
        a = np.empty([d.as_long() for d in self.dims], object)
        for ix in np.ndindex(a.shape):
            a[ix] = self.f(*[z3.IntVal(i) for i in ix])
        return a

    def __setitem__(self, key, v):
        self._own()
        whole = isinstance(key, slice) and key == slice(None) or \
            key is Ellipsis
        if whole and isinstance(v, NArr):
            E = core.ENG
            if len(v.dims) == len(self.dims) and all(
                    E.must(a == b) for a, b in zip(v.dims, self.dims)):
                self.f = v.f
                return
        if whole and (isinstance(v, (SNum, builtins.int, builtins.float))):
            self.f = lambda *i: v
            return
        raise Unsupported('assignment to part of an array')

    def take(self, ind, axis=None, **k):
        if axis is None and len(self.dims) > 1:
            return self.ravel().take(ind, 0)
        axis = axis or 0
        if isinstance(axis, builtins.int):
            axis %= len(self.dims)
            if isinstance(ind, (SList, list)):
                ind = to_narr(ind)
            if isinstance(ind, np.ndarray):
                ind = of_ndarray(ind)
            if axis == 0:
                return self[ind]
            if isinstance(ind, NArr):
                return self[(slice(None),)*axis + (ind,)]
            if isinstance(ind, CArr) and axis == 1:
                a = self

                def piece(v):
                    return a.transpose(1, 0, *range(2, len(a.dims))).at(v)
                return CArr1(ind, a)
        raise Unsupported('take')

    # -- arithmetic
    def _bin(self, o, op, swap=False, kind=None):
        if isinstance(o, (SList, list)):
            o = to_narr(o)
        if isinstance(o, np.ndarray) and o.ndim:
            o = of_ndarray(o)
        f = self.f
        kind = kind or (self.kind if self.kind in ('num', 'c8') else
                        'num')
        if isinstance(o, NArr):
            E = core.ENG
            if o.kind == 'c8' and kind == 'num':
                kind = 'c8'
            if len(o.dims) != len(self.dims):
                raise Unsupported('broadcast')
            for a, b in zip(self.dims, o.dims):
                if not E.must(a == b):
                    raise Unsupported('arrays of different lengths')
            g = o.f
            h = (lambda *i: op(g(*i), f(*i))) if swap else \
                (lambda *i: op(f(*i), g(*i)))
        elif isinstance(o, (CArr, Row)):
            raise Unsupported('mixed arrays')
        else:
            if isinstance(o, np.ndarray):
                o = o[()]
            h = (lambda *i: op(o, f(*i))) if swap else \
                (lambda *i: op(f(*i), o))
            d = shifted(self.dom, h) if len(self.dims) == 1 else None
            if d is not None:
                return NArr((d.n,), lambda k: wrap(d.at(k)), d, self.kind)
        return NArr(self.dims, h, self.dom, kind)

    def _ibin(self, o, op):
        self._own()
        r = self._bin(o, op)
        self.f, self.dims, self.dom = r.f, r.dims, r.dom
        return self

    def __neg__(self):
        f = self.f
        return NArr(self.dims, lambda *i: -f(*i), self.dom, self.kind)

    def __invert__(self):
        f = self.f
        return NArr(self.dims, lambda *i: wrap(z3.Not(truth(f(*i)))),
                    self.dom, 'bool')

    def conj(self):
        f = self.f
        return NArr(self.dims, lambda *i: Cplx.of(f(*i)).conj(), self.dom,
                    self.kind)
    conjugate = conj

    def __bool__(self):
        raise sem(ValueError('truth value of an array'))

    __hash__ = None

    # -- sets
    def sym_set(self):
        return VSet.of(self)

    def __contains__(self, v):
        return v in VSet.of(self)

    def all(self, axis=None):
        return Fns.all(self)

    def any(self, axis=None):
        return Fns.any(self)

    def sort(self):
        self._own()
        r = Fns.sort(self)
        self.f, self.dom = r.f, r.dom

    def nonzero(self):
        return Fns.nonzero(self)

    def min(self, axis=None):
        raise Unsupported('min')

    def max(self, axis=None):
        raise Unsupported('max')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of an array' % n)


def shifted(src, f):
    """the Dom of the values x + c, for f(k) = src.at(k) + c"""
    if src is None:
        return None
    k = z3.Int('k!shift')
    v = f(k)
    if not isinstance(v, SInt):
        return None
    c = z3.simplify(v.e - src.at(k))
    if not z3.is_int_value(c) or c.as_long() == 0:
        return None
    d = unique_dom(lambda x: src.pred(x - c))
    core.ENG.assume(d.n == src.n)
    return d


def _isarray(self, c):
    return True if c is np.ndarray else None


def _ops(cls):
    cls.sym_isinstance = _isarray
    import operator as o
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        f = getattr(o, n)
        setattr(cls, '__%s__' % n, lambda s, b, f=f: s._bin(b, f))
        setattr(cls, '__r%s__' % n, lambda s, b, f=f: s._bin(b, f, True))
        setattr(cls, '__i%s__' % n, lambda s, b, f=f: s._ibin(b, f))
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        f = getattr(o, n)
        setattr(cls, '__%s__' % n,
                lambda s, b, f=f: s._bin(b, f, kind='bool'))
    for n, f in (('and', lambda a, b: wrap(z3.And(truth(a), truth(b)))),
                 ('or', lambda a, b: wrap(z3.Or(truth(a), truth(b)))),
                 ('xor', lambda a, b: wrap(z3.Xor(truth(a), truth(b))))):
        setattr(cls, '__%s__' % n,
                lambda s, b, f=f: s._bin(b, f, kind='bool'))
        setattr(cls, '__r%s__' % n,
                lambda s, b, f=f: s._bin(b, f, True, kind='bool'))


_ops(NArr)


def half(n):
    s = z3.simplify(n)
    if z3.is_int_value(s):
        return z3.IntVal(s.as_long()//2)
    if z3.is_mul(s) and z3.is_int_value(s.arg(0)) and \
            s.arg(0).as_long() % 2 == 0:
        return z3.simplify((s.arg(0).as_long()//2)*z3.Product(
            *s.children()[1:])) if s.num_args() > 2 else z3.simplify(
                (s.arg(0).as_long()//2)*s.arg(1))
    return z3.simplify(n/2)


def bounds(k, n):
    E = core.ENG

    def clamp(x, d):
        if x is None:
            return d
        e = iexpr(x)
        if E.must(z3.And(e >= 0, e <= n)):
            return z3.simplify(e)
        if E.decide(e < 0):
            e = e + n
            return z3.IntVal(0) if E.decide(e < 0) else z3.simplify(e)
        return n if E.decide(e > n) else z3.simplify(e)
    a, b = clamp(k.start, z3.IntVal(0)), clamp(k.stop, n)
    if not E.must(b >= a):
        b = z3.simplify(z3.If(b >= a, b, a))
    return a, b


def prod(ds):
    r = z3.IntVal(1)
    for d in ds:
        r = r*d
    return z3.simplify(r)


def reshape(a, s):
    """a with shape s (list of z3 ints or -1)"""
    E = core.ENG
    old, new = list(a.dims), list(s)
    # common trailing axes
    while old and new and not isinstance(new[-1], builtins.int) and \
            (z3.simplify(old[-1]).eq(z3.simplify(new[-1])) or
             E.must(old[-1] == new[-1])) and \
            (len(old) > 1 and len(new) > 1):
        old.pop()
        new.pop()
    tail = a.dims[len(old):]
    nt = len(tail)
    minus = [j for j, x in enumerate(new) if isinstance(x, builtins.int)]
    if len(minus) > 1:
        raise Unsupported('reshape')
    if minus:
        rest = prod([x for x in new if not isinstance(x, builtins.int)])
        tot = prod(old)
        if len(new) == 1:
            new[minus[0]] = tot
        else:
            q = quotient(tot, rest)
            if q is None:
                raise Unsupported('reshape with an unknown axis')
            new[minus[0]] = q
    if not E.must(prod(old) == prod(new)):
        if E.must(prod(old) != prod(new)):
            raise sem(ValueError('cannot reshape'))
        if E.decide(prod(old) == prod(new)):
            pass
        else:
            raise sem(ValueError('cannot reshape'))
    f = a.f
    no, nn = len(old), len(new)
    g = gridded(a, old, new)
    if g is not None:
        return NArr(tuple(new) + tuple(tail), g, None, a.kind)

    def g(*ix):
        head, rest = ix[:nn], ix[nn:]
        flat = z3.IntVal(0)
        for i, d in zip(head, new):
            flat = flat*d + i
        flat = z3.simplify(flat) if nn > 1 else head[0]
        out = unravel(flat, head, new, old)
        return f(*(tuple(out) + tuple(rest)))
    dom = a.dom if no == 1 and nn == 1 else None
    return NArr(tuple(new) + tuple(tail), g, dom, a.kind)


def gridded(a, old, new):
    """values along an enumeration known to be a product, by its factors"""
    d = a.dom
    grid = getattr(d, 'grid', None)
    if grid is None or len(old) != 1 or len(new) != 2 or not old[0].eq(d.n):
        return None
    E = core.ENG
    if not (E.must(new[0] == grid[0]) and E.must(new[1] == grid[1])):
        return None
    f = a.f
    k = z3.Int('k!grid')

    def g(i, j, *ix):
        v = subst(f(k, *ix), [(d.at(k), grid[2](i, j))])
        if any(mentions(e, k) for e in val_exprs(v)):
            raise Unsupported('grid of values by position')
        return v
    return g


def unravel(flat, head, new, old):
    if len(old) == 1:
        return [flat]
    # last axis: strip when the flat index is (..)*c + r with c = old[-1]
    c = old[-1]
    if z3.is_int_value(c):
        q, r = divide(head, new, c.as_long())
        if q is not None:
            return unravel(q, None, None, old[:-1]) + [r] if \
                len(old) > 2 else [q, r]
        return unravel(z3.simplify(flat/c), None, None, old[:-1]) + \
            [z3.simplify(flat % c)]
    # symbolic last axis: only as the last new axes together
    if new is not None and head is not None:
        for j in range(len(new) - 1, -1, -1):
            if core.ENG.must(prod(new[j:]) == c):
                r = z3.IntVal(0)
                for i, d in zip(head[j:], new[j:]):
                    r = r*d + i
                q = z3.IntVal(0)
                for i, d in zip(head[:j], new[:j]):
                    q = q*d + i
                return unravel(z3.simplify(q), head[:j], new[:j],
                               old[:-1]) + [z3.simplify(r)]
    raise Unsupported('reshape of other dimensions')


def divide(head, new, c):
    """(quotient, remainder) of the row-major index by c, from the axes"""
    if head is None:
        return None, None
    p, j = 1, len(new)
    while j > 0 and p < c:
        d = z3.simplify(new[j-1])
        if not z3.is_int_value(d):
            return None, None
        p *= d.as_long()
        j -= 1
    if p != c:
        return None, None
    r = z3.IntVal(0)
    for i, d in zip(head[j:], new[j:]):
        r = r*d + i
    q = z3.IntVal(0)
    for i, d in zip(head[:j], new[:j]):
        q = q*d + i
    return z3.simplify(q), z3.simplify(r)


def quotient(tot, rest):
    """q with q*rest == tot, if one is known"""
    E = core.ENG
    if z3.is_int_value(rest) and rest.as_long() == 1:
        return tot
    for a, b, q in getattr(E, 'products', ()):
        # assumed facts: a == b*q
        for x, y in ((b, q), (q, b)):
            if E.must(rest == x) and E.must(tot == a):
                return y
            # a common constant factor
            for c in (2, 3, 4, 5, 6, 8, 12):
                if E.must(rest == x*c) and E.must(tot == a*c):
                    return y
    for c in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16):
        if E.must(rest == c):
            # multiples of c
            s = z3.simplify(tot)
            if z3.is_mul(s) and z3.is_int_value(s.arg(0)) and \
                    s.arg(0).as_long() % c == 0:
                t = s.arg(1) if s.num_args() == 2 else z3.Product(
                    *s.children()[1:])
                return z3.simplify((s.arg(0).as_long()//c)*t)
            if z3.is_int_value(s) and s.as_long() % c == 0:
                return z3.IntVal(s.as_long()//c)
    if core.ENG.must(tot == rest):
        return z3.IntVal(1)
    return None


def subset(n, src, p):
    """positions k < n with p(k), of an array that enumerates src (or all
    positions): (Dom, function giving the position of element j)"""
    if src is None:
        d = unique_dom(lambda x: z3.And(x >= 0, x < n, p(x)))
        return d, d.at
    k = z3.Int('k!sub%d' % next_id())
    e = z3.substitute(z3.simplify(p(k)), (src.at(k), X))
    if mentions(e, k):
        d = unique_dom(lambda x: z3.And(x >= 0, x < n, p(x)))
        return PosDom(d), d.at
    d = unique_dom(lambda x: z3.And(src.pred(x), z3.substitute(e, (X, x))))
    # element j of the subset has the value d.at(j), so its position in the
    # larger enumeration is src.rank of it
    return d, lambda j: Rank(src, d.at(j))


def direct(v, src, d, k):
    """src.at(src.rank(t)) is t for the members t of a subset"""
    if not isinstance(src, Dom):
        return v
    t = d.at(k)
    return subst(v, [(src.at(src.RANK(t)), t)])


def Rank(src, x):
    return src.RANK(x)


class PosDom(object):
    """a Dom over positions of another enumeration"""

    def __init__(self, d):
        self.d = d
        raise Unsupported('positions selected in an enumeration')


def arange(n):
    return NArr((n,), lambda k: wrap(k), None, 'int')


def of_ndarray(a):
    """NArr of a numpy array of fixed shape"""
    if a.ndim == 0:
        raise Unsupported('0-dimensional array')
    b = a

    def f(*ix):
        ix = [z3.simplify(i) if isinstance(i, z3.ExprRef) else z3.IntVal(i)
              for i in ix]

        def get(c, ix):
            if not ix:
                return c[()] if isinstance(c, np.ndarray) else c
            i = ix[0]
            if z3.is_int_value(i):
                return get(c[i.as_long()], ix[1:])
            v = get(c[-1], ix[1:])
            for j in range(len(c) - 2, -1, -1):
                v = ite(i == j, get(c[j], ix[1:]), v)
            return v
        v = get(b, list(ix))
        return v.item() if isinstance(v, np.generic) else v
    kind = 'bool' if a.dtype.kind == 'b' else 'num'
    if a.dtype == object and a.size and all(isinstance(x, (bool, SBool))
                                            for x in a.flat):
        kind = 'bool'
    return NArr([z3.IntVal(d) for d in a.shape], f, None, kind)


class Slice1(object):
    """the piece start:stop of a stored array"""

    def __init__(self, arr, a, n):
        self.arr, self.a, self.n = arr, a, n


# ---- concatenations ------------------------------------------------------


class CArr(object):
    """concatenation of n pieces; piece k has m(k) values v(k, j)"""
    __array_ufunc__ = None

    def __init__(self, n, m, v, dom=None, kind='num'):
        self.n, self.m, self.v, self.dom, self.kind = n, m, v, dom, kind

    def __repr__(self):
        return 'CArr'

    def exprs(self):
        k, j = z3.Ints('k!e j!e')
        return [self.n, self.m(k)] + val_exprs(self.v(k, j))

    def subst(self, p):
        m, v = self.m, self.v

        def gm(i):
            c = z3.Int('cap!%d' % next_id())
            return z3.substitute(z3.substitute(m(c), *p), (c, i))

        def gv(i, j):
            c, d = [z3.Int('cap!%d' % next_id()) for _ in '12']
            return subst(subst(v(c, d), p), [(c, i), (d, j)])
        return CArr(z3.substitute(self.n, *p), gm, gv, None, self.kind)

    def total(self):
        k = z3.Int('k!cat')
        return z3.Function('total<%s>' % hashname(self.m(k)), z3.IntSort(),
                           z3.IntSort())(self.n)

    def sym_len(self):
        E = core.ENG
        t = self.total()
        E.assume(t >= 0)
        return wrap(t)

    @property
    def shape(self):
        return (self.sym_len(),)

    ndim = 1

    @property
    def size(self):
        return self.sym_len()

    @property
    def dtype(self):
        return np.dtype({'int': 'i4', 'c8': 'c8'}.get(self.kind, 'f4'))

    @dtype.setter
    def dtype(self, t):
        r = self.uniform()
        if r is None:
            raise Unsupported('type of a ragged array')
        r = r.view(t)
        self._become(r)

    def _become(self, r):
        """pieces of one length: an ordinary array"""
        self.__class__ = type(r)
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    @shape.setter
    def shape(self, s):
        r = self.uniform()
        if r is None:
            raise Unsupported('shape of a ragged array')
        if len(core.ENG.stack) > 1:
            raise Unsupported('array modified in a symbolic loop')
        self._become(r.reshape(s))

    def reshape(self, *s):
        r = self.uniform()
        if r is None:
            raise Unsupported('shape of a ragged array')
        return r.reshape(*s)

    def view(self, t):
        r = self.uniform()
        if r is None:
            raise Unsupported('type of a ragged array')
        r = r.view(t)
        return r

    def uniform(self):
        """2-d array when all pieces have one length, else None"""
        E = core.ENG
        k = E.fresh(z3.IntSort(), 'k')
        E.push_level()
        try:
            E.assume(z3.And(k >= 0, k < self.n))
            m = self.m(k)
            r = E._check(mbqi=False)
            cs = []
            if E.last_model is not None:
                cs.append(E.last_model.eval(m, True))
            if r != z3.sat:
                cs += [z3.IntVal(q) for q in (6, 12, 1, 2, 3, 4, 8, 9)]
            ok = False
            for c in cs:
                ok = z3.is_int_value(c) and E._check(
                    m != c, quick=E.fast, mbqi=False) == z3.unsat
                if ok:
                    break
        finally:
            E.pop_level()
        if not ok:
            return None
        v = self.v
        return Flat(self.n, c, v, self.dom, self.kind)

    def eq_obligations(self, o):
        E = core.ENG
        if isinstance(o, Flat2):
            o = o.as_carr()
        if not isinstance(o, CArr):
            u = self.uniform()
            if u is not None and isinstance(o, NArr):
                return u.ravel().eq_obligations(o)
            raise Unsupported('comparison of a concatenation')
        k, j = E.fresh(z3.IntSort(), 'k'), E.fresh(z3.IntSort(), 'j')
        h = [k >= 0, k < self.n]
        out = [([], self.n == o.n), (h, self.m(k) == o.m(k))]
        h = h + [j >= 0, j < self.m(k)]
        E.push_level()
        try:
            for c in h:
                E.assume(c)
            sub = veq(self.v(k, j), o.v(k, j))
        finally:
            E.pop_level()
        return out + [(h + hy, c) for hy, c in sub]

    def ite_with(self, c, o):
        raise Unsupported('merge of concatenations')

    def map(self, g, kind=None):
        v = self.v
        return CArr(self.n, self.m, lambda k, j: g(v(k, j)), self.dom,
                    kind or self.kind)

    def _bin(self, o, op, swap=False, kind=None):
        if isinstance(o, (NArr, CArr, np.ndarray, SList)):
            raise Unsupported('mixed arrays')
        return self.map((lambda x: op(o, x)) if swap else
                        (lambda x: op(x, o)), kind or 'num')

    def _ibin(self, o, op):
        if len(core.ENG.stack) > 1:
            raise Unsupported('array modified in a symbolic loop')
        self.v = self._bin(o, op).v
        return self

    def copy(self):
        return CArr(self.n, self.m, self.v, self.dom, self.kind)

    def astype(self, *a, **k):
        return self.copy()

    def sym_set(self):
        return VSet.of(self)

    def __getitem__(self, k):
        u = self.uniform()
        if u is not None:
            return u.ravel()[k]
        raise Unsupported('item of a concatenation')

    def __iter__(self):
        raise Unsupported('iteration over a concatenation')

    def as_seq(self):
        u = self.uniform()
        if u is None:
            v, m = self.v, self.m
            return Seq('list', (Cat(self.n, lambda k: Seq('list', (Map(
                m(k), lambda j: v(k, j)),))),))
        return u.ravel().as_seq()

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a concatenation' % n)


_ops(CArr)


class CArr1(object):
    """a[:, idx] for a concatenation idx: pieces along axis 1"""

    def __init__(self, idx, a):
        self.idx, self.a = idx, a
        self.kind = a.kind


def Flat(n, c, v, dom, kind):
    """1-d array of n pieces of constant length c, kept as (n, c)"""
    a = Flat2((n, c), lambda k, j: v(k, j), dom, kind)
    return a


class Flat2(NArr):
    """1-d array laid out as a grid (n, c)"""

    def __init__(self, grid, g, dom, kind):
        self.grid, self.g = tuple(dim(x) for x in grid), g
        self.dom, self.kind = dom, kind

    @property
    def dims(self):
        return (prod(self.grid),)

    @property
    def f(self):
        def h(i):
            c = self.grid[1]
            if z3.is_int_value(c) and c.as_long() == 1:
                return self.g(i, z3.IntVal(0))
            return self.g(z3.simplify(i/c), z3.simplify(i % c))
        return h

    def as_carr(self):
        c, g = self.grid[1], self.g
        return CArr(self.grid[0], lambda k: c, g, self.dom, self.kind)

    def grid_arr(self):
        return NArr(self.grid, self.g, self.dom, self.kind)

    def reshape(self, *s, **kw):
        return NArr.reshape(self.grid_arr(), *s, **kw)

    def ravel(self, order='C'):
        return self

    def view(self, t):
        r = self.grid_arr().view(t)
        return Flat2(r.dims, r.f, self.dom, r.kind)

    @NArr.shape.setter
    def shape(self, s):
        self._own()
        r = self.reshape(s)
        self.__class__ = NArr
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    @NArr.dtype.setter
    def dtype(self, t):
        self._own()
        r = self.view(t)
        self.grid, self.g, self.kind = r.grid, r.g, r.kind

    def copy(self, *a):
        return Flat2(self.grid, self.g, self.dom, self.kind)

    def eq_obligations(self, o):
        if isinstance(o, CArr):
            return o.eq_obligations(self)
        return NArr.eq_obligations(self, o)


class VSet(object):
    """set of integers given by a predicate"""

    def __init__(self, pred, n=None):
        self.pred, self._n = pred, n

    @staticmethod
    def of(a):
        if isinstance(a, VSet):
            return a
        if isinstance(a, Dom1):
            a = a.arr()
        if isinstance(a, NArr) and len(a.dims) == 1:
            d = a.dom
            k = z3.Int('k!set')
            if d is not None:
                e = z3.simplify(iexpr(a.f(k)))
                sub = z3.substitute(e, (d.at(k), X))
                if not mentions(sub, k):
                    if sub.eq(X):
                        return VSet(d.pred)
                    xx = z3.Int('x!set')
                    return VSet(lambda y: z3.Exists([xx], z3.And(
                        d.pred(xx), z3.substitute(sub, (X, xx)) == y)))
            n, f = a.dims[0], a.f
            return VSet(lambda y: z3.Exists([k], z3.And(
                k >= 0, k < n, iexpr(f(k)) == y)))
        if isinstance(a, CArr):
            k, j = z3.Ints('k!set j!set')
            m, v, n, d = a.m, a.v, a.n, a.dom
            guard = z3.And(k >= 0, k < n)
            mk, vk = m(k), iexpr(v(k, j))
            if d is not None:
                m2 = z3.substitute(z3.simplify(mk), (d.at(k), X))
                v2 = z3.substitute(z3.simplify(vk), (d.at(k), X))
                if not mentions(m2, k) and not mentions(v2, k):
                    guard, mk, vk = [z3.substitute(t, (X, k)) for t in (
                        d.pred(X), m2, v2)]
            return VSet(lambda y: z3.Exists([k, j], z3.And(
                guard, j >= 0, j < mk, vk == y)))
        if isinstance(a, (SList, Seq)):
            return VSet.of(to_narr(a))
        if isinstance(a, np.ndarray):
            vals = [iexpr(x) for x in a.flat]
            return VSet(lambda y: z3.Or([y == v for v in vals]))
        raise Unsupported('set of %s' % type(a).__name__)

    def dom(self):
        return unique_dom(self.pred)

    def sym_len(self):
        return wrap(self.dom().n)

    def __len__(self):
        return core.ENG.concretize(self.dom().n)

    def __bool__(self):
        return core.ENG.decide(self.dom().n > 0)

    def __contains__(self, v):
        if not isinstance(v, (SNum, builtins.int)):
            return False
        return core.ENG.decide(self.pred(iexpr(v)))

    def __or__(self, o):
        o = VSet.of(o)
        return VSet(lambda y: z3.Or(self.pred(y), o.pred(y)))
    union = __or__

    def __and__(self, o):
        o = VSet.of(o)
        return VSet(lambda y: z3.And(self.pred(y), o.pred(y)))
    intersection = __and__

    def __sub__(self, o):
        o = VSet.of(o)
        return VSet(lambda y: z3.And(self.pred(y), z3.Not(o.pred(y))))
    difference = __sub__

    def sym_sorted(self, **kw):
        if kw:
            raise Unsupported('sorted')
        return SList(Dom1(self.dom()).arr().as_seq())

    def as_seq(self):
        raise Unsupported('iteration over a set')

    def add(self, v):
        raise Unsupported('set under construction')
    update = add

    __hash__ = None


class Dom1(object):
    """the array of the members of a Dom"""

    def __init__(self, d):
        self.d = d

    def arr(self):
        d = self.d
        return NArr((d.n,), lambda k: wrap(d.at(k)), d, 'int')


class VDict(object):
    """dict(zip(keys, values)) for arrays of symbolic length"""

    def __init__(self, keys, vals):
        self.keys_, self.vals = keys, vals
        k = keys
        self.set = VSet.of(k)
        d = k.dom
        kk = z3.Int('k!set')
        e = z3.simplify(iexpr(k.f(kk)))
        if d is not None and e.eq(d.at(kk)):
            self.pos = lambda x: d.RANK(x)
        elif d is None and e.eq(kk):
            self.pos = lambda x: x
        else:
            # the last position with this key
            F = z3.Function('index<%s>' % hashname(z3.And(
                k.dims[0] > kk, e == 0)), z3.IntSort(), z3.IntSort())
            n, y = k.dims[0], F(e)
            b = z3.And(y >= kk, y < n, z3.substitute(e, (kk, y)) == e)
            b = z3.Implies(z3.And(kk >= 0, kk < n), b)
            p = patterns(e, kk)
            core.ENG.assume(z3.ForAll([kk], b, patterns=p) if p else
                            z3.ForAll([kk], b))
            if d is not None:
                g = z3.substitute(e, (d.at(kk), X))
                if not mentions(g, kk):
                    # the same for the source position of the key
                    g = z3.substitute(g, (X, kk))
                    y = F(g)
                    b = z3.Implies(d.pred(kk), z3.And(
                        y >= 0, y < n, d.at(y) >= kk,
                        z3.substitute(e, (kk, y)) == g))
                    p = patterns(g, kk)
                    core.ENG.assume(z3.ForAll([kk], b, patterns=p) if p
                                    else z3.ForAll([kk], b))
            self.pos = lambda x: F(x)

    def __contains__(self, x):
        return x in self.set

    def __getitem__(self, x):
        E = core.ENG
        e = iexpr(x)
        if not E.must(self.set.pred(e)):
            if not E.decide(self.set.pred(e)):
                raise sem(KeyError(x))
        return self.vals.at(z3.simplify(self.pos(e)))

    def get(self, x, d=None):
        return self[x] if x in self else d

    def items(self):
        return Seq('list', (Map(self.keys_.dims[0], lambda i: (
            self.keys_.at(i), self.vals.at(i))),))

    def keys(self):
        return self.keys_

    def values(self):
        return self.vals

    def sym_len(self):
        raise Unsupported('len of a dictionary')

    def sym_isinstance(self, c):
        return c is dict

    __hash__ = None


def dict_of(v):
    """the dictionary of a sequence of pairs of symbolic length, or None"""
    s = Seq.of(v)
    if s.concrete() or len(s.parts) != 1 or not isinstance(s.parts[0], Map):
        return None
    p = s.parts[0]
    dom = getattr(p, 'dom', None) or find_dom(p.n, p.at)

    def col(j):
        f = (lambda i: p.at(i)[j])
        return NArr((p.n,), f, dom, 'num')
    return VDict(col(0), col(1))


def patterns(e, k):
    """a term that mentions k under a function, to instantiate k"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
            e.num_args() and mentions(e, k):
        return [e]
    return []


def to_narr(v):
    """NArr of a list / sequence"""
    if isinstance(v, (NArr, CArr)):
        return v
    if isinstance(v, Dom1):
        return v.arr()
    if isinstance(v, np.ndarray):
        return of_ndarray(v)
    s = Seq.of(v)
    if s.concrete():
        return of_ndarray(np.array(list(s.items()), dtype=object)
                          if s.items() else np.zeros(0))
    if len(s.parts) == 1:
        p = s.parts[0]
        if isinstance(p, Filt):
            d, at = filter_seq(p)
            return stack0(d.n, at, d)
        if isinstance(p, seq.Grid):
            return cat_of(p.cat())
        if isinstance(p, Map):
            return stack0(p.n, p.at, None)
        if isinstance(p, Cat):
            return cat_of(p)
    raise Unsupported('array of a list of several parts')


def stack0(n, at, dom):
    """array whose entries along the first axis are at(k)"""
    k = z3.Int('k!probe%d' % next_id())
    v = at(k)
    if isinstance(v, Row):
        return RArr(n, lambda i: at(i), dom, v.table)
    if isinstance(v, np.ndarray):
        sh = v.shape

        def f(i, *ix):
            return of_ndarray(at(i)).f(*ix) if sh else at(i)[()]
        return NArr((n,) + tuple(z3.IntVal(d) for d in sh), f, dom)
    if isinstance(v, NArr):
        for d in v.dims:
            if mentions(d, k):
                raise Unsupported('pieces of different lengths')
        return NArr((n,) + v.dims, lambda i, *ix: at(i).f(*ix), dom, v.kind)
    if isinstance(v, (tuple, list)):
        m = len(v)

        def f2(i, j):
            w = at(i)
            j = simp(j)
            if z3.is_int_value(j):
                return w[j.as_long()]
            r = w[m - 1]
            for q in range(m - 2, -1, -1):
                r = ite(j == q, w[q], r)
            return r
        return NArr((n, z3.IntVal(m)), f2, dom)
    if isinstance(v, CArr):
        raise Unsupported('array of concatenations')
    kind = 'bool' if isinstance(v, (bool, SBool)) else 'int' if \
        isinstance(v, (builtins.int, SInt)) else 'num'
    return NArr((n,), at, dom, kind)


def cat_of(p):
    """array of a list built in two nested loops: kept as (n, m, ..)"""
    E = core.ENG
    k = E.fresh(z3.IntSort(), 'k')
    E.push_level()
    try:
        E.assume(z3.And(k >= 0, k < p.n))
        s = p.f(k)
        if len(s.parts) != 1 or not isinstance(s.parts[0], Map):
            raise Unsupported('array of a nested list')
        m = s.parts[0].n
        if mentions(m, k):
            raise Unsupported('array of a ragged nested list')
        row = stack0(m, s.parts[0].at, None)
    finally:
        E.pop_level()
    if not isinstance(row, NArr):
        raise Unsupported('array of a nested list')

    def f(i, j, *ix):
        return stack0(m, p.f(i).parts[0].at, None).f(j, *ix)
    return Blocks(NArr((p.n,) + row.dims, f, None, row.kind))


def concat(items):
    """np.concatenate of a list (axis 0) of pieces"""
    if isinstance(items, (SList, Seq)):
        s = Seq.of(items)
        if not s.concrete():
            if len(s.parts) != 1:
                return Pieces(s.parts)
            return concat_part(s.parts[0])
        items = list(s.items())
    items = list(items)
    if not items:
        raise sem(ValueError('need at least one array to concatenate'))
    if all(isinstance(x, np.ndarray) for x in items):
        return None
    if len(items) == 1:
        x = items[0]
        return x.copy()
    raise Unsupported('concatenation of a few arrays')


def empty(d):
    """nothing satisfies the predicate of a Dom (it has length 0)"""
    x = z3.Int('x!none')
    core.ENG.assume(z3.ForAll([x], z3.Not(d.pred(x))))


def concat_part(p):
    E = core.ENG
    if isinstance(p, Filt):
        d, at = filter_seq(p)
        n, dom = d.n, d
    elif isinstance(p, Map):
        n, at, dom = p.n, p.at, getattr(p, 'dom', None)
        dom = dom or find_dom(n, at)
    elif isinstance(p, Cat):
        return concat_cat(p)
    else:
        raise Unsupported('concatenation')
    if not E.decide(n > 0):
        if isinstance(p, Filt):
            empty(d)
        raise sem(ValueError('need at least one array to concatenate'))
    k = E.fresh(z3.IntSort(), 'k')
    E.push_level()
    try:
        E.assume(z3.And(k >= 0, k < n))
        v = at(k)
    finally:
        E.pop_level()
    if isinstance(v, np.ndarray):
        c = z3.IntVal(v.shape[0])
        tail = tuple(z3.IntVal(x) for x in v.shape[1:])
        if not tail:
            return Flat(n, c, lambda i, j: of_ndarray(at(i)).f(j), dom,
                        'num')
        return BlockArr(n, c, tail, lambda i, *ix: of_ndarray(at(i)).f(*ix),
                        dom, 'num')
    if isinstance(v, NArr) and len(v.dims) == 1:
        return CArr(n, lambda i: at(i).dims[0], lambda i, j: at(i).f(j),
                    dom, v.kind)
    if isinstance(v, NArr):
        c, tail = v.dims[0], v.dims[1:]
        c = z3.simplify(c)
        if not z3.is_int_value(c) and (mentions(c, k) or any(
                mentions(x, k) for x in val_exprs(wrap(c)))):
            if any(mentions(x, k) for x in tail):
                raise Unsupported('pieces of different shapes')
            return Ragged(n, lambda i: z3.substitute(c, (k, i)),
                          lambda i, j, *ix: at(i).f(j, *ix), tail, dom,
                          v.kind)
        return BlockArr(n, c, tail, lambda i, *ix: at(i).f(*ix), dom, v.kind)
    raise Unsupported('concatenation of %s' % type(v).__name__)


def BlockArr(n, c, tail, f, dom, kind):
    """n blocks of c rows: kept as (n, c, ..) seen as (n*c, ..)"""
    a = NArr((n, c) + tuple(tail), f, dom, kind)
    r = a.reshape(*([-1] + list(tail))) if not tail else Blocks(a)
    return r


class Blocks(NArr):
    """(n*c, ..) array kept as (n, c, ..)"""

    def __init__(self, a):
        self.a = a
        self.dom, self.kind = None, a.kind

    @property
    def dims(self):
        d = self.a.dims
        return (prod(d[:2]),) + d[2:]

    @property
    def f(self):
        a = self.a

        def h(i, *ix):
            c = a.dims[1]
            return a.f(z3.simplify(i/c), z3.simplify(i % c), *ix)
        return h

    def reshape(self, *s, **kw):
        return NArr.reshape(self.a, *s, **kw)

    @NArr.shape.setter
    def shape(self, s):
        self._own()
        r = self.reshape(s)
        self.__class__ = NArr
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    def copy(self, *a):
        return Blocks(self.a.copy())


def concat_cat(p):
    """pieces in two levels: outer k, inner positions of a Filt/Map"""
    E = core.ENG
    if not E.decide(p.n > 0):
        raise sem(ValueError('need at least one array to concatenate'))
    k = z3.Int('k!cc%d' % next_id())
    s = p.f(k)
    if len(s.parts) != 1:
        raise Unsupported('nested concatenation')
    q = s.parts[0]
    if isinstance(q, Cat):
        raise Unsupported('nested concatenation')
    return Nested(p)


class Pieces(object):
    """concatenation of several sequences of pieces (only its members are
    used)"""

    def __init__(self, parts):
        ns = []
        self.parts = []
        for p in parts:
            if isinstance(p, tuple):
                ns.append(z3.BoolVal(True))
                self.parts += list(p)
                continue
            if isinstance(p, Filt):
                d, at = filter_seq(p)
                n, dom = d.n, d
            elif isinstance(p, Map):
                n, at, dom = p.n, p.at, getattr(p, 'dom', None)
            else:
                raise Unsupported('concatenation of several parts')
            ns.append(n > 0)
            k = core.ENG.fresh(z3.IntSort(), 'k')
            v = at(k)
            if not isinstance(v, NArr) or len(v.dims) != 1:
                raise Unsupported('concatenation of several parts')
            self.parts.append(CArr(
                n, lambda i, at=at: at(i).dims[0],
                lambda i, j, at=at: at(i).f(j), dom, v.kind))
        if not core.ENG.decide(z3.Or(*ns)):
            for c in self.parts:
                if isinstance(c, CArr) and isinstance(c.dom, Dom):
                    empty(c.dom)
            raise sem(ValueError('need at least one array to concatenate'))

    def sym_set(self):
        s = VSet.of(self.parts[0])
        for p in self.parts[1:]:
            s = s | VSet.of(p)
        return s

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a concatenation' % n)


class Nested(object):
    """concatenation of pieces in two levels (only its members are used)"""

    def __init__(self, p):
        self.p = p

    def sym_set(self):
        p = self.p
        k, i, j = z3.Ints('k!set i!set j!set')
        q = p.f(k).parts[0]
        guard = [k >= 0, k < p.n, i >= 0, i < q.n]
        if isinstance(q, Filt):
            guard.append(q.p(i))
            v = q.v(i)
        else:
            v = q.at(i)
        v = v if isinstance(v, NArr) else of_ndarray(v)
        return VSet(lambda y: z3.Exists([k, i, j], z3.And(*(
            guard + [j >= 0, j < v.dims[0], iexpr(v.f(j)) == y]))))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a nested concatenation' % n)


def find_dom(n, at):
    """the Dom a Map of length LEN enumerates"""
    for d in doms().values():
        if z3.simplify(n).eq(d.LEN):
            return d
    return None


# ---- tables ------------------------------------------------------------


class Row(object):
    """record i of a table"""

    def __init__(self, table, i):
        self.table, self.i = table, i

    def __getitem__(self, name):
        if isinstance(name, SNum):
            raise Unsupported('field by number')
        if isinstance(name, builtins.int):
            name = self.table.names()[name]
        return self.table.value(name, self.i)

    def __setitem__(self, n, v):
        core.ENG.fail('stored records are not modified')

    def fetch_all_fields(self):
        return Row(self.table, self.i)

    def copy(self):
        return self

    @property
    def nrow(self):
        return wrap(self.i)

    @property
    def dtype(self):
        return self.table.dtype

    def __iter__(self):
        return iter([self[n] for n in self.table.names()])

    def __len__(self):
        return len(self.table.names())

    def subst(self, p):
        return Row(self.table, z3.substitute(self.i, *p))

    def ite_with(self, c, o):
        if isinstance(o, Row) and o.table is self.table:
            return Row(self.table, z3.simplify(z3.If(c, self.i, o.i)))
        raise Unsupported('merge of records')

    def eq_obligations(self, o):
        if isinstance(o, Row) and o.table is self.table:
            return [([], self.i == o.i)]
        return [([], z3.BoolVal(False))]

    def tolist(self):
        return tuple(self[n] for n in self.table.names())
    item = tolist

    __hash__ = None

    def __repr__(self):
        return '%s[%s]' % (self.table.name, self.i)


class RArr(object):
    """array of records"""
    __array_ufunc__ = None

    def __init__(self, n, at, dom, table):
        self.n, self.at, self.dom, self.table = n, at, dom, table

    def exprs(self):
        return [self.n, self.at(z3.Int('k!e')).i]

    def sym_len(self):
        return wrap(self.n)

    @property
    def shape(self):
        return (wrap(self.n),)

    ndim = 1

    @property
    def dtype(self):
        return self.table.dtype

    @property
    def size(self):
        return wrap(self.n)

    def as_seq(self):
        return Seq('list', (Map(self.n, self.at),))

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.table.column(key, self.n, lambda k: self.at(k).i,
                                     self.dom)
        if isinstance(key, (list, SList)):
            items = list(key)
            if items and all(isinstance(x, str) for x in items):
                return Fields(self, items)
            key = to_narr(key)
        if isinstance(key, np.ndarray):
            key = of_ndarray(key)
        if isinstance(key, slice) and key == slice(None):
            return self
        idx = NArr((self.n,), lambda k: wrap(k), self.dom, 'int')[key]
        if isinstance(idx, NArr):
            f, src, d = idx.f, self.dom, idx.dom
            if isinstance(src, Dom) and isinstance(d, Dom):
                return RArr(idx.dims[0], lambda k: direct(
                    self.at(iexpr(f(k))), src, d, k), d, self.table)
            return RArr(idx.dims[0], lambda k: self.at(iexpr(f(k))),
                        idx.dom, self.table)
        if isinstance(idx, np.ndarray):
            return RArr(z3.IntVal(len(idx)), lambda k: self.at(iexpr(
                of_ndarray(idx).f(k))), None, self.table)
        if isinstance(idx, CArr):
            v = idx.v
            return RCArr(idx, self)
        return self.at(iexpr(idx))

    def take(self, ind, axis=0, **k):
        return self[ind]

    def copy(self):
        return self

    def subst(self, p):
        at = self.at

        def g(i):
            j = z3.Int('cap!%d' % next_id())
            return subst(subst(at(j), p), [(j, iexpr(i))])
        return RArr(z3.substitute(self.n, *p), g, None, self.table)

    def eq_obligations(self, o):
        if isinstance(o, (SList, Seq)):
            o = to_narr(o)
        if not isinstance(o, RArr):
            return [([], z3.BoolVal(False))]
        return self.as_seq().eq_obligations(o.as_seq())

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of an array of records' % n)


class RCArr(object):
    """records at the positions of a concatenation"""
    __array_ufunc__ = None

    def __init__(self, idx, arr):
        self.idx, self.arr = idx, arr

    def sym_len(self):
        return self.idx.sym_len()

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported('records of a concatenation')
        t, at = self.arr.table, self.arr.at
        return self.idx.map(lambda v: t.value(name, at(iexpr(v)).i), 'num')

    @property
    def shape(self):
        return (self.sym_len(),)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of an array of records' % n)


class Fields(object):
    """several fields of an array of records"""

    def __init__(self, r, names):
        self.r, self.names = r, names

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.names:
                raise sem(KeyError(k))
            return self.r[k]
        raise Unsupported('fields of records')


class Table(object):
    """stub of a stored table: n records, unknown values"""

    def __init__(self, name, dtype, n=None, given=None, inner=None):
        self.name = name
        self.dtype = dtype
        E = core.ENG
        self.n = n if n is not None else E.int('n_' + name).e
        E.assume(self.n >= 0)
        self.given = given or {}
        self.inner = inner or {}

    def names(self):
        return list(self.dtype.names)

    def kind(self, col):
        if col not in self.dtype.names:
            raise sem(KeyError(col))
        d = self.dtype[col]
        k = d.base.kind
        sh = self.inner.get(col)
        if sh is None:
            sh = tuple(z3.IntVal(x) for x in d.shape)
        return k, sh

    def cell(self, col, i, ix, k):
        if col in self.given:
            r = self.given[col](i, *ix)
            if r is not None:
                return r
        nm = '%s.%s' % (self.name, col)
        dom = [z3.IntSort()]*(1 + len(ix))
        if k in 'iub':
            v = z3.Function(nm, *(dom + [z3.IntSort()]))(i, *ix)
            return wrap(v)
        if k == 'f':
            return SReal(z3.Function(nm, *(dom + [z3.RealSort()]))(i, *ix))
        if k == 'c':
            return Cplx(*[SReal(z3.Function(nm + p, *(
                dom + [z3.RealSort()]))(i, *ix)) for p in ('.re', '.im')])
        if k == 'S':
            return NameVal(z3.Function(nm, *(dom + [z3.IntSort()]))(i, *ix))
        raise Unsupported('column of type %s' % k)

    def value(self, col, i):
        k, sh = self.kind(col)
        if not sh:
            return self.cell(col, i, (), k)
        if all(z3.is_int_value(d) for d in sh):
            a = np.empty([d.as_long() for d in sh], object)
            for ix in np.ndindex(a.shape):
                a[ix] = self.cell(col, i, tuple(z3.IntVal(j) for j in ix), k)
            return a
        return NArr(sh, lambda *ix: self.cell(col, i, ix, k))

    def column(self, col, n, row, dom):
        k, sh = self.kind(col)
        kd = 'int' if k in 'iub' else 'c8' if k == 'c' else 'name' if \
            k == 'S' else 'num'
        return NArr((n,) + sh, lambda i, *ix: self.cell(col, row(i), ix, k),
                    dom, kd)

    def subst(self, p):
        return self

    # -- pytables interface
    def sym_len(self):
        return wrap(self.n)

    @property
    def nrows(self):
        return wrap(self.n)

    @property
    def shape(self):
        return (wrap(self.n),)

    @property
    def colnames(self):
        return self.names()

    def rows(self):
        return RArr(self.n, lambda k: Row(self, k), None, self)

    def col(self, name):
        return self.column(name, self.n, lambda k: k, None)

    def read(self, *a, **k):
        if 'field' in k and not a:
            return self.col(k['field'])
        if a or k:
            raise Unsupported('read of part of a table')
        return self.rows()

    def iterrows(self, *a, **k):
        if a or k:
            raise Unsupported('iterrows of part of a table')
        return self.rows().as_seq()

    def as_seq(self):
        return self.rows().as_seq()

    def __iter__(self):
        return iter(self.as_seq())

    def pred(self, cond, vars=None):
        c = Cond(cond, vars)
        return lambda k: truth(c.value(self, k))

    def where(self, cond, condvars=None):
        p = self.pred(cond, condvars)
        return Seq('list', (Filt(self.n, p, lambda k: Row(self, k)),))

    def read_where(self, cond, condvars=None, field=None):
        p = self.pred(cond, condvars)
        n = self.n
        d = unique_dom(lambda x: z3.And(x >= 0, x < n, p(x)))
        r = RArr(d.n, lambda k: Row(self, d.at(k)), d, self)
        return r if field is None else r[field]

    def get_where_list(self, cond, condvars=None, sort=False):
        p = self.pred(cond, condvars)
        n = self.n
        return Dom1(unique_dom(lambda x: z3.And(x >= 0, x < n, p(x)))).arr()

    def __getitem__(self, key):
        if isinstance(key, (SNum, builtins.int)):
            i = NArr((self.n,), lambda k: wrap(k))._pos(key, self.n)
            return Row(self, i)
        return self.rows()[key]

    def read_coordinates(self, idx, field=None):
        r = self.rows()[idx]
        return r if field is None else r[field]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a table' % n)


class EArr(object):
    """stub of a stored array"""

    def __init__(self, name, kind, n=None, inner=(), given=None):
        self.name, self.k, self.inner = name, kind, tuple(
            z3.IntVal(d) for d in inner)
        E = core.ENG
        self.n = n if n is not None else E.int('n_' + name).e
        E.assume(self.n >= 0)
        self.given = given

    def cell(self, i, *ix):
        if self.given:
            return self.given(i, *ix)
        if self.k == 'i':
            return wrap(z3.Function(self.name, *([z3.IntSort()]*(
                2 + len(ix))))(i, *ix))
        return SReal(z3.Function(self.name, *([z3.IntSort()]*(
            1 + len(ix)) + [z3.RealSort()]))(i, *ix))

    def arr(self):
        return NArr((self.n,) + self.inner, self.cell, None,
                    'int' if self.k == 'i' else 'num')

    def subst(self, p):
        return self

    def sym_len(self):
        return wrap(self.n)

    @property
    def nrows(self):
        return wrap(self.n)

    @property
    def shape(self):
        return (wrap(self.n),) + tuple(wrap(d) for d in self.inner)

    def read(self, *a, **k):
        if a or k:
            return self[slice(*a)] if not k else self[slice(
                k.get('start'), k.get('stop'))]
        return self.arr()

    def __getitem__(self, key):
        if isinstance(key, slice) and key.start is not None and \
                key.stop is not None and not self.inner:
            # stored ranges lie within the array
            a, b = iexpr(key.start), iexpr(key.stop)
            g = self.cell
            return NArr((z3.simplify(b - a),), lambda j: g(z3.simplify(
                a + j)), None, 'int' if self.k == 'i' else 'num')
        return self.arr()[key]

    def as_seq(self):
        return self.arr().as_seq()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a stored array' % n)


# ---- conditions ----------------------------------------------------------


class NameVal(object):
    """stored text, known by a code"""
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, NameVal):
            return wrap(self.e == o.e)
        c = name_code(o)
        if c is None:
            raise Unsupported('comparison of stored text')
        return wrap(self.e == c)

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def subst(self, p):
        return NameVal(z3.substitute(self.e, *p))

    def ite_with(self, c, o):
        return NameVal(z3.If(c, self.e, o.e))

    def eq_obligations(self, o):
        return [([], self.e == o.e)] if isinstance(o, NameVal) else \
            [([], z3.BoolVal(False))]

    def decode(self, *a):
        return self

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of stored text' % n)


class SName(str):
    """a name given by the caller, standing for any name"""

    def __new__(cls, code):
        E = core.ENG
        if not hasattr(E, 'names'):
            E.names = {}
        t = 'vcname%sq' % hashname(code)
        E.names[t] = code
        s = str.__new__(cls, t)
        return s

    def subst(self, p):
        return SName(z3.simplify(z3.substitute(core.ENG.names[str(self)],
                                               *p)))


def name_code(v):
    E = core.ENG
    if isinstance(v, bytes):
        v = v.decode('latin1')
    if isinstance(v, str):
        c = getattr(E, 'names', {}).get(str(v))
        if c is not None:
            return c
        return z3.Int('name:' + v)
    return None


class Cond(object):
    """a pytables condition"""

    def __init__(self, text, vars=None):
        E = core.ENG
        self.tok = {}
        self.vars = vars

        def rep(m):
            k = 'tok__%d' % len(self.tok)
            self.tok[k] = E.tokens[m.group(0)][0]
            return k
        if not isinstance(text, str):
            raise Unsupported('condition')
        t = re.sub('\ue000.*?\ue001', rep, text, flags=re.S)
        try:
            self.tree = ast.parse(t.strip(), mode='eval').body
        except SyntaxError:
            raise Unsupported('condition %r' % text)
        self.text = text

    def value(self, table, k):
        return self.ev(self.tree, table, k)

    def ev(self, n, t, k):
        if isinstance(n, ast.Name):
            if n.id in self.tok:
                return self.tok[n.id]
            if self.vars and n.id in self.vars:
                return self.vars[n.id]
            if n.id == 'None':
                return None
            if n.id not in t.dtype.names:
                raise sem(NameError('name %r is not defined' % n.id))
            return t.cell(n.id, k, (), t.kind(n.id)[0])
        if isinstance(n, ast.Constant):
            if n.value is None or isinstance(n.value, str):
                raise sem(TypeError('condition %s' % self.text))
            return n.value
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, t, k), self.ev(n.comparators[0], t, k)
            import operator as o
            f = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le,
                 ast.Gt: o.gt, ast.GtE: o.ge}.get(type(n.ops[0]))
            if f is None or a is None or b is None:
                raise Unsupported('condition %r' % self.text)
            if not isinstance(a, NameVal) and isinstance(b, NameVal):
                a, b = b, a
            return f(a, b)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, t, k), self.ev(n.right, t, k)
            if isinstance(n.op, ast.BitAnd):
                return wrap(z3.And(truth(a), truth(b)))
            if isinstance(n.op, ast.BitOr):
                return wrap(z3.Or(truth(a), truth(b)))
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
        if isinstance(n, ast.UnaryOp):
            a = self.ev(n.operand, t, k)
            if isinstance(n.op, ast.Invert):
                return wrap(z3.Not(truth(a)))
            if isinstance(n.op, ast.USub):
                return -a
        raise Unsupported('condition %r' % self.text)


# ---- numpy functions -------------------------------------------------------

SYM = (NArr, CArr, VSet, RArr, RCArr, Dom1, Nested, CArr1, Pieces)


def symbolic(v):
    if isinstance(v, SYM):
        return True
    if isinstance(v, SList):
        v = v.seq
    if isinstance(v, Seq):
        return not v.concrete() or any(symbolic(x) for x in v.items())
    if isinstance(v, (tuple, list)):
        return any(symbolic(x) for x in v)
    return False


class Fns(object):
    def unique(a, return_index=False, return_inverse=False, **k):
        if k:
            raise Unsupported('unique')
        if isinstance(a, (SList, Seq, list)):
            a = to_narr(a)
        if return_inverse and not return_index:
            d = VSet.of(a).dom()
            if isinstance(a, CArr):
                inv = a.map(lambda v: wrap(d.RANK(iexpr(v))), 'int')
            else:
                f = a.f
                inv = NArr(a.dims, lambda i: wrap(d.RANK(iexpr(f(i)))),
                           a.dom, 'int')
            return Dom1(d).arr(), inv
        if return_inverse:
            raise Unsupported('unique')
        if return_index:
            return first_index(a)
        if isinstance(a, NArr) and a.kind not in ('int',) and not \
                z3.is_int(core.arith(a.f(z3.Int('k!set')))):
            return RealUnique(a)
        if isinstance(a, (Nested, Pieces)):
            return Dom1(a.sym_set().dom()).arr()
        return Dom1(VSet.of(a).dom()).arr()

    def concatenate(arrs, axis=0, **k):
        if axis == 0:
            r = concat(arrs)
            if r is not None:
                return r
        raise Unsupported('concatenate')
    hstack = None

    def array(a, *r, **k):
        if isinstance(a, (NArr, CArr)):
            return a.copy()
        return to_narr(a)
    asarray = asanyarray = array

    def fromiter(a, *r, **k):
        return to_narr(a)

    def all(a, axis=None):
        if isinstance(a, (SList, Seq)):
            a = to_narr(a)
        if isinstance(a, CArr) or axis is not None:
            raise Unsupported('all')
        ks = [z3.Int('k!all%d' % j) for j in range(len(a.dims))]
        h = [z3.And(k >= 0, k < d) for k, d in zip(ks, a.dims)]
        return SBool(z3.ForAll(ks, z3.Implies(z3.And(*h),
                                              truth(a.f(*ks)))))

    def any(a, axis=None):
        if isinstance(a, (SList, Seq)):
            a = to_narr(a)
        if isinstance(a, CArr) or axis is not None:
            raise Unsupported('any')
        ks = [z3.Int('k!all%d' % j) for j in range(len(a.dims))]
        h = [z3.And(k >= 0, k < d) for k, d in zip(ks, a.dims)]
        return SBool(z3.Exists(ks, z3.And(*(h + [truth(a.f(*ks))]))))

    def isin(a, b, **k):
        if k:
            raise Unsupported('isin')
        if isinstance(b, (SNum, builtins.int)):
            return a == b
        if isinstance(b, VSet):
            raise Unsupported('isin with a set')   # numpy sees one object
        if isinstance(b, (list, tuple)):
            b = to_narr(b) if symbolic(b) else np.array(b, dtype=object)
        s = VSet.of(b)
        if isinstance(a, CArr):
            return a.map(lambda v: wrap(s.pred(iexpr(v))), 'bool')
        f = a.f
        return NArr(a.dims, lambda *i: wrap(s.pred(iexpr(f(*i)))), a.dom,
                    'bool')
    in1d = isin

    def intersect1d(a, b, **k):
        return Dom1((VSet.of(a) & VSet.of(b)).dom()).arr()

    def union1d(a, b):
        return Dom1((VSet.of(a) | VSet.of(b)).dom()).arr()

    def setdiff1d(a, b, **k):
        return Dom1((VSet.of(a) - VSet.of(b)).dom()).arr()

    def nonzero(a):
        return (arange(a.dims[0])[NArr(a.dims, a.f, a.dom, 'bool')]
                if a.dom is None else _no('nonzero'),)

    def flatnonzero(a):
        return Fns.nonzero(a)[0]

    def where(c, *xy):
        if not xy:
            return Fns.nonzero(c)
        x, y = xy
        if isinstance(c, NArr):
            def get(v):
                if isinstance(v, NArr):
                    if len(v.dims) != len(c.dims):
                        raise Unsupported('where')
                    return v.f
                return lambda *i: v
            f, g, h = c.f, get(x), get(y)
            return NArr(c.dims, lambda *i: ite(truth(f(*i)), g(*i), h(*i)),
                        c.dom)
        raise Unsupported('where')

    def vectorize(f, **k):
        return Vectorized(f)

    def take(a, ind, axis=None, **k):
        return a.take(ind, axis=axis)

    def rollaxis(a, axis, start=0):
        if isinstance(a, CArr):
            raise Unsupported('rollaxis')
        n = len(a.dims)
        axis %= n
        if start < 0:
            start += n
        if axis < start:
            start -= 1
        ax = list(range(n))
        ax.remove(axis)
        ax.insert(start, axis)
        return a.transpose(*ax)

    def moveaxis(a, src, dst):
        n = len(a.dims)
        s = [src] if isinstance(src, builtins.int) else list(src)
        d = [dst] if isinstance(dst, builtins.int) else list(dst)
        s, d = [x % n for x in s], [x % n for x in d]
        order = [x for x in range(n) if x not in s]
        for dd, ss in sorted(zip(d, s)):
            order.insert(dd, ss)
        return a.transpose(*order)

    def transpose(a, axes=None):
        return a.transpose() if axes is None else a.transpose(*axes)

    def swapaxes(a, i, j):
        return a.swapaxes(i, j)

    def reshape(a, s, **k):
        return a.reshape(s)

    def ravel(a, *r):
        return a.ravel()

    def sort(a, **k):
        if isinstance(a, FirstIndex):
            return a.sorted()
        d = getattr(a, 'dom', None)
        if isinstance(a, NArr) and d is not None:
            k_ = z3.Int('k!sort')
            e = z3.simplify(iexpr(a.f(k_)))
            if e.eq(d.at(k_)):
                return a.copy()
        raise Unsupported('sort')

    def copy(a):
        return a.copy()

    def column_stack(t):
        arrs = list(t)
        cs = [a for a in arrs if isinstance(a, CArr)]
        if cs:
            if not all(isinstance(a, CArr) or isinstance(a, Const)
                       for a in arrs):
                raise Unsupported('column_stack')
            c0 = cs[0]
            vs = [a.v if isinstance(a, CArr) else
                  (lambda k, j, a=a: a.val) for a in arrs]
            return CRows(c0.n, c0.m, lambda k, j: [v(k, j) for v in vs],
                         len(arrs), c0.dom)
        n = [a for a in arrs if isinstance(a, NArr)][0].dims[0]
        fs = []
        for a in arrs:
            if isinstance(a, Const):
                fs.append(lambda i, a=a: a.val)
            elif isinstance(a, NArr) and len(a.dims) == 1:
                if not core.ENG.must(a.dims[0] == n):
                    raise sem(ValueError('dimensions differ'))
                fs.append(a.f)
            else:
                raise Unsupported('column_stack')

        def f(i, j):
            j = simp(j)
            if z3.is_int_value(j):
                return fs[j.as_long()](i)
            r = fs[-1](i)
            for q in range(len(fs) - 2, -1, -1):
                r = ite(j == q, fs[q](i), r)
            return r
        return NArr((n, z3.IntVal(len(arrs))), f, None)

    def stack(t, axis=0):
        if axis in (1, -1):
            return Fns.column_stack(t)
        raise Unsupported('stack')

    def dot(a, b):
        return matmul(a, b)
    matmul = dot

    def cumsum(a, axis=None, **k):
        if isinstance(a, Dom1):
            a = a.arr()
        if k or axis not in (None, 0) or not isinstance(a, NArr) or \
                len(a.dims) != 1:
            raise Unsupported('cumsum')
        kk, h = z3.Int('k!rec'), z3.Int('cur!rec')
        e = arith(a.f(kk))
        if not z3.is_int(e):
            raise Unsupported('cumsum of reals')
        step = z3.simplify(h + e)
        name = 'rec<%s>' % hashname(step)
        F = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        core.ENG.recs[name] = (F, step, h, kk)
        return NArr(a.dims, lambda i: wrap(F(z3.IntVal(0), z3.simplify(
            i + 1))), a.dom, 'int')

    def searchsorted(a, v, side='left', **k):
        d = getattr(a, 'd', None) if isinstance(a, Dom1) else \
            getattr(a, 'dom', None)
        kk = z3.Int('k!set')
        if isinstance(a, NArr):
            if d is None or not iexpr(a.f(kk)).eq(d.at(kk)):
                d = None
        if d is None or k or side != 'left' or not isinstance(
                v, (NArr, CArr)):
            raise Unsupported('searchsorted')

        def f(x):
            if not core.ENG.must(d.pred(iexpr(x))):
                raise Unsupported('searchsorted of something not there')
            return wrap(d.RANK(iexpr(x)))
        E = core.ENG
        if isinstance(v, CArr):
            # every element is a member: proved once, for arbitrary ones
            return v.map(f, 'int')
        g = v.f
        return NArr(v.dims, lambda *i: f(g(*i)), v.dom, 'int')

    def squeeze(a):
        raise Unsupported('squeeze')

    def conj(a):
        return a.conj()


class Const(NArr):
    """array of one value"""

    def __init__(self, n, v):
        self.val = v
        NArr.__init__(self, (n,), lambda k: v)


class Ragged(object):
    """(total, *tail) array: n pieces of m(k) rows, row j of piece k has the
    values f(k, j, ..)"""
    __array_ufunc__ = None

    def __init__(self, n, m, f, tail, dom, kind):
        self.n, self.m, self.f, self.dom = n, m, f, dom
        self.tail, self.kind = tuple(tail), kind

    @property
    def shape(self):
        return (wrap(CArr(self.n, self.m, None).total()),) + tuple(
            wrap(d) for d in self.tail)

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        if len(core.ENG.stack) > 1:
            raise Unsupported('array modified in a symbolic loop')
        self.__class__ = type(r)
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    @property
    def ndim(self):
        return 1 + len(self.tail)

    def sym_len(self):
        return self.shape[0]

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = s[0]
        E = core.ENG
        s = [x if isinstance(x, builtins.int) and x == -1 else dim(x)
             for x in s]
        same = len(s) == len(self.tail) + 2 and isinstance(
            s[1], builtins.int) and all(
                not isinstance(a, builtins.int) and E.must(a == b)
                for a, b in zip(s[2:], self.tail))
        grid = getattr(self.dom, 'grid', None)
        if not same or grid is None or not E.must(s[0] == grid[0]):
            raise Unsupported('shape of rows of different pieces')
        k, d, g = z3.Int('k!grid'), self.dom, grid[2]

        def at(v, i, j):
            v = subst(v, [(d.at(k), g(i, j))])
            if any(mentions(e, k) for e in val_exprs(v)):
                raise Unsupported('grid of values by position')
            return v
        i, j = E.int('i').e, E.int('j').e
        E.push_level()
        try:
            E.assume(z3.And(i >= 0, i < grid[0], j >= 0, j < grid[1]))
            m0 = self.m
            m = lambda i, j: iexpr(at(wrap(m0(k)), i, j))    # noqa
            if not E.must(m(i, j) == m(z3.IntVal(0), j)):
                raise Unsupported('different numbers of rows')
        finally:
            E.pop_level()
        f = self.f
        return GridRows(grid[0], grid[1], lambda j: m(z3.IntVal(0), j),
                        lambda i, j, p, *ix: at(f(k, p, *ix), i, j),
                        self.tail, self.kind)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of rows' % n)


class GridRows(object):
    """(c, total, *tail) array: for each of c, n pieces of m(j) rows"""
    __array_ufunc__ = None

    def __init__(self, c, n, m, f, tail, kind):
        self.c, self.n, self.m, self.f = c, n, m, f
        self.tail, self.kind = tuple(tail), kind

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of rows' % n)


class CRows(object):
    """(total, c) array: rows of a concatenation"""
    __array_ufunc__ = None

    def __init__(self, n, m, row, c, dom):
        self.n, self.m, self.row, self.c, self.dom = n, m, row, c, dom

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(
                key[0], slice) and key[0] == slice(None) and isinstance(
                    key[1], slice):
            row = self.row
            cols = list(range(self.c))[key[1]]
            return CRows(self.n, self.m, lambda k, j: [
                row(k, j)[q] for q in cols], len(cols), self.dom)
        raise Unsupported('item of rows')

    def __setitem__(self, key, v):
        if (key == slice(None) or key is Ellipsis) and isinstance(v, CRows) \
                and v.c == self.c:
            self.row = v.row
            return
        raise Unsupported('assignment to rows')

    @property
    def shape(self):
        return (wrap(CArr(self.n, self.m, None).total()), self.c)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of rows' % n)


def matmul(a, b):
    for v in (a, b):
        if hasattr(type(v), 'vc_product'):
            return v.vc_product(a, b)
    if isinstance(b, NArr) and all(z3.is_int_value(d) for d in b.dims):
        b = b.concrete()
    if not isinstance(b, np.ndarray) or b.ndim != 2:
        raise Unsupported('product')
    if isinstance(a, CRows):
        if a.c != b.shape[0]:
            raise sem(ValueError('shapes not aligned'))
        row = a.row

        def r2(k, j):
            v = row(k, j)
            return [sum_([v[q]*b[q, c] for q in range(len(v))])
                    for c in range(b.shape[1])]
        return CRows(a.n, a.m, r2, b.shape[1], a.dom)
    if isinstance(a, NArr) and len(a.dims) == 2 and z3.is_int_value(
            a.dims[1]):
        m = a.dims[1].as_long()
        if m != b.shape[0]:
            raise sem(ValueError('shapes not aligned'))
        f = a.f

        def g(i, j):
            j = simp(j)
            if not z3.is_int_value(j):
                cs = [g(i, q) for q in range(b.shape[1])]
                r = cs[-1]
                for q in range(len(cs) - 2, -1, -1):
                    r = ite(j == q, cs[q], r)
                return r
            c = j.as_long()
            return sum_([f(i, z3.IntVal(q))*b[q, c] for q in range(m)])
        return NArr((a.dims[0], z3.IntVal(b.shape[1])), g, a.dom)
    raise Unsupported('product')


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def _no(w):
    raise Unsupported(w)


class FirstIndex(object):
    """positions of the first occurrence of each value, by value"""

    def __init__(self, d):
        self.d = d

    def sorted(self):
        return Dom1(self.d).arr()

    def sort(self):
        self._sorted = True
        self.__class__ = NArr
        r = Dom1(self.__dict__.pop('d')).arr()
        self.__dict__.clear()
        self.__dict__.update(r.__dict__)

    def sym_sorted(self, **kw):
        return SList(self.sorted().as_seq())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('first occurrences out of order')


class RealUnique(object):
    """sorted distinct values; only their number and membership"""

    def __init__(self, a):
        self.a = a
        self.d = first_dom(a)

    def sym_len(self):
        return wrap(self.d.n)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('values in ascending order')


def first_dom(a):
    n, f = a.dims[0], a.f
    j = z3.Int('j!first')

    def pred(x):
        return z3.And(x >= 0, x < n, z3.Not(z3.Exists([j], z3.And(
            j >= 0, j < x, arith(f(j)) == arith(f(x))))))
    return unique_dom(pred)


def first_index(a):
    if not isinstance(a, NArr) or len(a.dims) != 1:
        raise Unsupported('unique with indices')
    return RealUnique(a), FirstIndex(first_dom(a))


class Vectorized(object):
    def __init__(self, f):
        self.fn = f

    def __call__(self, a):
        E = core.ENG
        fn = self.fn
        if isinstance(a, np.ndarray):
            out = np.empty(a.shape, object)
            for i in np.ndindex(a.shape):
                out[i] = fn(a[i])
            return out
        if isinstance(a, (SNum, builtins.int)):
            return fn(a)
        # one arbitrary element decides whether the function fails
        ks = [E.fresh(z3.IntSort(), 'k') for _ in (a.dims if isinstance(
            a, NArr) else '12')]
        if isinstance(a, NArr):
            h = [z3.And(k >= 0, k < d) for k, d in zip(ks, a.dims)]
            el = a.f(*ks)
        else:
            k, j = ks
            h = [k >= 0, k < a.n, j >= 0, j < a.m(k)]
            el = a.v(k, j)
        paths = generic(h, lambda: fn(el))
        bad = [(c, e) for c, e, v in paths if e is not None]
        good = [(c, v) for c, e, v in paths if e is None]
        if bad:
            c = z3.Or(*[b[0] for b in bad])
            ex = z3.Exists(ks, z3.And(*(h + [c])))
            if E.decide(ex):
                raise bad[0][1]
        if not good:
            raise Unsupported('function of no elements')

        def g(*ix):
            sub = list(zip(ks, ix))
            r = None
            for c, v in good:
                w = subst(v, sub)
                r = w if r is None else ite(z3.substitute(c, *sub), w, r)
            return r
        kind = 'int' if all(isinstance(v, (SInt, builtins.int))
                            for c, v in good) else 'num'
        if isinstance(a, NArr):
            return NArr(a.dims, g, a.dom, kind)
        return CArr(a.n, a.m, g, a.dom, kind)


def generic(hyps, fn):
    """run fn on all paths under the hypotheses:
    [(path condition, exception or None, value)]"""
    E = core.ENG
    out = []
    E.enter()
    hl = len(E.heap)
    while True:
        E.nested_start()
        for h in hyps:
            E.assume(h)
        base = len(E.pc)
        try:
            v, ex = fn(), None
        except Exception as e:
            if not getattr(e, 'semantic', False):
                E.leave()
                raise
            v, ex = None, e
        c = z3.And(*E.pc[base:]) if len(E.pc) > base else z3.BoolVal(True)
        out.append((c, ex, v))
        if not E.nested_next():
            break
    E.leave()
    del E.heap[hl:]
    return out


for _n, _v in list(Fns.__dict__.items()):
    if callable(_v) and not _n.startswith('__'):
        setattr(Fns, _n, staticmethod(_v))


class Np(arrays.Np):
    """numpy, also for arrays of symbolic length"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        base = arrays.Np.__getattr__(self, n)
        if n in ('ndarray',):
            return NdArray
        mine = Fns.__dict__.get(n)
        mine = mine.__func__ if isinstance(mine, staticmethod) else None
        if n in ('arange', 'ones', 'zeros', 'vectorize'):
            return getattr(self, '_' + n)
        if not callable(base) or isinstance(base, type):
            return base

        def call(*a, **k):
            if any(symbolic(x) for x in a) or any(
                    symbolic(x) for x in k.values()) or any(
                        isinstance(x, (FirstIndex, RealUnique, CRows)) or
                        hasattr(type(x), 'vc_product')
                        for x in a):
                if mine is None:
                    raise Unsupported('numpy.%s of arrays of symbolic '
                                      'length' % n)
                return mine(*a, **k)
            return base(*a, **k)
        return call

    def _arange(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], SNum):
            return arange(a[0].e)
        if any(isinstance(x, SNum) for x in a):
            if len(a) == 2:
                lo = iexpr(a[0])
                return NArr((simp(iexpr(a[1]) - lo),),
                            lambda i: wrap(lo + i), None, 'int')
            raise Unsupported('arange')
        return np.arange(*a, **k)

    def _const(self, n, v, *r):
        if isinstance(n, SNum):
            return Const(n.e, v)
        if isinstance(n, tuple) and len(n) == 1 and isinstance(n[0], SNum):
            return Const(n[0].e, v)
        return None

    def _ones(self, n, *r, **k):
        c = self._const(n, 1)
        return c if c is not None else np.ones(n, builtins.int).astype(
            object)

    def _zeros(self, n, *r, **k):
        c = self._const(n, 0)
        return c if c is not None else arrays.Fns.zeros(n, *r, **k)

    def _vectorize(self, f, **k):
        return Vectorized(f)


class _Nd(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, NArr, CArr)) or \
            hasattr(type(x), 'vc_product')


class NdArray(metaclass=_Nd):
    """np.ndarray for isinstance"""


def load(rel, others=None, np_=None, real=True):
    """instrumented module with symbolic numpy"""
    return arrays.load(rel, np_ or Np(), real, others,
                       extra=None)[0]
