"""numpy on symbolic numbers.

Arrays of a fixed shape are numpy's own arrays of symbolic values (dtype
object): indexing, views, reshaping, products are numpy's, only functions
numpy does not offer for objects are given here.  An LArr is an array with
any leading axes ("..."): it holds the values at one arbitrary position of
the leading axes.  A Fib is the fibre of an array along a reduced axis.
"""
import builtins
import numpy as np
import z3
from . import core
from .core import SNum, SBool, Cplx, Unsupported, wrap, ite, truth, sem, \
    Poison, SReal

OBJ = (SNum, SBool, Cplx, Poison)


class Lead(object):
    """any number of leading axes"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Shape(tuple):
    """shape beginning with any number of axes"""

    def sym_len(self):
        raise Unsupported('number of dimensions of an arbitrary array')

    def __getitem__(self, i):
        if isinstance(i, builtins.int):
            if i < 0 and -i < tuple.__len__(self):
                return tuple.__getitem__(self, i)
            raise Unsupported('axis length of an arbitrary array')
        if isinstance(i, slice) and i.step is None:
            n = tuple.__len__(self)
            if (i.start is None or (i.start < 0 and -i.start < n)) and \
                    (i.stop is None or (i.stop < 0 and -i.stop < n)):
                r = tuple.__getitem__(self, i)
                return Shape(r) if i.start is None else r
        raise Unsupported('part of the shape of an arbitrary array')

    def __add__(self, o):
        return Shape(tuple.__add__(self, tuple(o)))


class Index(object):
    """one arbitrary position of the leading axes"""

    def __init__(self, lead):
        self.lead = lead


class AllIndices(object):
    """np.ndindex over the leading axes: the body of the loop is run for one
    arbitrary position; what it leaves in variables may not be used"""

    def __init__(self, lead):
        self.lead = lead

    def loop(self, L):
        E = core.ENG
        from .loops import same
        L.sym, L.mode, L.heap = True, 'pointwise', []
        L.cur = tuple(Poison('%s of another round' % n) for n in L.names)
        before = [(h, h.get_state()) for h in E.heap]
        yield Index(self.lead)
        for h, s in before:
            if not same(h.get_state(), s):
                raise Unsupported('state carried between the rounds')
        L.cur = tuple(Poison('%s of another round' % n) for n in L.names)


def obj(v):
    """object array (any shape) of v"""
    if isinstance(v, np.ndarray):
        return v.astype(object) if v.dtype != object else v
    if isinstance(v, OBJ) or not hasattr(v, '__len__'):
        a = np.empty((), object)
        a[()] = v
        return a
    return np.array(v, dtype=object)


def elementwise(f):
    u = np.frompyfunc(f, 1, 1)
    return lambda a: obj(u(a))


def fsqrt(x):
    if isinstance(x, SNum):
        return x.sqrt()
    e = core.numval(x)
    if e is None:
        raise Unsupported('sqrt of %r' % (x,))
    return core.SReal(z3.ToReal(e) if z3.is_int(e) else e).sqrt()


def fabs(x):
    return abs(x)


def fmax(x, y):
    return ite(truth(x >= y), x, y)


def fmin(x, y):
    return ite(truth(x <= y), x, y)


def fwhere(c, x, y):
    return ite(truth(c), x, y)


def fsign(x):
    return ite(truth(x > 0), 1, ite(truth(x < 0), -1, 0))


class LArr(object):
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, lead, inner):
        self.lead, self.inner = lead, obj(inner)

    # -- shape
    @property
    def shape(self):
        return Shape((self.lead,) + self.inner.shape)

    @shape.setter
    def shape(self, s):
        self.inner.shape = self._inner(s)

    def _inner(self, s):
        s = tuple(s)
        if not s or s[0] is not self.lead or any(
                isinstance(x, Lead) for x in s[1:]):
            raise Unsupported('reshaping the leading axes')
        return s[1:]

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        return LArr(self.lead, self.inner.reshape(self._inner(s)))

    @property
    def ndim(self):
        raise Unsupported('number of dimensions of an arbitrary array')

    @property
    def size(self):
        raise Unsupported('size of an arbitrary array')

    @property
    def dtype(self):
        return np.dtype(float)

    def astype(self, *a, **k):
        return self.copy()

    def copy(self):
        return LArr(self.lead, self.inner.copy())

    def sym_len(self):
        raise Unsupported('length of an arbitrary array')

    # -- items
    def _key(self, k):
        if isinstance(k, tuple):
            if k and k[0] is Ellipsis:
                return k
        elif k is Ellipsis:
            return (k,)
        raise Unsupported('indexing the leading axes')

    def __getitem__(self, k):
        if isinstance(k, Index) and k.lead is self.lead:
            return self.inner if self.inner.ndim else self.inner[()]
        if isinstance(k, tuple) and k and isinstance(k[0], Index) and \
                k[0].lead is self.lead:
            return self.inner[k[1:]]
        key = self._key(k)
        r = self.inner[key]
        return LArr(self.lead, r)

    def __setitem__(self, k, v):
        if isinstance(k, Index) and k.lead is self.lead:
            self.inner[...] = v
            return
        if isinstance(k, tuple) and k and isinstance(k[0], Index) and \
                k[0].lead is self.lead:
            self.inner[k[1:]] = v
            return
        key = self._key(k)
        self.inner[key] = self._other(v)

    def __iter__(self):
        raise Unsupported('iteration over an arbitrary array')

    def __bool__(self):
        raise Unsupported('truth value of an array')

    __hash__ = None

    # -- elementwise
    def _other(self, o):
        if isinstance(o, LArr):
            if o.lead is not self.lead or (
                    o.inner.ndim != self.inner.ndim):
                raise Unsupported('arrays with different leading axes')
            return o.inner
        if isinstance(o, Poison) or isinstance(o, Fib):
            raise Unsupported('mixed arrays')
        a = obj(o)
        if a.ndim > self.inner.ndim:
            raise Unsupported('broadcast against the leading axes')
        return a

    def _bin(self, o, f, swap=False):
        b = self._other(o)
        a, b = (b, self.inner) if swap else (self.inner, b)
        return LArr(self.lead, np.frompyfunc(f, 2, 1)(a, b))

    def _inplace(self, o, f):
        b = self._other(o)
        self.inner[...] = np.frompyfunc(f, 2, 1)(self.inner, b)
        return self

    def __neg__(self):
        return LArr(self.lead, elementwise(lambda x: -x)(self.inner))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return LArr(self.lead, elementwise(fabs)(self.inner))

    def __pow__(self, n):
        if not isinstance(n, (builtins.int, builtins.float)) and not (
                isinstance(n, SNum) and core.numval(n) is None):
            raise Unsupported('power')
        if isinstance(n, SNum):
            s = z3.simplify(n.e)
            if z3.is_int_value(s):
                n = s.as_long()
            elif z3.is_rational_value(s):
                n = s.numerator_as_long()/s.denominator_as_long()
            else:
                raise Unsupported('power')
        return LArr(self.lead, elementwise(
            lambda x: x**n if isinstance(x, SNum) else
            core.SReal(z3.simplify(z3.ToReal(core.numval(x)))
                       if z3.is_int(core.numval(x)) else
                       core.numval(x))**n)(self.inner))

    # -- reductions over inner axes
    def _axis(self, axis):
        if axis is None or isinstance(axis, SNum) or axis >= 0 or \
                -axis > self.inner.ndim:
            raise Unsupported('reduction over the leading axes')
        return axis

    def _reduce(self, f, axis, keepdims=False):
        a = np.frompyfunc(f, 2, 1).reduce(self.inner, self._axis(axis),
                                          keepdims=keepdims)
        return LArr(self.lead, a)

    def max(self, axis=None, keepdims=False):
        return self._reduce(fmax, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return self._reduce(fmin, axis, keepdims)

    def sum(self, axis=None, keepdims=False):
        return self._reduce(lambda x, y: x + y, axis, keepdims)

    def mean(self, axis=None):
        n = self.inner.shape[self._axis(axis)]
        return self.sum(axis)/n

    def argmin(self, axis=None):
        return LArr(self.lead, np.argmin(self.inner, self._axis(axis)))

    def argmax(self, axis=None):
        return LArr(self.lead, np.argmax(self.inner, self._axis(axis)))

    def conj(self):
        return LArr(self.lead, elementwise(lambda x: x.conj())(self.inner))
    conjugate = conj

    @property
    def real(self):
        return self.copy()


def _ops():
    import operator as o
    for n in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq',
              'ne', 'and', 'or', 'floordiv', 'mod'):
        f = getattr(o, n if n not in ('and', 'or') else n + '_')

        def m(self, b, f=f):
            return self._bin(b, f)

        def r(self, b, f=f):
            return self._bin(b, f, True)

        def i(self, b, f=f):
            return self._inplace(b, f)
        setattr(LArr, '__%s__' % n, m)
        if n in ('add', 'sub', 'mul', 'truediv'):
            setattr(LArr, '__r%s__' % n, r)
            setattr(LArr, '__i%s__' % n, i)


_ops()


class Fib(object):
    """the entries f(0) .. f(n-1) that are reduced to one entry of the
    result when `axis` is reduced over"""
    __array_ufunc__ = None

    def __init__(self, n, f, axis, lead, red):
        self.n, self.f, self.axis, self.lead, self.red = n, f, axis, lead, \
            red

    def like(self, f):
        return Fib(self.n, f, self.axis, self.lead, self.red)

    def _red(self, axis):
        if axis is self.axis:
            return self.red
        raise Unsupported('reduction over another axis')

    def ext(self, axis, sign):
        E = core.ENG
        lead = self._red(axis)
        m = E.fresh(z3.RealSort(), 'ext')
        k0 = E.fresh(z3.IntSort(), 'k')
        k = z3.Int('k!all')
        E.assume(z3.And(k0 >= 0, k0 < self.n,
                        self.f(k0) == m))
        E.assume(z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < self.n),
            sign*self.f(k) <= sign*m), patterns=[self.pat(k)]))
        return LArr(lead, obj(SReal(m))), k0

    def pat(self, k):
        # the innermost application
        out, seen = [], set()
        st = [self.f(k)]
        while st:
            x = st.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    and x.num_args():
                return x
            st.extend(x.children())
        return self.f(k)

    def max(self, axis=None):
        return self.ext(axis, 1)[0]

    def min(self, axis=None):
        return self.ext(axis, -1)[0]

    def argmax(self, axis=None):
        r, k = self.ext(axis, 1)
        return FibIndex(self, k, r.lead)

    def argmin(self, axis=None):
        r, k = self.ext(axis, -1)
        return FibIndex(self, k, r.lead)

    def __abs__(self):
        f = self.f
        return self.like(lambda k: z3.If(f(k) >= 0, f(k), -f(k)))

    def __neg__(self):
        f = self.f
        return self.like(lambda k: -f(k))

    def __getattr__(self, n):
        raise Unsupported('%s of an arbitrary array' % n)

    def __setitem__(self, k, v):
        core.ENG.fail('the argument is not modified')

    def _no(self, *a):
        raise Unsupported('operation on an arbitrary array')
    __add__ = __sub__ = __mul__ = __getitem__ = __gt__ = __lt__ = _no
    __radd__ = __rsub__ = __rmul__ = __truediv__ = __ge__ = __le__ = _no
    __pow__ = __iter__ = _no


class FibIndex(object):
    def __init__(self, fib, k, lead):
        self.fib, self.k, self.lead = fib, k, lead


SYM = (LArr, Fib, FibIndex)


def has(v, t):
    if isinstance(v, t):
        return True
    if isinstance(v, (tuple, list)) or type(v).__name__ == 'SList':
        return any(has(x, t) for x in v)
    return False


def is_obj(v):
    if isinstance(v, np.ndarray):
        return v.dtype == object
    if isinstance(v, (tuple, list)):
        return any(is_obj(x) for x in v)
    return isinstance(v, OBJ)


def plain(v):
    """engine lists to python lists"""
    if type(v).__name__ in ('SList', 'Seq'):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def uf1(f):
    def g(a, *r, **k):
        if isinstance(a, LArr):
            return LArr(a.lead, elementwise(f)(a.inner))
        if isinstance(a, np.ndarray):
            return np.frompyfunc(f, 1, 1)(a)
        if isinstance(a, Fib) and f is fabs:
            return abs(a)
        return f(a)
    return g


def uf2(f):
    def g(a, b, *r, **k):
        if isinstance(a, LArr):
            return a._bin(b, f)
        if isinstance(b, LArr):
            return b._bin(a, f, True)
        a, b = plain(a), plain(b)
        r = np.frompyfunc(f, 2, 1)(a, b)
        return r
    return g


def leads(seq):
    l = [x.lead for x in seq]
    if any(x is not l[0] for x in l):
        raise Unsupported('arrays with different leading axes')
    return l[0]


def need_neg(axis):
    if not isinstance(axis, builtins.int) or axis >= 0:
        raise Unsupported('axis of an arbitrary array')
    return axis


class Linalg(object):
    def __init__(self, np_):
        self.np_ = np_

    def _eig(self, a, ordered, symmetric):
        E = core.ENG
        lead, m = (a.lead, a.inner) if isinstance(a, LArr) else (None, a)
        if m.ndim != 2 or m.shape[0] != m.shape[1]:
            raise Unsupported('eigenvalues of a stack')
        n = m.shape[0]
        for i in range(n):
            for j in range(i):
                E.prove_eq('the matrix given to the eigenvalue solver is '
                           'symmetric', m[i, j], m[j, i])
        w = np.empty(n, object)
        for i in range(n):
            w[i] = E.real('eig')
        if ordered:
            for i in range(n - 1):
                E.assume(w[i].e <= w[i+1].e)
        self.np_.eigcalls.append((m.copy(), list(w)))
        return LArr(lead, w) if lead is not None else w

    def eig(self, a):
        w = self._eig(a, False, False)
        return w, Poison('eigenvectors')

    def eigvals(self, a):
        return self._eig(a, False, False)

    def eigh(self, a, UPLO='L'):
        return self._eig(a, True, True), Poison('eigenvectors')

    def eigvalsh(self, a, UPLO='L'):
        return self._eig(a, True, True)

    def __getattr__(self, n):
        return self.np_._wrap('linalg.' + n, getattr(np.linalg, n))


class Np(object):
    """stands for the numpy module in code under proof"""

    def __init__(self):
        self.eigcalls = []
        self.linalg = Linalg(self)
        self.over = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = self.over.get(n) or getattr(Fns, n, None)
        if f is not None:
            return self._sub(n, f)
        v = getattr(np, n)
        return self._wrap(n, v)

    def _sub(self, n, f):
        return f

    def _wrap(self, n, v):
        if isinstance(v, type) or not callable(v):
            return v

        def g(*a, **k):
            if has(a, SYM) or has(tuple(k.values()), SYM):
                raise Unsupported('numpy.%s of an arbitrary array' % n)
            a = plain(a)
            k = {x: plain(y) for x, y in k.items()}
            return v(*a, **k)
        return g


class Fns(object):
    """functions that need another version for symbolic values"""
    sqrt = uf1(fsqrt)
    abs = absolute = fabs = uf1(fabs)
    sign = uf1(fsign)
    square = uf1(lambda x: x*x)
    negative = uf1(lambda x: -x)
    maximum = fmax = uf2(fmax)
    minimum = fmin = uf2(fmin)
    add = uf2(lambda a, b: a + b)
    subtract = uf2(lambda a, b: a - b)
    multiply = uf2(lambda a, b: a*b)
    divide = true_divide = uf2(lambda a, b: a/b)
    hypot = uf2(lambda a, b: fsqrt(a*a + b*b))
    greater = uf2(lambda a, b: a > b)
    less = uf2(lambda a, b: a < b)
    greater_equal = uf2(lambda a, b: a >= b)
    less_equal = uf2(lambda a, b: a <= b)

    def power(a, n):
        return a**n

    def where(c, *xy):
        if not has((c,) + xy, SYM):
            c, xy = plain(c), plain(xy)
            if not is_obj(c):
                return np.where(c, *xy)
            if len(xy) == 2:
                return np.frompyfunc(fwhere, 3, 1)(c, *xy)
            raise Unsupported('where')
        if len(xy) != 2:
            raise Unsupported('where')
        ls = [v for v in (c,) + xy if isinstance(v, LArr)]
        if has((c,) + xy, (Fib, FibIndex)) or not ls:
            raise Unsupported('where of an arbitrary array')
        b = ls[0]
        vals = [b._other(v) for v in (c,) + xy]
        if max(v.ndim for v in vals) > b.inner.ndim:
            raise Unsupported('broadcast')
        return LArr(leads(ls), np.frompyfunc(fwhere, 3, 1)(*vals))

    def stack(arrays, axis=0, **k):
        arrays = plain(arrays)
        if has(arrays, SYM):
            if not all(isinstance(a, LArr) for a in arrays):
                raise Unsupported('stack')
            return LArr(leads(arrays), np.stack(
                [a.inner for a in arrays], axis=need_neg(axis)))
        return np.stack(arrays, axis=axis, **k)

    def concatenate(arrays, axis=0, **k):
        arrays = plain(arrays)
        if has(arrays, SYM):
            if not all(isinstance(a, LArr) for a in arrays):
                raise Unsupported('concatenate')
            return LArr(leads(arrays), np.concatenate(
                [a.inner for a in arrays], axis=need_neg(axis)))
        return np.concatenate(arrays, axis=axis, **k)

    def zeros_like(a, *r, **k):
        if isinstance(a, LArr):
            return LArr(a.lead, np.zeros(a.inner.shape, builtins.int)
                        .astype(object))
        return np.zeros_like(a, *r, **k)

    def ones_like(a, *r, **k):
        if isinstance(a, LArr):
            return LArr(a.lead, np.ones(a.inner.shape, builtins.int)
                        .astype(object))
        return np.ones_like(a, *r, **k)

    def empty_like(a, *r, **k):
        if isinstance(a, LArr):
            return Fns.empty(a.shape)
        return np.empty_like(a, *r, **k)

    def empty(shape, *r, **k):
        shape = plain(shape)
        if isinstance(shape, tuple) and shape and isinstance(
                tuple.__getitem__(shape, 0), Lead):
            t = tuple(shape)
            a = np.empty(t[1:], object)
            for i in np.ndindex(a.shape):
                a[i] = Poison('an entry that was not set')
            return LArr(t[0], a)
        a = np.empty(shape, *r, **k)
        if core.ENG is not None and a.dtype.kind in 'fc':
            a = np.empty(a.shape, object)
            for i in np.ndindex(a.shape):
                a[i] = Poison('an entry that was not set')
        return a

    def zeros(shape, *r, **k):
        shape = plain(shape)
        if isinstance(shape, tuple) and shape and isinstance(
                tuple.__getitem__(shape, 0), Lead):
            t = tuple(shape)
            return LArr(t[0], np.zeros(t[1:], builtins.int).astype(object))
        a = np.zeros(shape, *r, **k)
        if core.ENG is not None and a.dtype.kind in 'fc':
            a = np.zeros(a.shape, builtins.int).astype(object)
        return a

    def ndindex(*shape):
        s = shape[0] if len(shape) == 1 else shape
        if isinstance(s, tuple) and len(tuple(s)) == 1 and isinstance(
                tuple.__getitem__(s, 0), Lead):
            return AllIndices(tuple.__getitem__(s, 0))
        if has(tuple(s) if isinstance(s, tuple) else (s,), Lead):
            raise Unsupported('ndindex')
        return np.ndindex(*shape)

    def argmin(a, axis=None, **k):
        if isinstance(a, SYM):
            return a.argmin(axis)
        return np.argmin(a, axis, **k)

    def argmax(a, axis=None, **k):
        if isinstance(a, SYM):
            return a.argmax(axis)
        return np.argmax(a, axis, **k)

    def max(a, axis=None, **k):
        if isinstance(a, SYM):
            return a.max(axis)
        return np.max(a, axis, **k)

    def min(a, axis=None, **k):
        if isinstance(a, SYM):
            return a.min(axis)
        return np.min(a, axis, **k)
    amax, amin = max, min

    def sort(a, axis=-1, **k):
        if isinstance(a, LArr):
            return LArr(a.lead, np.sort(a.inner, axis=need_neg(axis)))
        return np.sort(plain(a), axis=axis, **k)

    def sum(a, axis=None, **k):
        if isinstance(a, LArr):
            return a.sum(axis)
        return np.sum(plain(a), axis, **k)

    def mean(a, axis=None, **k):
        if isinstance(a, LArr):
            return a.mean(axis)
        return np.mean(plain(a), axis, **k)

    def asarray(a, *r, **k):
        if isinstance(a, SYM):
            return a
        return np.asarray(plain(a), *r, **k)
    asanyarray = asarray

    def array(a, *r, **k):
        if isinstance(a, LArr):
            return a.copy()
        if has(a, SYM):
            raise Unsupported('array')
        a = plain(a)
        if is_obj(a):
            return np.array(a, dtype=object)
        return np.array(a, *r, **k)

    def take_along_axis(a, i, axis=None):
        raise Unsupported('take_along_axis')


for _n, _v in list(Fns.__dict__.items()):
    if callable(_v) and not _n.startswith('__'):
        setattr(Fns, _n, staticmethod(_v))


def importer(np_, others=None):
    """__import__ that gives the code under proof the stand-in"""
    def imp(name, g=None, l=None, fromlist=(), level=0):
        if level == 0 and name == 'numpy':
            return np_
        if others and name in others:
            return others[name]
        return builtins.__import__(name, g, l, fromlist, level)
    return imp


def load(rel, np_=None, real=True, others=None, **kw):
    from . import inst
    np_ = np_ or Np()
    m = inst.load(rel, real=real, builtin_over={
        '__import__': importer(np_, others)}, **kw)
    return m, np_
