"""Builtins that also accept symbolic values"""
import builtins
import z3
from . import core, seq, loops
from .core import SNum, SInt, SReal, SBool, Unsupported, wrap, arith, sem, \
    trunc
from .seq import Seq, SList, SDict, SSet, SRange, Map, iexpr


def len_(x):
    if isinstance(x, SList):
        x = x.seq
    if isinstance(x, SRange):
        return wrap(x.count())
    if isinstance(x, Seq):
        return wrap(x.length())
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, int)


def int_(x=0, *a):
    if isinstance(x, SNum):
        return wrap(trunc(x.e))
    if isinstance(x, SBool):
        return wrap(arith(x))
    if hasattr(x, 'sym_int'):
        return x.sym_int()
    return builtins.int(x, *a)


def float_(x=0.):
    if isinstance(x, SNum):
        return wrap(z3.ToReal(x.e)) if z3.is_int(x.e) else x
    if hasattr(x, 'sym_float'):
        return x.sym_float()
    return builtins.float(x)


def bool_(x=False):
    if isinstance(x, SNum):
        return wrap(x.e != 0)
    if isinstance(x, SBool):
        return x
    return builtins.bool(x)


def complex_(re=0, im=0):
    if isinstance(re, SNum) or isinstance(im, SNum):
        return core.Cplx(re, im)
    return builtins.complex(re, im)


def range_(*a):
    if not any(isinstance(x, SNum) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        a = (0, a[0])
    st = a[2] if len(a) == 3 else 1
    if isinstance(st, SNum):
        st = core.ENG.concretize(iexpr(st))
    if st == 0:
        raise sem(ValueError('step 0'))
    r = SRange(a[0], a[1], st)
    n = z3.simplify(r.count())
    if z3.is_int_value(n):
        return [wrap(arith(a[0]) + st*j)
                for j in builtins.range(n.as_long())]
    return r


def is_sym_seq(x):
    if isinstance(x, SList):
        x = x.seq
    if isinstance(x, Seq):
        return not x.concrete() and not z3.is_int_value(
            z3.simplify(x.length()))
    return isinstance(x, SRange) or hasattr(x, 'as_seq')


def as_seq(x):
    return x.as_seq() if hasattr(x, 'as_seq') else Seq.of(x)


def min_len(ns):
    n = ns[0]
    for m in ns[1:]:
        if core.ENG.must(n <= m):
            continue
        n = m if core.ENG.must(m <= n) else z3.If(n <= m, n, m)
    return z3.simplify(n)


def zip_(*a):
    if not any(is_sym_seq(x) for x in a):
        return builtins.zip(*a)
    ss = [as_seq(x) if not isinstance(x, (list, tuple)) else Seq.of(x)
          for x in a]
    n = min_len([s.length() for s in ss])
    return Seq('list', (Map(n, lambda i: tuple(s.at(i) for s in ss)),))


def enumerate_(x, start=0):
    if not is_sym_seq(x):
        return builtins.enumerate(x, start)
    s = as_seq(x)
    return Seq('list', (Map(s.length(), lambda i: (wrap(start + i),
                                                   s.at(i))),))


def isinstance_(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(c, tuple):
            if isinstance_(x, c):
                return True
            continue
        c = REAL.get(c, c)
        if isinstance(x, SInt) and c is int or \
                isinstance(x, SReal) and c is float or \
                isinstance(x, SBool) and c is bool or \
                isinstance(x, SList) and c is list or \
                isinstance(x, SDict) and c is dict or \
                isinstance(x, SSet) and c is set or \
                isinstance(x, core.Cplx) and c is complex or \
                isinstance(x, Seq) and c in (list, tuple) and \
                x.kind == c.__name__:
            return True
        if hasattr(x, 'sym_isinstance'):
            r = x.sym_isinstance(c)
            if r is not None:
                if r:
                    return True
                continue
        if isinstance(c, type) and builtins.isinstance(x, c) and \
                not isinstance(x, (SNum, SBool)):
            return True
    return False


def tuple_(x=()):
    if isinstance(x, (Seq, SList, SRange)) or hasattr(x, 'as_seq'):
        return seq.unseq(Seq('tuple', as_seq(x).parts if hasattr(x, 'as_seq')
                             else Seq.of(x).parts))
    return builtins.tuple(x)


def list_(x=()):
    if isinstance(x, (Seq, SList, SRange)) or hasattr(x, 'as_seq'):
        return SList(Seq('list', as_seq(x).parts if hasattr(x, 'as_seq')
                         else Seq.of(x).parts))
    return SList(builtins.list(x)) if core.ENG is not None else \
        builtins.list(x)


def dict_(*a, **kw):
    if core.ENG is None:
        return builtins.dict(*a, **kw)
    if len(a) == 1 and not kw and is_sym_seq(a[0]):
        from . import vec
        d = vec.dict_of(as_seq(a[0]))
        if d is not None:
            return d
    d = SDict()
    d.update(*a, **kw)
    return d


def set_(x=()):
    if core.ENG is None:
        return builtins.set(x)
    if hasattr(x, 'sym_set'):
        return x.sym_set()
    if isinstance(x, (SList, Seq)) and not Seq.of(x).concrete():
        from . import vec
        try:
            return vec.VSet.of(x)
        except z3.Z3Exception:
            pass
    return SSet(x)


def sum_(x, start=0):
    for v in x:
        start = start + v
    return start


def _ext(a, kw, less):
    key = kw.get('key')
    if len(a) == 1:
        a = builtins.list(a[0])
        if not a:
            if 'default' in kw:
                return kw['default']
            raise sem(ValueError('empty'))
    best = a[0]
    for x in a[1:]:
        u, v = (key(x), key(best)) if key else (x, best)
        if isinstance(u, SNum) or isinstance(v, SNum):
            if key is None:
                c = (u < v) if less else (u > v)
                best = core.ite(core.truth(c), x, best)
                continue
        if (u < v) if less else (u > v):
            best = x
    return best


def min_(*a, **kw):
    return _ext(a, kw, True)


def max_(*a, **kw):
    return _ext(a, kw, False)


def any_(x):
    for v in x:
        if v:
            return True
    return False


def all_(x):
    for v in x:
        if not v:
            return False
    return True


def print_(*a, **k):
    pass


def map_(f, *a):
    if len(a) == 1:
        return loops.comp('gen', a[0], f)
    return loops.comp('gen', zip_(*a), lambda t: f(*t))


def filter_(f, a):
    return loops.comp('gen', a, lambda x: x, f or (lambda x: x))


def reversed_(x):
    if is_sym_seq(x):
        s = as_seq(x)
        n = s.length()
        return Seq('list', (Map(n, lambda i: s.at(z3.simplify(n - 1 - i))),))
    return builtins.reversed(x if not isinstance(x, SList)
                             else builtins.list(x))


class SIter(object):
    """iterator over a symbolic sequence (heap cell: position)"""

    def __init__(self, s):
        self.s, self.p = s, 0
        core.ENG.heap.append(self)

    def get_state(self):
        return self.p

    def set_state(self, p):
        self.p = p

    def __iter__(self):
        return self

    def __next__(self):
        n = self.s.length()
        if core.ENG.decide(iexpr(self.p) < n):
            v = self.s.at(iexpr(self.p))
            self.p = self.p + 1
            return v
        raise StopIteration


def iter_(x, *a):
    if a:
        return builtins.iter(x, *a)
    if isinstance(x, (Seq, SList, SRange, tuple, list)) and \
            core.ENG is not None:
        return SIter(as_seq(x))
    return builtins.iter(x)


def next_(it, *d):
    try:
        return builtins.next(it, *d)
    except StopIteration as e:
        raise sem(e)


def sorted_(x, **kw):
    if hasattr(x, 'sym_sorted'):
        return x.sym_sorted(**kw)
    return builtins.sorted(x, **kw)


def round_(x, *a):
    if isinstance(x, SNum):
        raise Unsupported('round')
    return builtins.round(x, *a)


def str_(x='', *a):
    if hasattr(x, 'sym_str'):
        return x.sym_str()
    return builtins.str(x, *a)


def type_(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SInt):
            return int
        if isinstance(x, SReal):
            return float
        if isinstance(x, SList):
            return list
        if isinstance(x, SDict):
            return dict
    return builtins.type(*a)


class TypeProxy(object):
    """a builtin type whose calls accept symbolic values"""

    def __init__(self, typ, fn):
        self.__dict__.update(typ=typ, fn=fn, __name__=typ.__name__)

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __mro_entries__(self, bases):
        return (self.typ,)

    def __getattr__(self, n):
        if n == 'dtype':
            import numpy
            return numpy.dtype(self.typ)
        return getattr(self.typ, n)

    def __eq__(self, o):
        return o is self or o is self.typ

    def __hash__(self):
        return hash(self.typ)

    def __repr__(self):
        return repr(self.typ)


BUILTINS = {'len': len_, 'range': range_, 'zip': zip_,
            'enumerate': enumerate_, 'isinstance': isinstance_,
            'sum': sum_, 'min': min_, 'max': max_, 'any': any_, 'all': all_,
            'print': print_, 'map': map_, 'filter': filter_,
            'reversed': reversed_, 'iter': iter_, 'next': next_,
            'sorted': sorted_, 'round': round_}
REAL = {}
for _t, _f in ((bool, bool_), (int, int_), (float, float_), (tuple, tuple_),
               (list, list_), (dict, dict_), (set, set_),
               (complex, complex_)):
    BUILTINS[_t.__name__] = TypeProxy(_t, _f)
    REAL[BUILTINS[_t.__name__]] = _t


# ---- math -----------------------------------------------------------------


def ceil_(x):
    import math
    if isinstance(x, SNum):
        e = x.e
        return x if z3.is_int(e) else wrap(-z3.ToInt(-e))
    return math.ceil(x)


def floor_(x):
    import math
    if isinstance(x, SNum):
        return x if z3.is_int(x.e) else wrap(z3.ToInt(x.e))
    return math.floor(x)


def sqrt_(x):
    import math
    return x.sqrt() if isinstance(x, SNum) else math.sqrt(x)


class Math(object):
    """the math module"""
    ceil, floor, sqrt = (staticmethod(ceil_), staticmethod(floor_),
                         staticmethod(sqrt_))

    def __getattr__(self, n):
        import math
        return getattr(math, n)


def replace_math(mod):
    import math
    table = {math.ceil: ceil_, math.floor: floor_, math.sqrt: sqrt_}
    for k, v in list(mod.__dict__.items()):
        if v is math:
            mod.__dict__[k] = Math()
        elif callable(v):
            try:
                if v in table:
                    mod.__dict__[k] = table[v]
            except TypeError:
                pass
