"""Symbolic values, path exploration and proof obligations.

The code under proof is the text in /repo, mechanically instrumented
(inst.py) and executed by CPython on the symbolic values defined here.  Each
branch on a symbolic condition is explored both ways when both are feasible;
loops with a symbolic number of rounds are cut by an invariant (loops.py).
Obligations are decided by z3 under the path condition.
"""
import sys
import time
import builtins
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

ENG = None        # the engine in use
KEEP = False      # keep the SMT text of discharged obligations
DOMS = {}         # enumerations in use (vec.py)
ONLY = None       # names of the obligations that are wanted


class Unsupported(BaseException):
    """the code leaves the supported subset: nothing is decided"""


class PathEnd(BaseException):
    """this path needs no further execution"""


class Infeasible(BaseException):
    pass


# ---- scalars -----------------------------------------------------------


def numval(v):
    """z3 value of a concrete number"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('value %r' % v)
        f = Fraction(v)
        return z3.RealVal(str(f))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if getattr(type(v), '__array_ufunc__', 0) is None:
        return None      # symbolic arrays
    if hasattr(v, 'item') and getattr(v, 'shape', None) == ():
        return numval(v.item())
    return None


def expr(v):
    """z3 expression of a number or truth value, or None"""
    if isinstance(v, (SNum, SBool)):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    return numval(v)


def arith(v):
    e = expr(v)
    if e is not None and z3.is_bool(e):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def wrap(e):
    """python value of a z3 expression (concrete when it is a literal)"""
    e = z3.simplify(e) if not z3.is_const(e) else e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bool(e):
        return SBool(e)
    if z3.is_int(e):
        return SInt(e)
    if z3.is_real(e):
        return SReal(e)
    return SAny(e)


def same_sort(a, b):
    if z3.is_int(a) and z3.is_real(b):
        return z3.ToReal(a), b
    if z3.is_real(a) and z3.is_int(b):
        return a, z3.ToReal(b)
    return a, b


class SBool(object):
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        return wrap(z3.And(self.e, truth(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.e, truth(o)))
    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.e))

    def logical_not(self):
        return wrap(z3.Not(self.e))

    def __eq__(self, o):
        x = expr(o)
        if x is None:
            return False
        if z3.is_bool(x):
            return wrap(self.e == x)
        a, b = same_sort(arith(self), x)
        return wrap(a == b)

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def _num(self):
        return SInt(arith(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num()*o
    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported('hash of a symbolic truth value')

    def __int__(self):
        return ENG.concretize(arith(self))
    __index__ = __int__


def truth(v):
    """z3 Bool of a python value"""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, SNum):
        return v.e != 0
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (bool, int, float, str, tuple, list, dict)) or v is None:
        return z3.BoolVal(bool(v))
    return z3.BoolVal(bool(v))


SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
TRUNC = z3.Function('trunc', z3.RealSort(), z3.IntSort())


def trunc(e):
    if z3.is_int(e):
        return e
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        f = Fraction(s.numerator_as_long(), s.denominator_as_long())
        return z3.IntVal(int(f))
    if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
        return s.arg(0)
    return TRUNC(s)


class SNum(object):
    """symbolic number"""
    dtype = None

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, swap=False):
        b = arith(o)
        if b is None:
            return NotImplemented
        a, b = same_sort(self.e, b)
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if arith(o) is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a*b)

    def __rmul__(self, o):
        if arith(o) is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a*b, True)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def _real(self, o):
        b = arith(o)
        if b is None:
            return None, None
        a = z3.ToReal(self.e) if z3.is_int(self.e) else self.e
        b = z3.ToReal(b) if z3.is_int(b) else b
        return a, b

    @staticmethod
    def _div(a, b):
        if ENG.decide(b == 0):
            raise sem(ZeroDivisionError('division by zero'))
        return wrap(a/b)

    def __truediv__(self, o):
        a, b = self._real(o)
        return NotImplemented if b is None else self._div(a, b)

    def __rtruediv__(self, o):
        a, b = self._real(o)
        return NotImplemented if b is None else self._div(b, a)

    @staticmethod
    def _fdiv(a, b):
        if ENG.decide(b == 0):
            raise sem(ZeroDivisionError('division by zero'))
        if z3.is_int(a) and z3.is_int(b):
            if ENG.decide(b > 0):
                return wrap(a/b)
            return wrap((-a)/(-b))
        a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
        return wrap(z3.ToReal(z3.ToInt(a/b)))

    @staticmethod
    def _mod(a, b):
        q = SNum._fdiv(a, b)
        return wrap(a) - q*wrap(b)

    def __floordiv__(self, o):
        b = arith(o)
        return NotImplemented if b is None else self._fdiv(self.e, b)

    def __rfloordiv__(self, o):
        b = arith(o)
        return NotImplemented if b is None else self._fdiv(b, self.e)

    def __mod__(self, o):
        b = arith(o)
        if b is None:
            return NotImplemented
        if z3.is_int_value(b) and b.as_long() > 0 and z3.is_int(self.e):
            return wrap(self.e % b)
        return self._mod(self.e, b)

    def __rmod__(self, o):
        b = arith(o)
        return NotImplemented if b is None else self._mod(b, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in builtins.range(o):
                r = r*self
            return r
        if isinstance(o, float) and o == .5:
            return self.sqrt()
        raise Unsupported('power %r' % (o,))

    def sqrt(self):
        e = z3.ToReal(self.e) if z3.is_int(self.e) else self.e
        return wrap(SQRT(z3.simplify(e)))

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def _cmp(self, o, f):
        b = arith(o)
        if b is None:
            return NotImplemented
        a, b = same_sort(self.e, b)
        return wrap(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        b = arith(o)
        if b is None:
            return False
        a, b = same_sort(self.e, b)
        return wrap(a == b)

    def __ne__(self, o):
        b = arith(o)
        if b is None:
            return True
        a, b = same_sort(self.e, b)
        return wrap(a != b)

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __index__(self):
        return ENG.concretize(trunc(self.e))

    def __int__(self):
        return ENG.concretize(trunc(self.e))

    def __float__(self):
        raise Unsupported('symbolic number needed as a float')

    def __repr__(self):
        return '<%s>' % self.e

    def __format__(self, spec):
        return ENG.token(self, spec)

    def __str__(self):
        return ENG.token(self, '')

    def item(self):
        return self

    def copy(self):
        return self


class SInt(SNum):
    pass


class SReal(SNum):
    def is_integer(self):
        return wrap(z3.ToReal(trunc(self.e)) == self.e)


class SAny(object):
    """value of an uninterpreted sort; only equality is known"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SAny) and o.e.sort() == self.e.sort():
            return wrap(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __repr__(self):
        return '<%s>' % self.e


def sem(exc):
    """mark an exception as raised by the code itself (not by the engine)"""
    exc.semantic = True
    return exc


class Poison(object):
    """a value that must not be used"""

    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _no(self, *a, **k):
        raise Unsupported('use of ' + object.__getattribute__(self, '_why'))

    def __getattr__(self, n):
        self._no()
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = _no
    __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = _no
    __contains__ = __index__ = __int__ = __float__ = __hash__ = __neg__ = _no
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __iadd__ = _no
    __str__ = __format__ = _no


# ---- structured values -------------------------------------------------


def subst(v, pairs):
    """replace z3 constants inside a structured value"""
    if isinstance(v, (SNum, SBool, SAny)):
        return wrap(z3.substitute(v.e, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if hasattr(type(v), 'subst'):
        return v.subst(pairs)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, complex):
        return v
    return v


def ite(c, a, b):
    """structured if-then-else"""
    if c is True or (not isinstance(c, bool) and z3.is_true(c)):
        return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, 'ite_with'):
        return a.ite_with(c, b)
    x, y = expr(a), expr(b)
    if x is not None and y is not None:
        if x.eq(y) and type(a) is type(b):
            return a
        if z3.is_bool(x) != z3.is_bool(y):
            x, y = arith(a), arith(b)
        x, y = same_sort(x, y)
        if x.sort() == y.sort():
            return wrap(z3.If(c, x, y))
    if isinstance(a, SAny) and isinstance(b, SAny):
        return wrap(z3.If(c, a.e, b.e))
    try:
        if type(a) == type(b) and isinstance(a, (str, bytes, int)) and a == b:
            return a
    except Exception:
        pass
    raise Unsupported('merge of %s and %s' % (type(a).__name__,
                                              type(b).__name__))


def veq(a, b):
    """obligations for equality of two structured values:
    list of (hypotheses, condition)"""
    from .seq import Seq, SList
    if isinstance(a, SList):
        a = a.seq
    if isinstance(b, SList):
        b = b.seq
    if type(a).__name__ == 'ndarray' and type(b).__name__ == 'ndarray':
        if a.shape != b.shape:
            return [([], z3.BoolVal(False))]
        return [o for x, y in zip(a.flat, b.flat) for o in veq(x, y)]
    if isinstance(a, Seq) or isinstance(b, Seq):
        return Seq.of(a).eq_obligations(Seq.of(b))
    if hasattr(a, 'eq_obligations'):
        return a.eq_obligations(b)
    if hasattr(b, 'eq_obligations'):
        return b.eq_obligations(a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return [([], z3.BoolVal(False))]
        out = []
        for x, y in zip(a, b):
            out += veq(x, y)
        return out
    if isinstance(a, complex) or isinstance(b, complex):
        return [([], z3.BoolVal(a == b))]
    x, y = expr(a), expr(b)
    if isinstance(a, SAny) and isinstance(b, SAny):
        x, y = a.e, b.e
    if x is None or y is None:
        if x is None and y is None and not isinstance(a, SAny):
            return [([], z3.BoolVal(bool(a == b)))]
        return [([], z3.BoolVal(False))]
    if z3.is_bool(x) and z3.is_bool(y):
        return [([], x == y)]
    x, y = same_sort(arith(x), arith(y))
    if x.sort() != y.sort():
        return [([], z3.BoolVal(False))]
    return [([], x == y)]


# ---- obligations -------------------------------------------------------


class Ob(object):
    def __init__(self, name, status, smt=None, model=None, why=None,
                 info=None, t=0.):
        self.name, self.status, self.smt, self.model = name, status, smt, \
            model
        self.why, self.info, self.t = why, info, t

    def summary(self):
        return {'obligation': self.name, 'status': self.status,
                'solver': self.why, 'counterexample': self.info,
                'smtlib': (self.smt or '')[:4000]}


def apps(e, decls, seen, out):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args():
                nm = x.decl().name()
                if nm in decls or nm[:3] == 'at<' or nm[:5] == 'rank<' \
                        or nm[:4] == 'rec<':
                    out.append(x)
                st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())


def ground(e):
    """no bound variable in e"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return False
        st.extend(x.children() if not z3.is_quantifier(x) else [])
    return True


def deep(e):
    """all applications in e, also below quantifiers"""
    seen, st, out = set(), [e], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        out.append(x)
        st.extend(x.children())
    return out


def mentions(e, c):
    return any(x.eq(c) for x in deep(e))


def axioms(es):
    """ground instances of the axioms of trunc and sqrt for the terms used"""
    terms, seen, general = [], set(), set()
    for e in es:
        apps(e, ('trunc', 'sqrt'), seen, terms)
    out, gen = [], {}
    for j, t in enumerate(terms):
        a = t.arg(0)
        nm = t.decl().name()
        if nm[:4] == 'rec<':
            if ground(t) and ENG is not None and nm in ENG.recs and \
                    gen.get(j, 0) < 2:
                F, step, h, kk = ENG.recs[nm]
                k = t.arg(1)
                b = z3.simplify(k - 1)
                out.append(z3.And(
                    z3.Implies(k == 0, t == a), z3.Implies(
                        k >= 1, t == z3.substitute(
                            step, (h, F(a, b)), (kk, b)))))
                n = len(terms)
                apps(out[-1], ('trunc', 'sqrt'), seen, terms)
                for q in range(n, len(terms)):
                    gen[q] = gen.get(j, 0) + 1
            continue
        if not ground(a):
            if nm not in general and nm not in ('trunc', 'sqrt'):
                d = DOMS.get(nm[nm.index('<') + 1:-1])
                if d is not None:
                    general.add(nm)
                    v = z3.Int('t!ax')
                    out.append(z3.ForAll([v], d.axiom(
                        nm[:nm.index('<')], v), patterns=[t.decl()(v)]))
            continue
        if nm[:3] == 'at<' or nm[:5] == 'rank<':
            d = DOMS.get(nm[nm.index('<') + 1:-1])
            if d is not None:
                out.append(d.axiom(nm[:nm.index('<')], a))
                if len(terms) < 200 and gen.get(j, 0) < 3:
                    n = len(terms)
                    apps(out[-1], ('trunc', 'sqrt'), seen, terms)
                    for q in range(n, len(terms)):
                        gen[q] = gen.get(j, 0) + 1
            continue
        if t.decl().name() == 'trunc':
            r = z3.ToReal(t)
            out += [z3.Implies(a >= 0, z3.And(r <= a, a < r + 1)),
                    z3.Implies(a < 0, z3.And(r >= a, a > r - 1))]
        else:
            out += [z3.Implies(a >= 0, z3.And(t >= 0, t*t == a))]
    return out


def match(p, t, b):
    """values b of the bound variables of p with p = t, or None"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in b:
            return b if b[i].eq(t) else None
        if p.sort() != t.sort():
            return None
        return {**b, i: t}
    if ground(p):
        return b if p.eq(t) or z3.simplify(p).eq(z3.simplify(t)) else None
    if z3.is_add(p):
        ps = list(p.children())
        ts = list(t.children()) if z3.is_add(t) else [t]
        hole = [x for x in ps if z3.is_var(x)]
        if len(hole) > 1:
            return None
        for x in ps:
            if z3.is_var(x):
                continue
            if ground(x):
                m = next((y for y in ts if y.eq(x)), None)
                if m is None:
                    ts.append(-x)
                else:
                    ts.remove(m)
                continue
            for j, y in enumerate(ts):
                c = match(x, y, b)
                if c is not None:
                    b = c
                    del ts[j]
                    break
            else:
                return None
        rest = z3.simplify(z3.Sum(ts)) if ts else z3.IntVal(0)
        if hole:
            return match(hole[0], rest, b)
        return b if rest.eq(z3.IntVal(0)) else None
    if not z3.is_app(p) or not z3.is_app(t) or p.decl() != t.decl() or \
            p.num_args() != t.num_args():
        return None
    for x, y in zip(p.children(), t.children()):
        b = match(x, y, b)
        if b is None:
            return None
    return b


def exists_in(e, seen, out):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_exists() and closed_q(x):
                out.append(x)
        else:
            st.extend(x.children())


def closed_q(q):
    n = q.num_vars()
    st = [(q.body(), n)]
    while st:
        x, n = st.pop()
        if z3.is_var(x) and z3.get_var_index(x) >= n:
            return False
        if z3.is_quantifier(x):
            st.append((x.body(), n + x.num_vars()))
        else:
            st.extend((c, n) for c in x.children())
    return True


def hints(es):
    """introductions of existential formulas (tautologies) with witnesses
    found by matching an equation of the formula"""
    out, qs, seen = [], [], set()
    for e in es:
        exists_in(e, seen, qs)
    for q in qs[:40]:
        st, eqs = [q.body()], []
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(x.children())
            elif z3.is_eq(x):
                eqs.append(x)
        for x in eqs:
            for l, r in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if ground(l) or not ground(r):
                    continue
                b = match(l, z3.simplify(r), {})
                n = q.num_vars()
                if b is None or any(i not in b for i in range(n)):
                    continue
                body = z3.substitute_vars(q.body(), *[b[i]
                                                      for i in range(n)])
                out.append(z3.Implies(body, q))
    return out


def exact(p, t, b):
    """values b of the bound variables of p with p = t, or None"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in b:
            return b if b[i].eq(t) else None
        return {**b, i: t} if p.sort() == t.sort() else None
    if ground(p):
        return b if p.eq(t) else None
    if z3.is_add(p):
        return match(p, t, b)
    if not z3.is_app(p) or not z3.is_app(t) or p.decl() != t.decl() or \
            p.num_args() != t.num_args():
        return None
    for x, y in zip(p.children(), t.children()):
        b = exact(x, y, b)
        if b is None:
            return None
    return b


class Instances(object):
    """instances of quantified formulas for the terms of a goal, found by
    matching their patterns: consequences that need no quantifier"""

    def __init__(self, limit=1500):
        self.terms, self.byname = {}, {}
        self.quants, self.seen = {}, set()
        self.done, self.out, self.limit = {}, [], limit
        self.keep, self.pats = [], {}

    def scan(self, e, terms=True):
        """note the ground terms and the quantified formulas of e"""
        self.keep.append(e)
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if (i, terms) in self.seen:
                continue
            self.seen.add((i, terms))
            if z3.is_quantifier(x):
                if i not in self.quants and not x.is_lambda() and \
                        closed_q(x):
                    self.quants[i] = x
                    if x.is_exists():
                        n = x.num_vars()
                        sk = [z3.FreshConst(x.var_sort(n - 1 - j), 'sk')
                              for j in range(n)]
                        self.add(z3.Implies(x, z3.substitute_vars(
                            x.body(), *sk)))
                continue
            if z3.is_app(x) and x.num_args():
                st.extend(x.children())
                if terms and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.terms[i] = x
                    self.byname.setdefault(x.decl().name(), []).append(x)

    def add(self, e):
        self.out.append(e)
        self.scan(e)

    def patterns(self, q):
        r = [q.pattern(k).children() for k in range(q.num_patterns())]
        if r:
            return r
        n, st, c, seen = q.num_vars(), [q.body()], [], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                st.extend(x.children())
                if x.num_args() and x.decl().kind() == \
                        z3.Z3_OP_UNINTERPRETED:
                    c.append(x)
        r = [[x] for x in c if len(vars_of(x)) == n][:2]
        if r or not c:
            return r
        got, r = set(), []
        for x in sorted(c, key=lambda x: -len(vars_of(x))):
            if not vars_of(x) <= got:
                r.append(x)
                got |= vars_of(x)
        return [r] if len(got) == n else []

    def bindings(self, ps, b):
        if not ps:
            yield b
            return
        for t in list(self.byname.get(ps[0].decl().name(), ())):
            c = exact(ps[0], t, b)
            if c is not None:
                yield from self.bindings(ps[1:], c)

    def round(self):
        new = []
        for i, q in list(self.quants.items()):
            n = q.num_vars()
            if i not in self.pats:
                self.pats[i] = self.patterns(q)
            for ps in self.pats[i]:
                if not all(z3.is_app(p) for p in ps):
                    continue
                for b in self.bindings(ps, {}):
                    if any(j not in b for j in range(n)):
                        continue
                    k = (i,) + tuple(b[j].get_id() for j in range(n))
                    if k in self.done:
                        continue
                    self.done[k] = b
                    e = z3.substitute_vars(q.body(), *[
                        b[j] for j in range(n)])
                    new.append(z3.Implies(q, e) if q.is_forall() else
                               z3.Implies(e, q))
                    if len(self.done) > self.limit:
                        break
        for e in new:
            self.add(e)
        return bool(new) and len(self.done) <= self.limit


def vars_of(e):
    st, seen, r = [e], set(), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            r.add(z3.get_var_index(x))
        elif not z3.is_quantifier(x):
            st.extend(x.children())
    return r


def opaque(e, memo):
    """e with its quantified formulas replaced by propositions"""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    if z3.is_quantifier(e):
        r = z3.Bool('q!%d' % i)
    elif z3.is_app(e) and e.num_args():
        c = e.children()
        d = [opaque(x, memo) for x in c]
        if all(x.eq(y) for x, y in zip(c, d)):
            r = e
        elif z3.is_and(e):
            r = z3.And(d)
        elif z3.is_or(e):
            r = z3.Or(d)
        else:
            r = e.decl()(*d)
    else:
        r = e
    memo[i] = (e, r)
    return r


class AttrCell(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def get_state(self):
        return getattr(self.obj, self.name)

    def set_state(self, v):
        object.__setattr__(self.obj, self.name, v)


class Ctx(object):
    """decision state of one exploration level"""

    def __init__(self):
        self.prefix = []      # [choice, alternative left]
        self.depth = 0


class Engine(object):
    def __init__(self, name, timeout=8000, maxpaths=600):
        self.name = name
        self.timeout = timeout
        self.maxpaths = maxpaths
        self.obs = []
        self.given_up = {}
        self.unsupported = []
        self.stack = []
        self.solver_time = 0.
        self.queries = 0
        self.paths = 0
        self.covers = {}
        self.nombqi = False   # search for branches by matching only
        self.n = 0
        self.heap = []
        self.tokens = {}
        self.keep_smt = KEEP
        self.only = ONLY
        self.on_refute = None    # (engine, model) -> info
        self.while_policy = None
        self.recs = {}
        self.memo, self.quick_smt = {}, None
        self.tie = None          # values determined by a cell
        self.assuming = 0        # obligations are known to hold (induction)
        self.fast = None         # ms for the feasibility of a branch
        self.place = None        # place of reading: .obj, .name, .at(u)

    # -- naming
    def fresh(self, sort, base='v'):
        self.n += 1
        return z3.Const('%s!%d' % (base, self.n), sort)

    def int(self, base='n'):
        return SInt(self.fresh(z3.IntSort(), base))

    def real(self, base='x'):
        return SReal(self.fresh(z3.RealSort(), base))

    def bool(self, base='b'):
        return SBool(self.fresh(z3.BoolSort(), base))

    def token(self, v, spec):
        """text standing for the formatted value"""
        k = '\ue000%s|%s\ue001' % (v.e.sexpr(), spec)
        self.tokens[k] = (v, spec)
        return k

    # -- solver
    def _check(self, *extra, quick=False, mbqi=True):
        t = time.time()
        self.queries += 1
        s = self.solver
        s.push()
        try:
            ax = axioms(list(extra) + self.axterms)
            hi = hints(list(extra) + ax)
            if quick and self.quick(ax + hi + list(extra)):
                self.last_model = None
                self.last_smt = self.quick_smt
                self.last_why = 'unsat'
                return z3.unsat
            s.add(*ax)
            s.add(*extra)
            s.add(*hi)
            if not mbqi and self.nombqi:
                s.set('mbqi', False)
            try:
                r = s.check()
            finally:
                if not mbqi and self.nombqi:
                    s.set('mbqi', True)
            self.last_model = s.model() if r == z3.sat else None
            if r == z3.unknown and not mbqi and self.nombqi:
                try:
                    self.last_model = s.model()   # a candidate only
                except z3.Z3Exception:
                    pass
            self.last_smt = s.to_smt2() if self.keep_smt or r != z3.unsat \
                else None
            self.last_why = s.reason_unknown() if r == z3.unknown else str(r)
        finally:
            s.pop()
            self.solver_time += time.time() - t
        return r

    def quick(self, es):
        """refuted already when quantified formulas are taken as
        propositions (a weaker set of hypotheses)"""
        s = z3.Solver()
        s.set('timeout', 1500)
        memo = self.memo
        for e in self.pc:
            if not z3.is_quantifier(e):
                s.add(opaque(e, memo))
        for e in es:
            if not z3.is_quantifier(e):
                s.add(opaque(e, memo))
        r = s.check() == z3.unsat
        if r and self.keep_smt:
            self.quick_smt = s.to_smt2()
        return r

    def instances(self, goal, rounds=6, budget=8.):
        """is the path condition with the goal refuted by the instances of
        its quantified formulas that matching from the goal finds?"""
        t = time.time()
        try:
            I, memo = Instances(), self.memo
            self.inst_I = I
            base = self.pc + axioms([goal] + self.axterms)
            I.scan(goal)
            for e in base:
                I.scan(e, False)
            s = z3.Solver()
            s.set('timeout', int(min(3., budget/2)*1000))
            for e in base + [goal]:
                s.add(opaque(e, memo))
            fed = 0
            for r in range(rounds):
                more = I.round()
                s.add([opaque(e, memo) for e in I.out[fed:]])
                hi = axioms(I.out[fed:]) + hints(I.out[fed:] + [goal])
                for e in hi:
                    I.scan(e)
                s.add([opaque(e, memo) for e in hi])
                fed = len(I.out)
                if s.check() == z3.unsat:
                    self.last_smt = s.to_smt2() if self.keep_smt else None
                    return True
                if time.time() - t > budget:
                    break
                if r == 2 and not more or r > 2 and not more:
                    break
                if r == 1:
                    for e in base:
                        if not z3.is_quantifier(e):
                            I.scan(e)
            return False
        finally:
            self.solver_time += time.time() - t

    @property
    def axterms(self):
        return self.pc

    def assume(self, c):
        c = truth(c) if not isinstance(c, z3.BoolRef) else c
        self.pc.append(c)
        self.solver.add(c)

    def decide(self, c, val=None):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        x = self.stack[-1]
        if x.depth < len(x.prefix):
            choice = x.prefix[x.depth][0]
            x.depth += 1
            self.assume(c if choice else z3.Not(c))
            return choice
        if self.fast:
            self.solver.set('timeout', self.fast)
        try:
            rt = self._check(c, mbqi=False)
            rf = self._check(z3.Not(c), quick=self.fast,
                             mbqi=False) if rt != z3.unsat else None
        finally:
            if self.fast:
                self.solver.set('timeout', self.timeout)
        if rt == z3.unsat:
            self.assume(z3.Not(c))
            x.prefix.append([False, False, val])
            x.depth += 1
            return False
        alt = rf != z3.unsat
        x.prefix.append([True, alt, val])
        x.depth += 1
        self.assume(c)
        return True

    def must(self, c, short=False):
        """c holds on this path (proved)"""
        c = z3.simplify(truth(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.fast:
            self.solver.set('timeout', self.fast if short else min(
                4000, self.timeout))
        try:
            r = self._check(z3.Not(c), quick=self.fast, mbqi=False)
            if r == z3.unknown and self.fast and not short:
                return self.instances(z3.Not(c))
            return r == z3.unsat
        finally:
            self.solver.set('timeout', self.timeout)

    def known(self, e, limit=64):
        """e, or its value when the path determines one"""
        if self.fast:
            self.solver.set('timeout', self.fast)
        try:
            self._check(mbqi=False)
        finally:
            self.solver.set('timeout', self.timeout)
        if self.last_model is None:
            return e
        v = self.last_model.eval(e, True)
        if z3.is_int_value(v) and -1 < v.as_long() <= limit and \
                self._check(e != v, mbqi=False) == z3.unsat:
            return v
        return e

    def concretize(self, e, limit=40):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in builtins.range(limit):
            x = self.stack[-1]
            if x.depth < len(x.prefix):
                v = x.prefix[x.depth][2]
                if v is None:
                    raise Unsupported('replay out of step')
            else:
                r = self._check(mbqi=False)
                if r == z3.unsat:
                    raise Infeasible()
                if self.last_model is None:
                    raise Unsupported('symbolic value needed as a concrete '
                                      'one (undecided)')
                v = self.last_model.eval(e, True)
                v = v.as_long()
            if z3.is_true(z3.simplify(e == v)) or self.decide(e == v, v):
                return v
        raise Unsupported('symbolic value needed as a concrete one')

    def push_level(self):
        self.solver.push()
        self.levels.append((len(self.pc), self.n))

    def pop_level(self):
        self.solver.pop()
        k, n = self.levels.pop()
        del self.pc[k:]

    def enter(self):
        """start a nested exploration (loop bodies)"""
        self.stack.append(Ctx())

    def nested_start(self):
        self.stack[-1].depth = 0
        self.push_level()

    def nested_next(self):
        """end one nested path; -> another one is left"""
        self.pop_level()
        p = self.stack[-1].prefix
        del p[self.stack[-1].depth:]
        while p and not p[-1][1]:
            p.pop()
        if not p:
            return False
        p[-1] = [not p[-1][0], False, p[-1][2]]
        self.paths += 1
        if self.paths > self.maxpaths*4:
            raise Unsupported('too many paths')
        return True

    def leave(self):
        self.stack.pop()

    def track(self, obj, *names):
        """make attributes of an object part of the state of loops"""
        for n in names:
            self.heap.append(AttrCell(obj, n))

    # -- exploration
    def explore(self, fn):
        """run fn() once per path"""
        global ENG
        old = ENG
        ENG = self
        try:
            prefix = []
            count = 0
            while True:
                self.solver = z3.Solver()
                self.solver.set('timeout', self.timeout)
                self.pc, self.levels = [], []
                self.heap, self.n = [], 0
                x = Ctx()
                x.prefix = prefix
                self.stack = [x]
                self.paths += 1
                count += 1
                try:
                    fn()
                    if len(self.stack) != 1:
                        self.unsupported.append('a loop left by an '
                                                'exception')
                except (PathEnd, Infeasible):
                    if len(self.stack) != 1:
                        self.unsupported.append('path ended inside a loop')
                except Unsupported as u:
                    self.unsupported.append(str(u))
                except RecursionError:
                    self.unsupported.append('recursion')
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    self.unsupported.append('%s: %s at %s' % (
                        type(e).__name__, e,
                        ['%s:%s' % (f.filename[-24:], f.lineno)
                         for f in tb[-4:]]))
                prefix = self.stack[0].prefix[:self.stack[0].depth]
                while prefix and not prefix[-1][1]:
                    prefix.pop()
                if not prefix:
                    break
                prefix[-1] = [not prefix[-1][0], False, prefix[-1][2]]
                if count > self.maxpaths:
                    self.unsupported.append('too many paths')
                    break
        finally:
            ENG = old
        return self

    # -- obligations
    def prove(self, name, c, hyps=()):
        """record the obligation that c holds on this path"""
        if not isinstance(c, z3.BoolRef):
            c = truth(c)
        c = z3.Implies(z3.And(*hyps), c) if hyps else c
        if self.assuming:
            self.assume(c)
            return True
        t = time.time()
        s = z3.simplify(c)
        full = self.name + '/' + name
        if self.only is not None and not self.only(full):
            return True
        if z3.is_true(s):
            self.obs.append(Ob(full, 'proved', why='simplified', t=0.))
            return True
        if z3.is_eq(s) and not hyps:
            from . import poly
            if poly.equal(s) or poly.equal(c):
                self.obs.append(Ob(full, 'proved', t=time.time() - t,
                                   why='polynomial normal form'))
                return True
        bad, lost = self.given_up.get(full, (0, 0.))
        if bad > 5 or lost > 30:
            self.obs.append(Ob(full, 'undecided', why='not tried again: '
                               'failed on other paths', t=0.))
            return None
        r = self._check(z3.Not(c), quick=self.fast, mbqi=False)
        if r == z3.unknown and self.fast and self.instances(z3.Not(c)):
            r = z3.unsat
        if r == z3.unknown and self.nombqi:
            self.solver.set('timeout', min(6000, self.timeout))
            try:
                r = self._check(z3.Not(c))
            finally:
                self.solver.set('timeout', self.timeout)
        dt = time.time() - t
        if r == z3.unsat:
            self.obs.append(Ob(full, 'proved', self.last_smt, t=dt,
                               why='unsat'))
            return True
        self.given_up[full] = (bad + (r == z3.sat), lost + dt)
        if r == z3.sat and getattr(self, 'unknown_doms', 0):
            # two enumerations may be the same without this being known
            self.obs.append(Ob(full, 'undecided', self.last_smt, None,
                               'sat, with enumerations not compared', None,
                               dt))
            return None
        if r == z3.sat:
            info = None
            if self.on_refute:
                try:
                    info = self.on_refute(self, self.last_model)
                except Exception as e:
                    info = 'no concrete input: %r' % (e,)
            self.obs.append(Ob(full, 'refuted', self.last_smt,
                               self.last_model, 'sat', info, dt))
            return False
        self.obs.append(Ob(full, 'undecided', self.last_smt, None,
                           self.last_why, None, dt))
        return None

    def prove_from(self, name, hyps, c):
        """a lemma: c follows from these hypotheses alone"""
        if self.assuming:
            return True
        full = self.name + '/' + name
        if self.only is not None and not self.only(full):
            return True
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*hyps)
        s.add(z3.Not(c))
        self.queries += 1
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        smt = s.to_smt2() if self.keep_smt or r != z3.unsat else None
        self.obs.append(Ob(full, 'proved' if r == z3.unsat else 'undecided',
                           smt, why=str(r), t=dt))
        return r == z3.unsat

    def prove_eq(self, name, a, b):
        r = True
        if self.only is not None and not self.only(self.name + '/' + name):
            return True
        obs = veq(a, b)
        if not obs:
            self.obs.append(Ob(self.name + '/' + name, 'proved',
                               why='trivial'))
        for hyps, c in obs:
            r = self.prove(name, c, hyps) and r
        return r

    def fail(self, name, why=''):
        """this path must not be reached"""
        return self.prove(name + (': ' + why if why else ''),
                          z3.BoolVal(False))

    def cover(self, name):
        """vacuity guard: this point is reachable"""
        if not self.covers.get(name):
            r = self._check(mbqi=False)
            # with quantified hypotheses the solver may leave this open
            self.covers[name] = r == z3.sat or r == z3.unknown and bool(
                self.fast)


class Cplx(object):
    """complex number with symbolic parts"""
    dtype = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def of(v):
        if isinstance(v, Cplx):
            return v
        if isinstance(v, complex):
            return Cplx(v.real, v.imag)
        if isinstance(v, SNum) or numval(v) is not None:
            return Cplx(v, 0)
        return None

    def _bin(self, o, f):
        o = Cplx.of(o)
        return NotImplemented if o is None else f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Cplx(a.real + b.real,
                                              a.imag + b.imag))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Cplx(a.real - b.real,
                                              a.imag - b.imag))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Cplx(b.real - a.real,
                                              b.imag - a.imag))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Cplx(
            a.real*b.real - a.imag*b.imag, a.real*b.imag + a.imag*b.real))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Cplx, complex)):
            raise Unsupported('division by a complex number')
        return Cplx(self.real/o, self.imag/o)

    def __neg__(self):
        return Cplx(-self.real, -self.imag)

    def conj(self):
        return Cplx(self.real, -self.imag)
    conjugate = conj

    def eq_obligations(self, o):
        o = Cplx.of(o)
        if o is None:
            return [([], z3.BoolVal(False))]
        return veq(self.real, o.real) + veq(self.imag, o.imag)

    def subst(self, p):
        return Cplx(subst(self.real, p), subst(self.imag, p))

    def ite_with(self, c, o):
        o = Cplx.of(o)
        return Cplx(ite(c, self.real, o.real), ite(c, self.imag, o.imag))

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __repr__(self):
        return '(%r+%rj)' % (self.real, self.imag)
